"""Value domains of the verification-condition generator.

IntDom: machine integers as exact polynomials over integer atoms; reduction
        modulo 2^N is explicit (a fresh quotient atom with its defining
        inequalities), so nothing is approximated: machine arithmetic is NOT
        treated as mathematical.
BVDom:  machine integers as z3 bit-vectors.
"""
import z3, time, subprocess, tempfile, os, sys, traceback
from math import gcd

class DomError(Exception):
    pass

# ------------------------------------------------------------------ conditions
from fractions import Fraction
class Cond:
    """z3 formula plus the set of atoms (IntDom) it mentions"""
    __slots__ = ('z', 'at', 'p', 'ov')
    def __init__(self, z, at=frozenset(), p=None): self.z = z; self.at = at; self.p = p     # p: polynomial with (p >= 0) equivalent to z, when known

def c_not(c):
    if c is True: return False
    if c is False: return True
    return Cond(z3.Not(c.z), c.at, None if c.p is None else -c.p - 1)
def c_and(*cs):
    cs = [c for c in cs if c is not True]
    if len(cs) == 1: return cs[0]
    out = []; at = frozenset()
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c.z); at |= c.at
    if not out: return True
    if len(out) == 1: return Cond(out[0], at)
    return Cond(z3.And(*out), at)
def c_or(*cs):
    cs = [c for c in cs if c is not False]
    if len(cs) == 1: return cs[0]
    out = []; at = frozenset()
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c.z); at |= c.at
    if not out: return False
    if len(out) == 1: return Cond(out[0], at)
    return Cond(z3.Or(*out), at)
def c_imp(a, b): return c_or(c_not(a), b)
def c_iff(a, b):
    if a is True: return b
    if b is True: return a
    if a is False: return c_not(b)
    if b is False: return c_not(a)
    return Cond(a.z == b.z, a.at | b.at)
def c_xor(a, b): return c_not(c_iff(a, b))
def c_ite(c, a, b): return c_and(c_imp(c, a), c_imp(c_not(c), b))
def c_eq(a, b): return c_iff(a, b)

# ------------------------------------------------------------------ polynomials
class Poly:
    """sum of coef * monomial; monomial = sorted tuple of atom ids; () = constant"""
    __slots__ = ('d', '_h')
    def __init__(self, d): self.d = d; self._h = None
    def key(self):
        if self._h is None: self._h = tuple(sorted(self.d.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.d == o.d
    def __hash__(self): return hash(self.key())
    def const(self):
        if not self.d: return 0
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def __add__(self, o):
        o = P(o)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(d)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o); d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)); v = d.get(m, 0) + c1*c2
                if v: d[m] = v
                else: d.pop(m, None)
        return Poly(d)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return frozenset(s)
    def __repr__(self): return 'Poly(%r)' % (self.d,)
def _rv(x):
    x = Fraction(x); return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, int): return Poly({(): int(x)} if x else {})
    raise TypeError('Poly of %r' % (x,))

INF = float('inf')
def _mulb(a, b):
    if a == 0 or b == 0: return 0
    return a*b

class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'z', 'defs', 'rem', 'kind', 'aux', 'monodefs')
    def __init__(self, id, name, lo, hi, z, kind='in'):
        self.id = id; self.name = name; self.lo = lo; self.hi = hi; self.z = z; self.defs = []; self.rem = None
        self.kind = kind; self.aux = None

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.backend = {}
    def add(self, be, t):
        self.queries += 1; self.solver_s += t; self.backend[be] = self.backend.get(be, 0) + 1

class IntDom:
    name = 'int'
    def __init__(self, stats=None):
        self.A = []; self.monos = {}; self.fd = {}; self.b2ic = {}; self.b2keep = []; self.boolp = {}; self.tight = {}; self.stats = stats or Stats()
        self.iteC = {}; self.bitC = {}; self.dens = {}; self.mfC = {}; self.relaxer = Relaxer()
        self.timeout = 20000
        self.nl = True
    # ---- atoms
    def atom(self, name, lo=-INF, hi=INF, kind='in'):
        i = len(self.A); a = Atom(i, '%s!%d' % (name, i), lo, hi, z3.Int('%s!%d' % (name, i)), kind)
        if lo != -INF: a.defs.append(Cond(a.z >= lo, frozenset([i])))
        if hi != INF: a.defs.append(Cond(a.z <= hi, frozenset([i])))
        self.A.append(a)
        return Poly({(i,): 1})
    def atomr(self, name, lo=-INF, hi=INF):
        """a real-valued atom"""
        i = len(self.A); a = Atom(i, '%s!%d' % (name, i), lo, hi, z3.Real('%s!%d' % (name, i)), 'real')
        if lo != -INF: a.defs.append(Cond(a.z >= _rv(lo), frozenset([i])))
        if hi != INF: a.defs.append(Cond(a.z <= _rv(hi), frozenset([i])))
        self.A.append(a)
        return Poly({(i,): 1})
    def isreal(self, p):
        return any(isinstance(c, Fraction) for c in p.d.values()) or any(self.A[a].kind == 'real' for a in p.atoms())
    def at(self, p):
        """the atom of a polynomial that is exactly one atom"""
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if len(m) == 1 and c == 1: return self.A[m[0]]
        return None
    def mono(self, m):
        if len(m) == 1: return self.A[m[0]].z
        r = self.monos.get(m)
        if r is None:
            r = (z3.Real if any(self.A[x].kind == 'real' for x in m) else z3.Int)('m_' + '_'.join(map(str, m))); self.monos[m] = r
        return r
    def z(self, p):
        p = P(p)
        ts = []
        for m, c in p.d.items():
            if isinstance(c, Fraction): ts.append(_rv(c) if m == () else _rv(c) * self.mono(m))
            elif m == (): ts.append(z3.IntVal(c))
            elif c == 1: ts.append(self.mono(m))
            else: ts.append(c * self.mono(m))
        if not ts: return z3.IntVal(0)
        if len(ts) == 1: return ts[0]
        return z3.Sum(ts)
    def _mb(self, m):
        lo, hi = 1, 1
        i = 0
        # even powers are non-negative
        from collections import Counter
        for a, k in Counter(m).items():
            A = self.A[a]; l, h = A.lo, A.hi
            if k == 1: pl, ph = l, h
            else:
                cands = [_pow(l, k), _pow(h, k)]
                pl, ph = min(cands), max(cands)
                if k % 2 == 0:
                    if l <= 0 <= h: pl = 0
            c = [_mulb(lo, pl), _mulb(lo, ph), _mulb(hi, pl), _mulb(hi, ph)]
            lo, hi = min(c), max(c)
        return lo, hi
    def settight(self, p, lo, hi):
        """record a range that follows from the definitions of the atoms alone"""
        k = p.d.get((), 0); q = p - k
        if len(q.d) < 2: return
        l, h = self.bounds(q)
        self.tight[q] = (max(l, lo-k), min(h, hi-k))
    def bounds(self, p):
        p = P(p)
        if self.tight and len(p.d) > 1:
            k = p.d.get((), 0)
            q = p - k if k else p
            t = self.tight.get(q)
            if t is not None: return t[0]+k, t[1]+k
            t = self.tight.get(-q)
            if t is not None: return k-t[1], k-t[0]
        # fold remainders: for a quotient atom q with remainder poly r=(p0-m*q) in [0,m)
        lo = hi = 0
        if len(p.d) > 1:
            for a in sorted(p.atoms(), reverse=True):
                A = self.A[a]
                if A.rem is not None:
                    c = p.d.get((a,), 0)
                    m, rp = A.rem
                    if c and c % m == 0:
                        k = -(c//m)
                        q = p - rp*k
                        # only when it makes the rest no more complex
                        if len(q.d) <= len(p.d):
                            p = q
                            lo += min(0, k*(m-1)); hi += max(0, k*(m-1))
        for m, c in p.d.items():
            if m == (): lo += c; hi += c; continue
            l, h = self._mb(m)
            x, y = _mulb(l, c), _mulb(h, c)
            lo += min(x, y); hi += max(x, y)
        return lo, hi
    # ---- conditions on polys
    def rel(self, op, p):
        """p op 0"""
        p = P(p)
        k = p.const()
        if k is not None:
            return {'==': k == 0, '<=': k <= 0, '<': k < 0, '>=': k >= 0, '>': k > 0, '!=': k != 0}[op]
        if self.isreal(p): return self.relr(op, p)
        # content
        cs = [abs(c) for m, c in p.d.items() if m != ()]
        g = 0
        for c in cs: g = gcd(g, c)
        if g > 1:
            c0 = p.d.get((), 0)
            if op in ('==', '!='):
                if c0 % g: return op == '!='
                p = Poly({m: c//g for m, c in p.d.items()})
            else:
                q = {m: c//g for m, c in p.d.items() if m != ()}
                if op == '<': op, c0 = '<=', c0+1
                if op == '>': op, c0 = '>=', c0-1
                if op == '<=': c1 = -((-c0)//g)    # sum g*x + c0 <= 0 : x <= floor(-c0/g)
                else: c1 = c0//g                   # sum g*x + c0 >= 0 : x >= ceil(-c0/g) = -floor(c0/g)
                if c1: q[()] = c1
                p = Poly(q)
        lo, hi = self.bounds(p)
        if op == '==':
            if lo > 0 or hi < 0: return False
        elif op == '!=':
            if lo > 0 or hi < 0: return True
        elif op == '<=':
            if hi <= 0: return True
            if lo > 0: return False
        elif op == '<':
            if hi < 0: return True
            if lo >= 0: return False
        elif op == '>=':
            if lo >= 0: return True
            if hi < 0: return False
        elif op == '>':
            if lo > 0: return True
            if hi <= 0: return False
        z = self.z(p)
        zz = {'==': lambda: z == 0, '!=': lambda: z != 0, '<=': lambda: z <= 0, '<': lambda: z < 0, '>=': lambda: z >= 0, '>': lambda: z > 0}[op]()
        g = {'>=': lambda: p, '>': lambda: p-1, '<=': lambda: -p, '<': lambda: -p-1}.get(op)
        if g is not None: g = g()
        elif lo >= 0: g = p-1 if op == '!=' else -p
        elif hi <= 0: g = -p-1 if op == '!=' else p
        return Cond(zz, self.zat(p), g)
    def relr(self, op, p):
        lo, hi = self.bounds(p)
        if op == '==' and (lo > 0 or hi < 0): return False
        if op == '!=' and (lo > 0 or hi < 0): return True
        if op == '<=' and hi <= 0: return True
        if op == '<=' and lo > 0: return False
        if op == '<' and hi < 0: return True
        if op == '<' and lo >= 0: return False
        if op == '>=' and lo >= 0: return True
        if op == '>=' and hi < 0: return False
        if op == '>' and lo > 0: return True
        if op == '>' and hi <= 0: return False
        z = self.z(p)
        return Cond({'==': lambda: z == 0, '!=': lambda: z != 0, '<=': lambda: z <= 0, '<': lambda: z < 0, '>=': lambda: z >= 0, '>': lambda: z > 0}[op](), self.zat(p))
    def zat(self, p):
        s = set()
        for m in p.d:
            if len(m) > 1: s.add(m)
            s.update(m)
        return frozenset(s)
    def eq(self, a, b): return self.rel('==', P(a)-P(b))
    def ne(self, a, b): return self.rel('!=', P(a)-P(b))
    def le(self, a, b): return self.rel('<=', P(a)-P(b))
    def lt(self, a, b): return self.rel('<', P(a)-P(b))
    def ge(self, a, b): return self.rel('>=', P(a)-P(b))
    def gt(self, a, b): return self.rel('>', P(a)-P(b))
    # ---- floor division by a constant
    def fdiv(self, p, m):
        p = P(p)
        if m == 1: return p
        res = self._fdiv(p, m)
        if self.istight(p) and res.const() is None:
            lo, hi = self.bounds(p)
            if lo != -INF and hi != INF: self.settight(res, lo//m, hi//m)
        return res
    def _fdiv(self, p, m):
        t = {}; r = {}
        for mo, c in p.d.items():
            q = c // m; c1 = c - q*m
            if mo != () and c1 > m//2: q += 1; c1 -= m
            if q: t[mo] = q
            if c1: r[mo] = c1
        t = Poly(t); r = Poly(r)
        if not r.d: return t
        lo, hi = self.bounds(r)
        if lo != -INF and hi != INF and lo//m == hi//m: return t + lo//m
        g = m
        for mo, c in r.d.items():
            if mo != (): g = gcd(g, c)
        if g > 1:
            c0 = r.d.get((), 0)
            q = {mo: c//g for mo, c in r.d.items() if mo != ()}
            if c0//g: q[()] = c0//g
            return t + self.fdiv(Poly(q), m//g)
        lead = max(mo for mo in r.d if mo != ())
        if r.d[lead] < 0:
            # floor(r/m) = -floor((m-1-r)/m): one canonical quotient for a value and its complement
            return t - self.fdiv(P(m-1) - r, m)
        key = (r, m)
        q = self.fd.get(key)
        if q is None:
            q = self.atom('q', lo//m if lo != -INF else -INF, hi//m if hi != INF else INF, 'q')
            A = self.at(q)
            rem = r - q*m
            A.rem = (m, rem)
            zat = self.zat(rem)
            A.defs.append(Cond(self.z(rem) >= 0, zat)); A.defs.append(Cond(self.z(rem) < m, zat))
            self.fd[key] = q
        return t + q
    def modu(self, p, m):
        r = P(p) - self.fdiv(p, m)*m
        self.settight(r, 0, m-1)
        return r
    # ---- machine values: (Poly, width) as IV
    def iv(self, p, w): return IV(P(p), w)
    def const(self, n, w):
        return IV(P(n), w)
    def fresh(self, name, w, signed=False):
        if signed: return IV(self.atom(name, -(1 << (w-1)), (1 << (w-1))-1), w)
        return IV(self.atom(name, 0, (1 << w)-1), w)
    def u(self, v):
        lo, hi = self.bounds(v.p)
        M = 1 << v.w
        if lo >= 0 and hi < M: return v.p
        return self.modu(v.p, M)
    def s(self, v):
        lo, hi = self.bounds(v.p)
        H = 1 << (v.w-1)
        if lo >= -H and hi < H: return v.p
        r = v.p - self.fdiv(v.p + H, 2*H)*(2*H)
        self.settight(r, -H, H-1)
        return r
    def concrete(self, v):
        c = v.p.const()
        if c is None:
            return None
        return c % (1 << v.w)
    def istight(self, p):
        if len(p.d) < 2: return False
        k = p.d.get((), 0); q = p - k if k else p
        return q in self.tight or (-q) in self.tight
    def add(self, a, b):
        r = a.p + b.p
        if self.istight(a.p) or self.istight(b.p):
            x, y = self.bounds(a.p), self.bounds(b.p); self.settight(r, x[0]+y[0], x[1]+y[1])
        return self._cap(IV(r, a.w))
    def sub(self, a, b):
        r = a.p - b.p
        if self.istight(a.p) or self.istight(b.p):
            x, y = self.bounds(a.p), self.bounds(b.p); self.settight(r, x[0]-y[1], x[1]-y[0])
        return self._cap(IV(r, a.w))
    def mul(self, a, b):
        if a.w == 1: raise DomError('mul i1')
        r = a.p * b.p
        if self.istight(a.p) or self.istight(b.p):
            x, y = self.bounds(a.p), self.bounds(b.p); c = [_mulb(i, j) for i in x for j in y]
            self.settight(r, min(c), max(c))
        return self._cap(IV(r, a.w))
    def neg_i(self, a): return IV(-a.p, a.w)
    def _cap(self, v):
        """drop multiples of 2^w (they do not change the machine value)"""
        M = 1 << v.w
        if any(abs(c) >= M for c in v.p.d.values()):
            if self.istight(v.p):
                lo, hi = self.bounds(v.p)
                if lo > -M and hi < M: return v
            d = {}
            for m, c in v.p.d.items():
                c1 = c % M
                if m != () and c1 > M//2: c1 -= M
                if m == () and c < 0 and c1 and c > -M: c1 = c
                if c1: d[m] = c1
            return IV(Poly(d), v.w)
        return v
    def trunc(self, v, w):
        return self._cap(IV(v.p, w))
    def zext(self, v, w): return IV(self.u(v), w)
    def sext(self, v, w): return IV(self.s(v), w)
    def b2i(self, c, w):
        if c is True: return IV(P(1), w)
        if c is False: return IV(P(0), w)
        key = c.z.get_id()
        r = self.b2ic.get(key)
        if r is None and c.p is not None:
            # the truth value of p >= 0 as a quotient: 1 + floor(p / 2^k) for -2^k <= p < 2^k (this makes a carry tested by comparison and a carry taken from a high word the same term)
            lo, hi = self.bounds(c.p)
            if lo != -INF and hi != INF:
                k = max((-lo-1).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0)
                q = self.fdiv(c.p, 1 << k) + 1
                if len(q.d) <= 12:
                    self.b2ic[key] = r = q; self.b2keep.append(c)
                    if q.const() is None: self.boolp[q] = c; self.boolp[P(1)-q] = c_not(c); self.settight(q, 0, 1)
                    A = self.at(q) or self.at(q*-1) or self.at(q-1) or self.at(P(1)-q)
                    if A is not None and A.kind == 'q' and A.aux is None and (A.lo, A.hi) in ((0, 1), (-1, 0)):
                        t1 = q.d.get((A.id,), 0)*A.hi + q.d.get((), 0)      # truth value when the atom takes its high value
                        A.aux = c if t1 == 1 else c_not(c)                 # aux: condition 'atom == hi'
        if r is None:
            r = self.atom('b', 0, 1, 'b2i'); A = self.at(r); A.aux = c
            A.defs.append(Cond((A.z == 1) == c.z, c.at | {A.id}))
            self.b2ic[key] = r; self.boolp[r] = c; self.boolp[P(1)-r] = c_not(c)
        return IV(r, w)
    def bor(self, ca, cb):
        """disjunction of two carries: when they exclude each other by their definitions (so on every path) their sum is the truth value"""
        r = c_or(ca, cb)
        if not isinstance(ca, Cond) or not isinstance(cb, Cond) or not isinstance(r, Cond): return r
        sm = self.b2i(ca, 64).p + self.b2i(cb, 64).p
        if sm in self.boolp: return self.boolp[sm]
        x, _ = self.sat([self.rel('>=', sm - 2)], 4000)
        if x != 'unsat': return r
        self.settight(sm, 0, 1)
        c = Cond(r.z, r.at, sm-1)
        self.boolp[sm] = c; self.boolp[P(1)-sm] = c_not(c); self.b2ic[c.z.get_id()] = sm; self.b2keep.append(c)
        return c
    def i2b(self, v):
        """value of an i1 / truth of low bit"""
        return self.icmp('ne', self.trunc(v, 1) if v.w != 1 else v, IV(P(0), 1))
    def _single_b(self, p):
        # p = c0 + c1*b with b a b2i atom
        if 1 <= len(p.d) <= 2:
            ms = [m for m in p.d if m != ()]
            if len(ms) == 1 and len(ms[0]) == 1:
                A = self.A[ms[0][0]]
                if A.kind == 'b2i': return p.d.get((), 0), p.d[ms[0]], A
                if A.kind == 'q' and A.aux is not None:
                    c0, c1 = p.d.get((), 0), p.d[ms[0]]
                    if A.hi == 0: c0, c1 = c0 - c1, c1      # value c0 at lo (-1), c0+c1 at hi
                    return c0, c1, A
        return None
    def _poscmp(self, op, p):
        """p op 0, resolving polys over a single 0/1 atom into its condition"""
        for q, k0, k1 in ((p, 0, 1), (-p, 0, -1), (p+1, -1, 0), (P(1)-p, 1, 0)):      # p = k0 where the boolean q is 0, k1 where it is 1
            c = self.boolp.get(q)
            if c is not None:
                f = {'==': lambda k: k == 0, '!=': lambda k: k != 0, '<=': lambda k: k <= 0, '<': lambda k: k < 0, '>=': lambda k: k >= 0, '>': lambda k: k > 0}[op]
                t0, t1 = f(k0), f(k1)
                return t0 if t0 == t1 else c if t1 else c_not(c)
        sb = self._single_b(p)
        if sb:
            c0, c1, A = sb
            f = {'==': lambda k: k == 0, '!=': lambda k: k != 0, '<=': lambda k: k <= 0, '<': lambda k: k < 0, '>=': lambda k: k >= 0, '>': lambda k: k > 0}[op]
            t0, t1 = f(c0), f(c0+c1)
            if t0 == t1: return t0
            return A.aux if t1 else c_not(A.aux)
        return self.rel(op, p)
    def icmp(self, pred, a, b):
        w = a.w; M = 1 << w
        if pred in ('eq', 'ne'):
            op = '==' if pred == 'eq' else '!='
            d = self._cap(IV(a.p - b.p, w)).p
            # special bit atoms
            r = self._bitzero(a, b)
            if r is not None: return r if pred == 'eq' else c_not(r)
            lo, hi = self.bounds(d)
            if lo > -M and hi < M: return self._poscmp(op, d)
            la, ha = self.bounds(a.p); lb, hb = self.bounds(b.p); H = M >> 1
            if la >= -H and lb >= -H and ha < H and hb < H: return self._poscmp(op, a.p - b.p)
            return self._poscmp(op, self.u(a) - self.u(b))
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        x, y = (self.u(a), self.u(b)) if pred[0] == 'u' else (self.s(a), self.s(b))
        r = x - y
        if self.istight(x) or self.istight(y):
            bx, by = self.bounds(x), self.bounds(y); self.settight(r, bx[0]-by[1], bx[1]-by[0])
        return self._poscmp(op, r)
    def _bitzero(self, a, b):
        for x, y in ((a, b), (b, a)):
            A = self.at(x.p)
            if A is not None and A.kind == 'bit' and y.p.const() == 0:
                k, p, q, w = A.aux
                if k == 'or': return c_and(self.icmp('eq', p, y), self.icmp('eq', q, y))
                if k == 'xor': return self.icmp('eq', p, q)
        return None
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        if a.p == b.p: return a
        ca, cb = a.p.const(), b.p.const()
        if ca is not None and cb is not None:
            bb = self.b2i(c, a.w).p
            return IV(bb*(ca-cb) + cb, a.w)
        key = (c.z.get_id(), a.p, b.p)
        r = self.iteC.get(key)
        if r is None:
            l1, h1 = self.bounds(a.p); l2, h2 = self.bounds(b.p)
            r = self.atom('ite', min(l1, l2), max(h1, h2), 'ite'); A = self.at(r)
            at = c.at | self.zat(a.p) | self.zat(b.p) | {A.id}
            A.defs.append(Cond(z3.If(c.z, A.z == self.z(a.p), A.z == self.z(b.p)), at))
            A.aux = (c, a.p, b.p)
            self.iteC[key] = r
        return IV(r, a.w)
    def pite(self, c, p, q):
        """polynomial ite (mathematical integers)"""
        return self.ite(c, IV(P(p), 1 << 20), IV(P(q), 1 << 20)).p
    def absv(self, p): return self.pite(self.ge(p, 0), p, -P(p))
    def shl(self, a, b):
        k = self.concrete(b)
        if k is None: raise DomError('shl by symbolic amount in IntDom')
        if k >= a.w: raise DomError('shl overflow')
        return self._cap(IV(a.p * (1 << k), a.w))
    def lshr(self, a, b):
        k = self.concrete(b)
        if k is None: raise DomError('lshr by symbolic amount')
        return IV(self.fdiv(self.u(a), 1 << k), a.w)
    def ashr(self, a, b):
        k = self.concrete(b)
        if k is None: raise DomError('ashr by symbolic amount')
        return IV(self.fdiv(self.s(a), 1 << k), a.w)
    def _mask(self, n):
        return n > 0 and (n & (n+1)) == 0
    def and_(self, a, b):
        for x, y in ((a, b), (b, a)):
            k = self.concrete(y)
            if k is not None:
                if k == 0: return self.const(0, a.w)
                if k == (1 << a.w)-1: return x
                if self._mask(k): return IV(self.modu(x.p, k+1), a.w)
                # contiguous run of ones 2^h..2^l
                l = (k & -k).bit_length()-1; h = k.bit_length()
                if self._mask(k >> l):
                    return IV(self.fdiv(self.modu(x.p, 1 << h), 1 << l)*(1 << l), a.w)
                # all ones but a contiguous run (x & k == x - (x & ~k))
                c = ((1 << a.w)-1) ^ (k % (1 << a.w)); l = (c & -c).bit_length()-1; h = c.bit_length()
                if c and self._mask(c >> l):
                    return IV(x.p - self.fdiv(self.modu(x.p, 1 << h), 1 << l)*(1 << l), a.w)
        # 0/-1 or 0/1 combinations
        for x, y in ((a, b), (b, a)):
            sb = self._single_b(x.p)
            if sb and (sb[0] % (1 << a.w), (sb[0]+sb[1]) % (1 << a.w)) in ((0, (1 << a.w)-1), ((1 << a.w)-1, 0)):
                neg = sb[0] == 0
                return self.ite(sb[2].aux if neg else c_not(sb[2].aux), y, self.const(0, a.w))
            if sb and (sb[0] % (1 << a.w), (sb[0]+sb[1]) % (1 << a.w)) == (0, 1):
                return self.ite(sb[2].aux, IV(self.modu(y.p, 2), a.w), self.const(0, a.w))
            l, h = self.bounds(x.p)
            if (l, h) == (-1, 0):
                return self.ite(self.rel('<', x.p), y, self.const(0, a.w))
        return self._bit('and', a, b)
    def or_(self, a, b):
        if self.concrete(a) == 0: return b
        if self.concrete(b) == 0: return a
        for x, y in ((a, b), (b, a)):
            # disjoint: x multiple of 2^k, y < 2^k
            g = 0
            for m, c in x.p.d.items(): g = gcd(g, c)
            k = (g & -g)
            if k > 1:
                l, h = self.bounds(y.p)
                if 0 <= l and h < k: return IV(x.p + y.p, a.w)
        ca, cb = self.boolp.get(a.p), self.boolp.get(b.p)
        if ca is not None and cb is not None:
            return self.b2i(self.bor(ca, cb), a.w)
        sa, sb = self._single_b(a.p), self._single_b(b.p)
        if sa and sb and sa[:2] == (0, 1) and sb[:2] == (0, 1):
            return self.b2i(c_or(sa[2].aux, sb[2].aux), a.w)
        for x, y in ((a, b), (b, a)):
            l, h = self.bounds(x.p)
            if (l, h) == (-1, 0):
                return self.ite(self.rel('<', x.p), self.const(-1, a.w), y)
            k = self.concrete(y)
            if k is not None and k & (k-1) == 0:     # single bit set
                bit = self.modu(self.fdiv(x.p, k), 2)
                return IV(x.p + (P(1)-bit)*k, a.w)
        return self._bit('or', a, b)
    def xor(self, a, b):
        for x, y in ((a, b), (b, a)):
            k = self.concrete(y)
            if k is not None:
                if k == 0: return x
                if k == (1 << a.w)-1: return IV(P(-1) - x.p, a.w)
                l, h = self.bounds(x.p)
                if 0 <= l and h <= 1 and k == 1: return IV(P(1) - x.p, a.w)
                if k & (k-1) == 0:      # flip one bit
                    bit = self.modu(self.fdiv(x.p, k), 2)
                    return IV(x.p + (P(1)-bit*2)*k, a.w)
            l, h = self.bounds(x.p)
            if (l, h) == (-1, 0):
                return self.ite(self.rel('<', x.p), IV(P(-1)-y.p, a.w), y)
        ba, bb = self.bounds(a.p), self.bounds(b.p)
        if ba[0] >= 0 and ba[1] <= 1 and bb[0] >= 0 and bb[1] <= 1:
            return IV(a.p + b.p - a.p*b.p*2, a.w) if False else self.b2i(self.rel('!=', a.p - b.p), a.w)
        return self._bit('xor', a, b)
    def _bit(self, k, a, b):
        """partial (sound) axioms for general bitwise operations"""
        ua, ub = self.u(a), self.u(b); w = a.w
        key = (k, frozenset([ua, ub]) if ua != ub else ua, w)
        r = self.bitC.get(key)
        if r is not None: return IV(r, w)
        r = self.atom(k, 0, (1 << w)-1, 'bit'); A = self.at(r); A.aux = (k, IV(ua, w), IV(ub, w), w)
        z = A.z; x = self.z(ua); y = self.z(ub); at = self.zat(ua) | self.zat(ub) | {A.id}
        if k == 'or':
            f = [z >= x, z >= y, z <= x+y, (z == 0) == z3.And(x == 0, y == 0)]
            H = 1 << (w-1)
            f.append((z >= H) == z3.Or(x >= H, y >= H))
            for p, zx, zy in ((ua, x, y), (ub, y, x)):
                g = 0
                for m, c in p.d.items(): g = gcd(g, c)
                g &= -g
                if g > 1: f.append(z3.Implies(zy < g, z == zx+zy))    # no bit in common
        elif k == 'and':
            f = [z <= x, z <= y, z >= x + y - ((1 << w)-1)]
            H = 1 << (w-1)
            f.append((z >= H) == z3.And(x >= H, y >= H))
        else:
            f = [z <= x+y, z >= x-y, z >= y-x, (z == 0) == (x == y), z <= 2*((1 << w)-1) - x - y]
            H = 1 << (w-1)
            f.append((z >= H) == z3.Xor(x >= H, y >= H))
        for e in f: A.defs.append(Cond(e, at))
        self.bitC[key] = r
        return IV(r, w)
    # division by a symbolic or constant divisor
    def udiv(self, a, b): return self._tdiv(self.u(a), self.u(b), a.w)[0]
    def urem(self, a, b): return self._tdiv(self.u(a), self.u(b), a.w)[1]
    def sdiv(self, a, b): return self._tdiv(self.s(a), self.s(b), a.w)[0]
    def srem(self, a, b): return self._tdiv(self.s(a), self.s(b), a.w)[1]
    def _tdiv(self, x, y, w):
        q, r = self.tdivrem(x, y)
        return IV(q, w), IV(r, w)
    def tdivrem(self, x, y):
        """truncated division of mathematical integers (y != 0 is the caller's obligation)"""
        cy = y.const()
        lx, hx = self.bounds(x)
        if cy is not None and cy > 0 and lx >= 0:
            q = self.fdiv(x, cy); return q, x - q*cy
        key = ('tdiv', x, y)
        r = self.fd.get(key)
        if r is not None: return r
        # x = q*y + r ; |r|<|y| ; sign(r) in {0, sign x}
        ly, hy = self.bounds(y)
        my = max(abs(ly), abs(hy))
        mx = max(abs(lx), abs(hx))
        q = self.atom('tq', -mx if (lx < 0 or ly < 0) else 0, mx, 'tq'); Q = self.at(q)
        r = self.atom('tr', -min(my-1, mx) if lx < 0 else 0, min(my-1, mx) if hx > 0 else 0, 'tr'); R = self.at(r)
        zx, zy = self.z(x), self.z(y); zq, zr = Q.z, R.z
        qy = q*y
        at = self.zat(x) | self.zat(y) | self.zat(qy) | {Q.id, R.id}
        zqy = self.z(qy)
        f = [zx == zqy + zr,
             z3.Implies(zx >= 0, zr >= 0), z3.Implies(zx <= 0, zr <= 0),
             z3.Implies(zy > 0, z3.And(zr < zy, -zr < zy)), z3.Implies(zy < 0, z3.And(zr < -zy, -zr < -zy)),
             z3.Implies(z3.And(zx >= 0, zy > 0), zq >= 0), z3.Implies(z3.And(zx <= 0, zy < 0), zq >= 0),
             z3.Implies(z3.And(zx >= 0, zy < 0), zq <= 0), z3.Implies(z3.And(zx <= 0, zy > 0), zq <= 0),
             z3.Implies(z3.And(zx >= 0, zy > 0, zx < zy), zq == 0)]
        nz = zy != 0
        for e in f: Q.defs.append(Cond(z3.Implies(nz, e), at)); 
        R.defs.append(Cond(z3.BoolVal(True), at))
        self.fd[key] = (q, r)
        return q, r
    def smax(self, a, b): return self.ite(self.icmp('sgt', a, b), a, b)
    # ---- queries
    def closure(self, atoms, extra_mono=True):
        seen = set(); work = list(atoms); facts = []; ids = set()
        while work:
            a = work.pop()
            if a in seen: continue
            seen.add(a)
            if isinstance(a, tuple):
                for x in a:
                    if x not in seen: work.append(x)
                continue
            for d in self.A[a].defs:
                k = d.z.get_id()
                if k not in ids:
                    ids.add(k); facts.append(d.z)
                for x in d.at:
                    if x not in seen: work.append(x)
        return facts, seen
    def mono_facts(self, seen, lemmas=True):
        out = []
        for m in seen:
            if not isinstance(m, tuple): continue
            r = self.mfC.get((m, lemmas))
            if r is None:
                v = self.mono(m); r = []
                lo, hi = self._mb(m)
                if lo != -INF: r.append(v >= (_rv(lo) if isinstance(lo, Fraction) else lo))
                if hi != INF: r.append(v <= (_rv(hi) if isinstance(hi, Fraction) else hi))
                if lemmas: r += self._lemmas(m)
                if len(r) > 1: r = [z3.And(*r)]
                self.mfC[(m, lemmas)] = r
            out += r
        return out
    def _lemmas(self, m):
        """sign and magnitude lemmas for a product x*rest"""
        out = []; v = self.mono(m)
        if len(m) == 2:
            splits = [((m[0],), (m[1],))]
        else:
            splits = [((m[i],), m[:i]+m[i+1:]) for i in range(len(m)) if i == 0 or m[i] != m[i-1]]
        for a, b in splits:
            x, y = self.mono(a), self.mono(b)
            la, ha = self._mb(a); lb, hb = self._mb(b)
            if any(isinstance(t, Fraction) for t in (la, ha, lb, hb)):
                w = lambda t: t if abs(t) == INF else _rv(t)
                fin = lambda t, u: abs(t) != INF and abs(u) != INF
                for (p, q) in ((la, lb), (ha, hb)):
                    if fin(p, q): out.append(v >= w(p)*y + w(q)*x - w(p)*w(q))
                for (p, q) in ((ha, lb), (la, hb)):
                    if fin(p, q): out.append(v <= w(p)*y + w(q)*x - w(p)*w(q))
                out.append((v == 0) == z3.Or(x == 0, y == 0))
                out.append((v > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
                continue
            # McCormick
            for (p, q) in ((la, lb), (ha, hb)):
                if abs(p) != INF and abs(q) != INF: out.append(v >= p*y + q*x - p*q)
            for (p, q) in ((ha, lb), (la, hb)):
                if abs(p) != INF and abs(q) != INF: out.append(v <= p*y + q*x - p*q)
            if la >= 0 and lb >= 0:
                out.append((v == 0) == z3.Or(x == 0, y == 0))
                out.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(v >= x, v >= y)))
            else:
                out.append((v == 0) == z3.Or(x == 0, y == 0))
                out.append((v > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
        return out
    def make_solver(self, facts_c, nia=False, lemmas=True, timeout=None):
        at = frozenset()
        for c in facts_c: at |= c.at
        defs, seen = self.closure(at)
        # monomials whose atoms' defs bring further monomials are in seen
        s = z3.SimpleSolver() if not nia else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for d in defs: s.add(d)
        for d in self.mono_facts(seen, lemmas): s.add(d)
        if nia:
            for m in seen:
                if isinstance(m, tuple):
                    e = self.A[m[0]].z
                    for x in m[1:]: e = e*self.A[x].z
                    s.add(self.mono(m) == e)
        for c in facts_c: s.add(c.z)
        return s, seen
    def _has_mono(self, seen): return any(isinstance(m, tuple) for m in seen)
    relax = True
    def slow(self, t, be, r):
        if SLOWQ and time.time()-t > SLOWQ: sys.stderr.write('slow %s %.1fs %s\n' % (be, time.time()-t, r)); sys.stderr.write(''.join(traceback.format_stack()[-9:-2]))
    def sat(self, facts, timeout=None, feas=False):
        """'sat' | 'unsat' | 'unknown' of the conjunction (True/False allowed)"""
        fs = []
        for f in facts:
            if f is True: continue
            if f is False: return 'unsat', None
            fs.append(f)
        if not fs: return 'sat', None
        t = time.time()
        at = frozenset()
        for c in fs: at |= c.at
        seen = self.closure(at)[1]
        if self.relax and any(not isinstance(m, tuple) and self.A[m].kind == 'real' for m in seen):
            # relaxation: every variable real
            q = z3.SimpleSolver(); q.set('timeout', int(timeout or self.timeout)); tr = self.relaxer.tr
            try:
                for e in self.closure(at)[0]: q.add(tr(e))
                for e in self.mono_facts(seen, True): q.add(tr(e))
                for e in fs: q.add(tr(e.z))
                r = q.check()
            except NoRelax: r = z3.unknown
            self.stats.add('z3-lra', time.time()-t); self.slow(t, 'lra', r)
            if r == z3.unsat: return 'unsat', None
            if feas: return 'unknown', None
            t = time.time()
        s, seen = self.make_solver(fs, lemmas=False, timeout=timeout)
        r = s.check(); be = 'z3-lia'
        if r != z3.unsat and self._has_mono(seen):
            s2, _ = self.make_solver(fs, lemmas=True, timeout=timeout)
            r2 = s2.check(); be = 'z3-lia+products'
            s, r = s2, r2
        self.stats.add(be, time.time()-t); self.slow(t, be, r)
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None
    def sat_nia(self, facts, timeout):
        fs = [f for f in facts if f is not True]
        if any(f is False for f in fs): return 'unsat', None
        t = time.time()
        s, seen = self.make_solver(fs, nia=True, timeout=timeout)
        r = s.check()
        self.stats.add('z3-nia', time.time()-t); self.slow(t, 'z3-nia', r)
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None
    def prove(self, facts, goal, timeout=None, cvc5=True):
        """-> ('proved'|'failed'|'unknown', model)"""
        if goal is True: return 'proved', None, 'trivial'
        q = list(facts) + [c_not(goal)]
        n0 = dict(self.stats.backend)
        r, m = self.sat(q, timeout)
        if r == 'unsat': return 'proved', None, 'z3-lia'
        fs = [f for f in q if f is not True]
        at = frozenset()
        for f in fs:
            if f is not False: at |= f.at
        _, seen = self.closure(at)
        nonlin = self._has_mono(seen)
        if r == 'sat' and not nonlin: return 'failed', m, 'z3-lia'
        r2, m2 = self.sat_nia(q, timeout or self.timeout)
        if r2 == 'unsat': return 'proved', None, 'z3-nia'
        if r2 == 'sat': return 'failed', m2, 'z3-nia'
        if r == 'sat': return 'failed?', m, 'z3-lia'
        if cvc5:
            s, _ = self.make_solver([f for f in fs if f is not False], nia=nonlin)
            r3 = run_cvc5(s, (timeout or self.timeout)//1000, self.stats)
            if r3 == 'unsat': return 'proved', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'
    def mul_lemma(self, p, q, strict=False):
        """the tautology p >= 0 and q >= 0 implies p*q >= 0 (a hint: the product's monomials become related to p and q)"""
        p, q = P(p), P(q); r = p*q
        zp, zq, zr = self.z(p), self.z(q), self.z(r)
        if strict: return Cond(z3.Implies(z3.And(zp > 0, zq > 0), zr > 0), self.zat(p) | self.zat(q) | self.zat(r))
        return Cond(z3.Implies(z3.And(zp >= 0, zq >= 0), zr >= 0), self.zat(p) | self.zat(q) | self.zat(r))
    def evalp(self, model, p):
        """value of a polynomial in a model, from its atoms (so products are exact)"""
        tot = 0
        for m, c in P(p).d.items():
            v = c
            for a in m:
                x = model.eval(self.A[a].z, model_completion=True)
                v *= x.as_long() if z3.is_int_value(x) else x.as_fraction() if z3.is_rational_value(x) else Fraction(x.approx(30).as_fraction())
            tot += v
        return tot

SLOWQ = float(os.environ.get('CV_SLOW', '0') or 0)
class NoRelax(Exception): pass
class Relaxer:
    """translation of formulas with integer variables taken as reals (unsatisfiable there: unsatisfiable)"""
    def __init__(self): self.c = {}
    def tr(self, e):
        r = self.c.get(e.get_id())
        if r is not None: return r[1]
        stack = [e]
        while stack:
            x = stack[-1]
            if x.get_id() in self.c: stack.pop(); continue
            todo = [y for y in x.children() if y.get_id() not in self.c]
            if todo: stack += todo; continue
            stack.pop(); self.c[x.get_id()] = (x, self.one(x))
        return self.c[e.get_id()][1]
    def one(self, x):
        k = x.decl().kind(); ch = [self.c[y.get_id()][1] for y in x.children()]
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch: raise NoRelax()
            return z3.Real(x.decl().name() + '.r') if z3.is_int(x) else x
        if k == z3.Z3_OP_ANUM: return z3.RealVal(x.as_string()) if z3.is_int(x) else x
        if k in (z3.Z3_OP_TO_REAL,): return ch[0]
        if k == z3.Z3_OP_ADD: return z3.Sum(ch)
        if k == z3.Z3_OP_MUL: return ch[0]*ch[1] if len(ch) == 2 else z3.Product(ch)
        if k == z3.Z3_OP_SUB: return ch[0] - ch[1] if len(ch) == 2 else ch[0] - z3.Sum(ch[1:])
        if k == z3.Z3_OP_UMINUS: return -ch[0]
        if k == z3.Z3_OP_LE: return ch[0] <= ch[1]
        if k == z3.Z3_OP_LT: return ch[0] < ch[1]
        if k == z3.Z3_OP_GE: return ch[0] >= ch[1]
        if k == z3.Z3_OP_GT: return ch[0] > ch[1]
        if k == z3.Z3_OP_EQ: return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
        if k == z3.Z3_OP_AND: return z3.And(*ch)
        if k == z3.Z3_OP_OR: return z3.Or(*ch)
        if k == z3.Z3_OP_NOT: return z3.Not(ch[0])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(*ch)
        if k == z3.Z3_OP_XOR: return z3.Xor(*ch)
        if k == z3.Z3_OP_ITE: return z3.If(*ch)
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE: return x
        raise NoRelax()

def _pow(x, k):
    if x in (INF, -INF): return INF if (x > 0 or k % 2 == 0) else -INF
    return x**k

class IV:
    """machine integer: value == p modulo 2^w"""
    __slots__ = ('p', 'w')
    def __init__(self, p, w): self.p = p; self.w = w
    def __repr__(self): return 'i%d(%r)' % (self.w, self.p)

def run_cvc5(solver, tmo, stats, logic=None):
    txt = solver.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt); fn = f.name
    t = time.time()
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % (tmo*1000), '-q', fn], capture_output=True, text=True, timeout=tmo+5)
        r = o.stdout.strip().split('\n')[0]
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(fn)
    stats.add('cvc5', time.time()-t)
    return r

# ------------------------------------------------------------------ bit-vectors
class BV:
    __slots__ = ('z', 'w')
    def __init__(self, z, w): self.z = z; self.w = w

class BVDom:
    name = 'bv'
    def __init__(self, stats=None):
        self.stats = stats or Stats(); self.n = 0; self.timeout = 60000
    def mk(self, z): 
        z = z3.simplify(z)
        return BV(z, z.size())
    def const(self, n, w): return BV(z3.BitVecVal(n, w), w)
    def fresh(self, name, w, signed=False):
        self.n += 1
        return BV(z3.BitVec('%s!%d' % (name, self.n), w), w)
    def concrete(self, v):
        return v.z.as_long() if z3.is_bv_value(v.z) else None
    def cnd(self, z):
        z = z3.simplify(z)
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        return Cond(z)
    def add(self, a, b): return self.mk(a.z + b.z)
    def sub(self, a, b): return self.mk(a.z - b.z)
    def mul(self, a, b): return self.mk(a.z * b.z)
    def udiv(self, a, b): return self.mk(z3.UDiv(a.z, b.z))
    def urem(self, a, b): return self.mk(z3.URem(a.z, b.z))
    def sdiv(self, a, b): return self.mk(a.z / b.z)
    def srem(self, a, b): return self.mk(z3.SRem(a.z, b.z))
    def and_(self, a, b): return self.mk(a.z & b.z)
    def or_(self, a, b): return self.mk(a.z | b.z)
    def xor(self, a, b): return self.mk(a.z ^ b.z)
    def shl(self, a, b): return self.mk(a.z << b.z)
    def lshr(self, a, b): return self.mk(z3.LShR(a.z, b.z))
    def ashr(self, a, b): return self.mk(a.z >> b.z)
    def trunc(self, v, w): return self.mk(z3.Extract(w-1, 0, v.z))
    def zext(self, v, w): return self.mk(z3.ZeroExt(w - v.w, v.z))
    def sext(self, v, w): return self.mk(z3.SignExt(w - v.w, v.z))
    def b2i(self, c, w):
        if isinstance(c, bool): return self.const(int(c), w)
        return self.mk(z3.If(c.z, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
    def i2b(self, v): return self.cnd(z3.Extract(0, 0, v.z) == z3.BitVecVal(1, 1))
    def ite(self, c, a, b):
        if c is True: return a
        if c is False: return b
        return self.mk(z3.If(c.z, a.z, b.z))
    def icmp(self, pred, a, b):
        x, y = a.z, b.z
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]()
        return self.cnd(f)
    relax = True
    def slow(self, t, be, r):
        if SLOWQ and time.time()-t > SLOWQ: sys.stderr.write('slow %s %.1fs %s\n' % (be, time.time()-t, r)); sys.stderr.write(''.join(traceback.format_stack()[-9:-2]))
    def sat(self, facts, timeout=None, feas=False):
        fs = []
        for f in facts:
            if f is True: continue
            if f is False: return 'unsat', None
            fs.append(f.z)
        if not fs: return 'sat', None
        t = time.time()
        s = z3.SolverFor('QF_BV'); s.set('timeout', timeout or self.timeout)
        s.add(*fs); r = s.check(); self.stats.add('z3-bv', time.time()-t)
        if r == z3.sat: return 'sat', s.model()
        return ('unsat' if r == z3.unsat else 'unknown'), None
    def prove(self, facts, goal, timeout=None, cvc5=True):
        if goal is True: return 'proved', None, 'trivial'
        r, m = self.sat(list(facts)+[c_not(goal)], timeout)
        if r == 'unsat': return 'proved', None, 'z3-bv'
        if r == 'sat': return 'failed', m, 'z3-bv'
        s = z3.Solver()
        for f in list(facts)+[c_not(goal)]:
            if f is not True: s.add(z3.BoolVal(False) if f is False else f.z)
        if cvc5 and run_cvc5(s, (timeout or self.timeout)//1000, self.stats) == 'unsat': return 'proved', None, 'cvc5'
        return 'unknown', None, 'z3-bv'
    def evalv(self, model, v):
        return model.eval(v.z, model_completion=True).as_long()
