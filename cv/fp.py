"""Floating point over the integer domain: a value is a polynomial over integer and real atoms.
Every operation is the exact real operation followed by a rounding: when the exact result is an
integer small enough to be represented the rounding is the identity, otherwise it is a fresh real r
with |r - x| <= u*|x| (u = 2^-53 for double, 2^-24 for float). Overflow, underflow to subnormals and
NaN are excluded by assumption (recorded) when the bounds do not exclude them."""
from fractions import Fraction as F
import z3
from dom import *
from exec import FPV, ExecError, Ptr

PREC = {'double': 53, 'float': 24, 'x86_fp80': 64}
class FP:
    def __init__(self, d): self.d = d; self.cache = {}; self.ex = None; self.conv = []; self.ops = {}
    def mk(self, p, k): return FPV(None, frozenset(), k, P(p) if not isinstance(p, F) else (Poly({(): p}) if p else Poly({})))
    def fresh(self, name, k='double', lo=-INF, hi=INF): return self.mk(self.d.atomr(name, lo, hi), k)
    def const(self, v, k='double'):
        if isinstance(v, str):
            import struct
            if v.startswith('0x'):
                if v.startswith('0xK'): raise ExecError('x86_fp80 constant')
                v = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
            else: v = float(v)
        if v != v or v in (INF, -INF): return FPV(None, frozenset(), k, v)
        f = F(v); return self.mk(int(f) if f.denominator == 1 else Poly({(): f}), k)
    def isint(self, p):
        return all(not isinstance(c, F) or c.denominator == 1 for c in p.d.values()) and not any(self.d.A[a].kind == 'real' for a in p.atoms())
    def rnd(self, p, k, rel=None, ops=()):
        r = self.rnd0(p, k, ops)
        if rel is not None and isinstance(r.x, Poly):
            num, den, e = rel
            if r.x == p and e == 0: r2 = self.mk(r.x, k); r2.rel = rel; return r2
            r2 = self.mk(r.x, k); r2.rel = rel
            A = self.d.at(r.x)
            if A is not None and k == 'double' and A.kind == 'real' and (len(num.d) > 1 or den.const() is None) and len(num.d) <= 60 and not getattr(A, 'aux', None):
                # error analysis: |v*den - num| <= e * 2^-53 * |num|
                A.aux = rel; d = self.d
                df = (r.x*den - num)*(1 << 53); hi = num*e
                at = d.zat(df) | d.zat(num) | {A.id}
                zn, zd, zh = d.z(num), d.z(df), d.z(hi)
                A.defs.append(Cond(z3.Implies(zn >= 0, z3.And(zd <= zh, zd >= -zh)), at)); A.defs.append(Cond(z3.Implies(zn <= 0, z3.And(zd >= zh, zd <= -zh)), at))
            return r2
        return r
    def rel(self, a):
        if a.rel is not None: return a.rel
        if isinstance(a.x, Poly) and self.isint(a.x): return (a.x, P(1), 0)
        return None
    def rnd0(self, p, k, ops=()):
        d = self.d
        if p.const() is not None:
            c = F(p.const())
            if k == 'double':
                f = F(float(c)) if abs(c) < 2**1000 else c
                return self.mk(int(f) if f.denominator == 1 else Poly({(): f}), k)
        lo, hi = d.bounds(p); pr = PREC[k]
        if self.isint(p) and lo >= -(1 << pr) and hi <= (1 << pr): return self.mk(p, k)
        # an integer multiple of a power of two of small magnitude
        if self.isint(p) and len(p.d) == 1:
            (m, c), = p.d.items(); t = c & -c
            if m and t > 1 and max(abs(lo), abs(hi)) <= (1 << pr)*t: return self.mk(p, k)
        key = (p, k); r = self.cache.get(key)
        if r is not None: return r
        u = F(1, 1 << pr)
        if lo == -INF or hi == INF:
            nlo, nhi = (0 if lo >= 0 else -INF), (0 if hi <= 0 else INF)
            if self.ex is not None: self.ex.assume_used.add('floating point results with unbounded operands do not overflow and are not NaN')
        else:
            nlo = lo*(1+u) if lo < 0 else lo*(1-u); nhi = hi*(1+u) if hi > 0 else hi*(1-u)
        a = d.atomr('fl', nlo, nhi); A = d.at(a)
        zp = d.z(p); at = d.zat(p) | {A.id}; n = 1 << pr
        zp = z3.ToReal(zp) if zp.is_int() else zp
        A.defs.append(Cond(z3.Implies(zp >= 0, z3.And(A.z*n >= zp*(n-1), A.z*n <= zp*(n+1))), at))
        A.defs.append(Cond(z3.Implies(zp <= 0, z3.And(A.z*n <= zp*(n-1), A.z*n >= zp*(n+1))), at))
        self.ops[a] = [P(o) for o in ops if self.isint(P(o))]
        # rounding is monotone: a representable bound of the exact result bounds the rounded one
        for o in ops:
            o = P(o)
            if self.d.at(o) is None and o.const() is None and len(o.d) > 4: continue
            for o in ((o,) if o.const() == 0 else (o, -o)):
                zo = d.z(o); zo = z3.ToReal(zo) if zo.is_int() else zo; ato = at | d.zat(o)
                A.defs.append(Cond(z3.And(z3.Implies(zp <= zo, A.z <= zo), z3.Implies(zp >= zo, A.z >= zo)), ato))
        r = self.mk(a, k); self.cache[key] = r
        return r
    def num(self, a):
        if isinstance(a.x, float): raise ExecError('non-finite floating point constant in arithmetic')
        return a.x
    def bin(self, ex, st, op, a, b, k):
        self.ex = ex
        x, y = self.num(a), self.num(b)
        if op == 'fadd': return self.rnd(x + y, k)
        if op == 'fsub': return self.rnd(x - y, k)
        ra, rb = self.rel(a), self.rel(b); small = lambda r: r is not None and len(r[0].d)*len(r[1].d) <= 60
        if op == 'fmul':
            rel = (ra[0]*rb[0], ra[1]*rb[1], ra[2]+rb[2]+2) if small(ra) and small(rb) and k == 'double' and ra[2]+rb[2] < 1000 else None
            self.ex = ex; r = self.rnd(x*y, k, rel, (x, y)); d = self.d; A = d.at(r.x); xy = x*y
            if A is not None and A.kind == 'real' and x.const() is None and y.const() is None and ('ml', r.x) not in self.cache:
                # tautologies about products that linear arithmetic does not see
                self.cache[('ml', r.x)] = 1
                for a_, b_ in ((x, y), (y, x)):
                    if d.at(a_) is None or d.at(a_).kind != 'real': continue
                    za, zb, zp = d.z(a_), d.z(b_), d.z(xy)
                    A.defs.append(Cond(z3.Implies(z3.And(za >= 0, za <= 1), z3.And(z3.Implies(zb >= 0, z3.And(zp >= 0, zp <= zb)), z3.Implies(zb <= 0, z3.And(zp <= 0, zp >= zb)))), d.zat(x) | d.zat(y) | d.zat(xy) | {A.id}))
            return r
        if op == 'fdiv':
            d = self.d; rel = (ra[0]*rb[1], ra[1]*rb[0], ra[2]+rb[2]+2) if small(ra) and small(rb) and k == 'double' and ra[2]+rb[2] < 1000 else None
            ex.oblige(st, 'floating point divisor is not zero in %s' % ex.cur, d.rel('!=', y)) if getattr(ex, 'fp_div_check', True) else None
            if y.const() is not None:
                c = F(1)/F(y.const()); return self.rnd(Poly({m: F(v)*c if (F(v)*c).denominator != 1 else int(F(v)*c) for m, v in x.d.items()}), k)
            key = ('/', x, y); q = self.cache.get(key)
            if q is None:
                q = d.atomr('quo'); Q = d.at(q); qy = q*y
                at = d.zat(qy) | d.zat(x) | d.zat(y) | {Q.id}
                Q.defs.append(Cond(z3.Implies(d.z(y) != 0, d.z(qy) == d.z(x)), at))
                zx, zy = d.z(x), d.z(y)     # tautologies about the quotient
                Q.defs.append(Cond(z3.And(z3.Implies(zy > 0, z3.And((zx >= 0) == (Q.z >= 0), (zx <= 0) == (Q.z <= 0), (zx <= zy) == (Q.z <= 1), (zx >= zy) == (Q.z >= 1), (zx >= -zy) == (Q.z >= -1))),
                                          z3.Implies(zy < 0, z3.And((zx <= 0) == (Q.z >= 0), (zx >= 0) == (Q.z <= 0), (zx >= zy) == (Q.z <= 1), (zx <= zy) == (Q.z >= 1), (zx <= -zy) == (Q.z >= -1)))), at))
                self.cache[key] = q
            return self.rnd(q, k, rel, (P(1),))
        raise ExecError('floating point %s' % op)
    def neg(self, a): 
        if isinstance(a.x, float): return FPV(None, frozenset(), a.k, -a.x)
        return self.mk(-a.x, a.k)
    def cmp(self, ex, st, pred, a, b):
        d = self.d
        if isinstance(a.x, float) or isinstance(b.x, float):
            if pred in ('uno',): return a.x != a.x or b.x != b.x
            if isinstance(a.x, float) and isinstance(b.x, float):
                import operator as o
                f = {'eq': o.eq, 'ne': o.ne, 'lt': o.lt, 'le': o.le, 'gt': o.gt, 'ge': o.ge}[pred[1:]]; return f(a.x, b.x)
            s = (a.x > 0) if isinstance(a.x, float) else (b.x < 0)     # a is +inf / b is -inf
            return {'gt': s, 'ge': s, 'lt': not s, 'le': not s, 'eq': False, 'ne': True}[pred[1:]]
        if pred == 'ord': return True
        if pred == 'uno': return False
        op = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        return d.rel(op, a.x - b.x)
    def from_int(self, ex, st, x, signed, k):
        self.ex = ex; d = self.d; p = d.s(x) if signed else d.u(x)
        r = self.rnd0(p, k)
        if r.x == p: return r
        r = self.mk(r.x, k); r.rel = (p, P(1), 1)
        # monotone with respect to the other conversions
        A = d.at(r.x)
        for q, y, kk in self.conv:
            if kk != k or q == p: continue
            zp, zq = d.z(p), d.z(q); B = d.at(y)
            A.defs.append(Cond(z3.And(z3.Implies(zp <= zq, A.z <= B.z), z3.Implies(zp >= zq, A.z >= B.z)), d.zat(p) | d.zat(q) | {A.id, B.id}))
        if not any(q == p for q, _, kk in self.conv): self.conv.append((p, r.x, k))
        return r
    def trunc(self, p):
        """integer polynomial: p rounded toward zero"""
        d = self.d
        if self.isint(p): return p
        key = ('trunc', p); q = self.cache.get(key)
        if q is None:
            lo, hi = d.bounds(p)
            import math
            q = d.atom('trunc', lo if lo == -INF else math.ceil(lo) if lo > 0 else math.floor(lo), hi if hi == INF else math.ceil(hi)); Q = d.at(q); at = d.zat(p) | {Q.id}; zp = d.z(p)
            Q.defs.append(Cond(z3.Implies(zp >= 0, z3.And(Q.z <= zp, zp < Q.z + 1)), at)); Q.defs.append(Cond(z3.Implies(zp <= 0, z3.And(Q.z >= zp, zp > Q.z - 1)), at))
            self.cache[key] = q
        return q
    def to_int(self, ex, st, a, signed, bits):
        d = self.d; q = self.trunc(self.num(a))
        lo, hi = (-(1 << (bits-1)), (1 << (bits-1))-1) if signed else (0, (1 << bits)-1)
        ex.oblige(st, 'conversion to integer in range in %s' % ex.cur, c_and(d.ge(q, lo), d.le(q, hi)))
        if signed: return IV(ex.narrow(st, IV(q, bits), bits).p, bits)
        return IV(q, bits)
    def resize(self, ex, st, a, k):
        self.ex = ex
        if isinstance(a.x, float) or PREC[k] >= PREC[a.k]: return FPV(None, frozenset(), k, a.x)
        return self.rnd(a.x, k)
    def bits(self, ex, st, v, n): return FBits(v, n)
    def frombits(self, ex, st, v, k):
        if isinstance(v, FBits): return v.v
        c = self.d.concrete(v)
        if c is not None:
            import struct
            return self.const(struct.unpack('<d', struct.pack('<Q', c))[0] if k == 'double' else struct.unpack('<f', struct.pack('<I', c))[0], k)
        raise ExecError('floating point value from integer bits')
    def nint(self, p, mode):
        """floor, ceil, trunc, nearest (ties away: 'round'; ties to even: 'even') as an integer polynomial"""
        d = self.d
        if self.isint(p): return p
        if mode == 'trunc': return self.trunc(p)
        key = (mode, p); q = self.cache.get(key)
        if q is None:
            import math
            lo, hi = d.bounds(p)
            q = d.atom(mode, lo if lo == -INF else math.floor(lo), hi if hi == INF else math.ceil(hi)); Q = d.at(q); at = d.zat(p) | {Q.id}; zp = d.z(p)
            if mode == 'floor': c = z3.And(Q.z <= zp, zp < Q.z+1)
            elif mode == 'ceil': c = z3.And(Q.z >= zp, zp > Q.z-1)
            elif mode == 'round': c = z3.And(z3.Implies(zp >= 0, z3.And(2*Q.z <= 2*zp+1, 2*Q.z > 2*zp-1)), z3.Implies(zp <= 0, z3.And(2*Q.z >= 2*zp-1, 2*Q.z < 2*zp+1)))
            else: c = z3.And(2*Q.z <= 2*zp+1, 2*Q.z >= 2*zp-1, z3.Implies(z3.Or(2*Q.z == 2*zp+1, 2*Q.z == 2*zp-1), Q.z % 2 == 0))
            Q.defs.append(Cond(c, at)); self.cache[key] = q
            # integer bounds of the value are bounds of the rounded value (tautologies)
            for o in [P(0)] + [x for o in self.ops.get(p, ()) for x in (o, -o)]:
                zo = d.z(o); a2 = at | d.zat(o)
                if mode != 'ceil': Q.defs.append(Cond(z3.Implies(zp >= zo, Q.z >= zo), a2))
                if mode == 'ceil': Q.defs.append(Cond(z3.Implies(zp > zo, Q.z >= zo+1), a2))
                if mode == 'floor': Q.defs.append(Cond(z3.Implies(zp < zo, Q.z <= zo-1), a2))
                if mode != 'floor': Q.defs.append(Cond(z3.Implies(zp <= zo, Q.z <= zo), a2))
            A = d.at(p)
            if A is not None and isinstance(A.aux, tuple) and len(A.aux) == 3 and mode in ('floor', 'ceil', 'round'):
                # the distance to the integer, multiplied by the denominator the value approximates a quotient by (tautology)
                den = A.aux[1]; d.dens[Q.id] = {den}; df = (p - q)*den
                if mode == 'ceil': df = -df
                lo, hi = (0, 1) if mode != 'round' else (-1, 1)
                zf, zd = d.z(df), d.z(den); at = at | d.zat(df) | d.zat(den)
                Q.defs.append(Cond(z3.And(z3.Implies(zd >= 0, z3.And(zf >= lo*zd, zf <= hi*zd)), z3.Implies(zd <= 0, z3.And(zf <= lo*zd, zf >= hi*zd))), at))
        return q
    def sqrt(self, p):
        d = self.d; key = ('sqrt', p); q = self.cache.get(key)
        if q is None:
            lo, hi = d.bounds(p)
            q = d.atomr('sqrt', 0, INF); Q = d.at(q); qq = q*q
            Q.defs.append(Cond(z3.Implies(d.z(p) >= 0, d.z(qq) == d.z(p)), d.zat(qq) | d.zat(p) | {Q.id})); self.cache[key] = q
        return q
    def fabs(self, p):
        d = self.d; lo, hi = d.bounds(p)
        if lo >= 0: return p
        if hi <= 0: return -p
        key = ('abs', p); q = self.cache.get(key)
        if q is None:
            isint = self.isint(p); m = max(-lo, hi)
            q = d.atom('abs', 0, m) if isint else d.atomr('abs', 0, m); Q = d.at(q); zp = d.z(p)
            Q.defs.append(Cond(z3.And(z3.Implies(zp >= 0, Q.z == zp), z3.Implies(zp <= 0, Q.z == -zp)), d.zat(p) | {Q.id})); self.cache[key] = q
        return q
    def fn(self, ex, st, name, args, k):
        """a floating point library function by plain name, None if unknown"""
        self.ex = ex; d = self.d
        x = args[0].x if args and isinstance(args[0], FPV) else None
        n = name.rstrip('fl') if name not in ('ceil', 'floor', 'fabs', 'ceilf', 'floorf') else name.rstrip('f') if name.endswith('f') and name != 'f' and name in ('ceilf', 'floorf') else name
        if n in ('floor', 'ceil', 'trunc', 'round'): return self.mk(self.nint(self.num(args[0]), n), k)       # always representable
        if n in ('nearbyint', 'rint', 'roundeven'): return self.rnd(self.nint(self.num(args[0]), 'even'), k)
        if n in ('fabs',): return self.mk(self.fabs(self.num(args[0])), k)
        if n == 'sqrt':
            ex.oblige(st, 'square root of a non-negative value in %s' % ex.cur, d.rel('>=', x))
            return self.rnd(self.sqrt(self.num(args[0])), k)
        if n in ('cos', 'sin'):
            ex.assume_used.add('std::%s returns a value in [-1, 1]' % n)
            return self.mk(d.atomr(n, -1, 1), k)
        if n == 'acos' or n == 'atan2' or n == 'atan':
            ex.assume_used.add('std::%s returns a finite value' % n)
            return self.mk(d.atomr(n, 0 if n == 'acos' else -4, 4), k)
        if n == 'ldexp':
            e = d.concrete(args[1])
            if e is None: return None
            if e >= 1 << 31: e -= 1 << 32
            return self.mk(self.num(args[0])*(1 << e) if e >= 0 else Poly({m: F(c, 1 << -e) if F(c, 1 << -e).denominator != 1 else int(F(c, 1 << -e)) for m, c in self.num(args[0]).d.items()}), k)
        return None
    def intrinsic(self, ex, st, name, a):
        n = name.split('.')
        if n[0] != 'llvm': return None
        k = {'f64': 'double', 'f32': 'float', 'f80': 'x86_fp80'}.get(n[2] if len(n) > 2 else '')
        if n[1] in ('lround', 'llround', 'lrint', 'llrint') and isinstance(a[0], FPV):
            q = self.nint(self.num(a[0]), 'round' if 'round' in n[1] else 'even'); bits = 64
            ex.oblige(st, 'conversion to integer in range in %s' % ex.cur, c_and(self.d.ge(q, -(1 << 63)), self.d.le(q, (1 << 63)-1)))
            return IV(q, bits)
        if n[1] == 'fmuladd': return self.bin(ex, st, 'fadd', self.bin(ex, st, 'fmul', a[0], a[1], k), a[2], k)
        if n[1] == 'copysign': return None
        return self.fn(ex, st, n[1], a, k)

class FBits:
    """the bytes of a floating point value held in an integer"""
    __slots__ = ('v', 'w')
    def __init__(self, v, w): self.v = v; self.w = w
