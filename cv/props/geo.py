"""Shared machinery of the geometry properties: functions of scalar coordinates under contract. A contract is one
Python function over a domain D, evaluated symbolically (IntDom) for the proof and on integers (PyDom) for replays."""
from lib import *
from cut import *
from arr import *
from fractions import Fraction

class PyDom:
    name = 'py'
    def rel(self, op, p): return {'==': p == 0, '!=': p != 0, '<': p < 0, '<=': p <= 0, '>': p > 0, '>=': p >= 0}[op]
    def eq(self, a, b): return a == b
    def ne(self, a, b): return a != b
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def gt(self, a, b): return a > b
    def ge(self, a, b): return a >= b
    def pite(self, c, a, b): return a if c else b
    def absv(self, a): return abs(a)
    def modu(self, a, m): return a % m
    def fdiv(self, a, m): return a // m
PY = PyDom()
CT = {8: ctypes.c_int8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64, 'u64': ctypes.c_uint64, 'u32': ctypes.c_uint32, 'u8': ctypes.c_uint8, 'd': ctypes.c_double, 'b': ctypes.c_bool}
HEAD = '''#include <poly_ops/poly_ops.hpp>
#include <poly_ops/polydraw.hpp>
using namespace poly_ops; using namespace poly_ops::detail;
typedef std::int64_t i64;
template<class T> static inline void put(T *o,const T &v) { *o = v; }
template<unsigned N> static inline void putl(i64 *o,const large_ints::compound_int<N> &v) { for(unsigned i=0;i<N;++i) o[i] = i64(v[i]); }
static inline void putl(i64 *o,i64 v) { o[0] = v; }
'''
class Par:
    """scalar parameter: bits, range; signed"""
    def __init__(self, name, bits=32, lo=None, hi=None, sg=True):
        self.name = name; self.bits = bits; self.sg = sg
        self.lo = (-(1 << (bits-1)) if sg else 0) if lo is None else lo; self.hi = ((1 << (bits-1))-1 if sg else (1 << bits)-1) if hi is None else hi
class V(dict):
    __getattr__ = dict.__getitem__
def coords(names, bits, lim=None):
    lim = lim or 1 << (bits-2)
    return [Par(n, bits, -lim+1, lim-1) for n in names.split()]

def fn_task(unit, name, pars, ret, outs, post, pre=None, funcs=(), gen=None, contracts=(), cuts=(), kw=None, n_quick=20000, setup=None, timeout=None, task=None, budget=None, cases=None, conc_extra=None, after=None, hint=None, bounded=None, lemma=None, derive=None, argn=None, dbounds=None):
    """extern "C" RET name(pars..., outs*...)
    ret: None, 'b', ('i',bits) ; outs: [(name, bits|'d', count)]
    derive(D, v) sets further values computed from the parameters, argn: [(name, bits)] passed instead of the parameters.
    pre(D, v) -> [cond]; post(D, v, r, o) -> [(name, cond)]; cases: list of pre functions, one symbolic run each"""
    def prove(R):
        for case in (cases or [None]): one(R, case)
    def one(R, case):
        ex, d = R.new('int', contracts=list(contracts), cuts=[c() for c in cuts], **(kw or {}))
        st = ex.new_state(); v = V(); args = []
        for p in pars:
            a = d.atom(p.name, p.lo, p.hi); v[p.name] = a; args.append(IV(a, p.bits))
        if derive:
            derive(d, v); args = [IV(v[n], w) for n, w in argn]
            for n, lo, hi in (dbounds or []): st.add(d.ge(v[n], lo)); st.add(d.le(v[n], hi)); d.settight(v[n], lo, hi)
        if setup: setup(ex, d, st, v)
        ors = []
        for nm, bits, cnt in outs:
            sz = 8 if bits == 'd' else bits//8
            r = ex.new_region(st, nm, sz*cnt); ors.append((nm, bits, cnt, r, sz)); args.append(Ptr(r, 0))
        for c in (pre(d, v) if pre else []): st.add(c)
        for c in (case(d, v) if case else []): st.add(c)
        pre_facts = list(st.facts)
        def fm(m, o): return [[d.evalp(m, v[p.name]) for p in pars]]
        n0 = len(R.obls)
        fin = ex.run(name, args, st); R.finals(fin)
        for f in fin:
            r = f.rv
            if ret == 'b' and isinstance(r, IV): r = d.i2b(r)
            elif isinstance(ret, tuple): r = d.s(ex.unundef(r)) if ret[0] == 'i' else r.x if ret[0] == 'd' else d.u(r)
            o = V()
            for nm, bits, cnt, rg, sz in ors:
                from ir import DOUBLE
                vals = [ex.load_at(f, rg, i*sz, DOUBLE if bits == 'd' else ty_int(bits)) for i in range(cnt)]
                vals = [x if isinstance(x, Undef) else x.x if isinstance(x, FPV) else d.s(x) for x in vals]
                o[nm] = vals[0] if cnt == 1 else vals
            if hint:
                for h in hint(d, v, r, o): f.add(h)
            items = [('%s: %s' % (name, nm), c) for nm, c in post(d, v, r, o)]
            if lemma:
                # facts of the path, proved one by one; the contract is then tried from these and the precondition alone
                got = []
                for h in lemma(d, v, r):
                    if h is True or h is False: continue
                    if d.sat(f.facts + got + [c_not(h)], 2500)[0] == 'unsat': got.append(h)
                g = f.copy(); g.facts = pre_facts + got + (hint(d, v, r, o) if hint else [])
                rest = []
                for nm, c in items:
                    c = c() if callable(c) else c
                    if c is False or d.prove(g.facts, c, timeout=30000, cvc5=False)[0] != 'proved': rest.append((nm, c))
                    else: ex.obls.append(Obl(nm, 'proved', 'z3', None, ex.cur, None, c, 0)); f.add(c)
                for c in got: f.add(c)
                items = rest
            if items: ex.oblige_all(f, items)
        for ob in R.obls[n0:]: ob.fm = fm
        R.from_model = lambda m, o: getattr(o, 'fm', fm)(m, o)
    def conc(lib, inp):
        v = V({p.name: x for p, x in zip(pars, inp)}); ap = [(x, p.bits, p.sg) for p, x in zip(pars, inp)]
        if derive:
            derive(PY, v); ap = [(v[n], w, True) for n, w in argn]
            if any(not -(1 << w-1) <= x < 1 << w-1 for x, w, _ in ap) or any(not lo <= v[n] <= hi for n, lo, hi in dbounds or []): return None
        if pre and not all(pre(PY, v)): return None
        f = getattr(lib, name)
        f.restype = {None: None, 'b': ctypes.c_bool}.get(ret) if not isinstance(ret, tuple) else ctypes.c_double if ret[0] == 'd' else CT[ret[1]]
        bufs = [( (CT[b if b != 'd' else 'd'])*(cnt+1))() for nm, b, cnt in outs]
        for b in bufs:
            for i in range(len(b)): b[i] = 77
        r = f(*[CT[w](x) if sg else (ctypes.c_uint64(x) if w == 64 else ctypes.c_uint32(x) if w == 32 else ctypes.c_uint8(x)) for x, w, sg in ap], *bufs)
        o = V({nm: (b[0] if cnt == 1 else list(b)[:cnt]) for (nm, bb, cnt), b in zip(outs, bufs)})
        o = V({k: (Fraction(x) if isinstance(x, float) else [Fraction(y) if isinstance(y, float) else y for y in x] if isinstance(x, list) else x) for k, x in o.items()})
        if isinstance(r, float): r = Fraction(r)
        for nm, c in post(PY, v, r, o):
            c = c() if callable(c) else c
            if not c: return {'failure': '%s(%s): %s violated; returned %s, outputs %s' % (name, ', '.join('%s=%s' % kv for kv in v.items()), nm, r, dict(o))}
        return None
    def dgen(rng, n):
        for _ in range(n):
            k = rng.random(); S = rng.choice([1, 2, 3, 3, 4, 10, 1000])
            yield [pick(rng, p, k, S) for p in pars]
    return Task(task or name, unit, None if bounded else prove, conc, gen or dgen, funcs or [name], 'int', n_quick=n_quick, timeout=timeout, budget=budget, bounded=bounded)
def pick(rng, p, k, S):
    if k < 0.75: x = rng.randint(-S, S) if p.sg else rng.randint(0, 2*S)
    elif k < 0.85: x = rng.choice([p.lo, p.hi, p.lo+1, p.hi-1, 0, 1, p.hi//2])
    else: x = rng.randint(p.lo, p.hi)
    return max(p.lo, min(p.hi, x))
def cross(ax, ay, bx, by): return ax*by - bx*ay
def orient(v, a, b, c):
    """(b-a) x (c-a)"""
    return (v['x'+b]-v['x'+a])*(v['y'+c]-v['y'+a]) - (v['x'+c]-v['x'+a])*(v['y'+b]-v['y'+a])
def tw_contract(bits):
    """contract of triangle_winding (proved in B01): the exact orientation of points with coordinates below 2^(bits-2)"""
    nb = bits//8
    def h(ex, st, f, args, ins):
        d = ex.d; L = 1 << (bits-2)
        c = [[d.s(ex.unundef(ex.load_at(st, a.r, ex.offc(a.off) + i*nb, ty_int(bits)))) for i in (0, 1)] for a in args]
        ex.oblige(st, 'precondition of triangle_winding', c_and(*[c_and(d.gt(x, -L), d.lt(x, L)) for p in c for x in p]))
        (x1, y1), (x2, y2), (x3, y3) = c
        o = (x2-x1)*(y3-y1) - (x3-x1)*(y2-y1)
        if bits == 32: return [(st, IV(o, 64))]
        return [(st, [IV(d.modu(o, 1 << 64), 64), IV(d.fdiv(o, 1 << 64), 64)])]
    return (re.compile(r'triangle_winding<%s>' % ('int' if bits == 32 else 'long')), h)
