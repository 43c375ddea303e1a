"""Shared machinery for the large-integer properties (A..)."""
from lib import *

class Ty:
    def __init__(self, name, cpp, n, sg, bits=None):
        self.name = name; self.cpp = cpp; self.n = n; self.sg = sg; self.bits = bits or 64*n; self.comp = bits is None
    def count(self, signed):
        """words needed (documented rule: unsigned counts one bit more when a sign bit is required)"""
        if self.comp: return self.n + (1 if signed and not self.sg else 0)
        return (self.bits//8 + 8 - (1 if (self.sg or not signed) else 0)) // 8
T = {}
for n in (1, 2, 3, 4):
    T['s%d' % n] = Ty('s%d' % n, 'compound_int<%d>' % n, n, True)
    T['u%d' % n] = Ty('u%d' % n, 'compound_uint<%d>' % n, n, False)
for b in (8, 16, 32, 64):
    T['i%d' % b] = Ty('i%d' % b, 'std::int%d_t' % b, 1, True, b)
    T['n%d' % b] = Ty('n%d' % b, 'std::uint%d_t' % b, 1, False, b)
T['i128'] = Ty('i128', '__int128', 2, True, 128)
T['n128'] = Ty('n128', 'unsigned __int128', 2, False, 128)

HEAD = '''#include <poly_ops/large_ints.hpp>
using namespace poly_ops::large_ints;
typedef unsigned long W;
template<class T> static inline T in(const W *p) { T t; __builtin_memcpy(&t,p,sizeof t); return t; }
template<class T> static inline void outv(W *o,const T &t) { __builtin_memcpy(o,&t,sizeof t); }
template<class T> struct tyinfo { static constexpr int v = sizeof(T)*2 + (T(-1) < T(0)); };
template<unsigned N,bool S> struct tyinfo<compound_xint<N,S>> { static constexpr int v = 1000 + N*2 + S; };
'''
CONFS = ('gcc', 'clang', 'noext')

def mk_in(d, ex, st, ty, nm, neg=None):
    """a fresh argument; -> (Ptr, value list). value as list of (machine value). neg: 0/1 fixes the top bit (case split)"""
    if ty.comp or ty.bits == 128:
        ws = [d.fresh('%s%d' % (nm, i), 64) for i in range(ty.n)]
    else:
        ws = [d.fresh(nm, ty.bits)]
    if neg is not None:
        w = ws[-1].w; ws[-1] = IV(d.atom(nm + 'top', 0, (1 << (w-1))-1) + (neg << (w-1)), w)
    r = ex.new_region(st, nm, 8*ty.n)
    off = 0
    for w in ws: ex.put(st, r, off, w.w//8, w); off += w.w//8
    return Ptr(r, 0), ws
def mk_in_conc(d, ex, st, ty, nm): return mk_in(d, ex, st, ty, nm)

def ival(d, ws, sg):
    """mathematical value of little-endian machine words (IntDom)"""
    p = Poly({}); off = 0
    for i, w in enumerate(ws):
        last = i == len(ws)-1
        p = p + (d.s(w) if (sg and last) else d.u(w))*(1 << off); off += w.w
    return p
def bval(d, ws, sg, W):
    """the same as a W-bit vector (BVDom)"""
    z = z3.Concat(*[w.z for w in reversed(ws)]) if len(ws) > 1 else ws[0].z
    k = W - z.size()
    if k < 0: return z3.Extract(W-1, 0, z)
    return (z3.SignExt if sg else z3.ZeroExt)(k, z)
def rd(ex, st, ptr, n, w=64):
    return [ex.unundef(ex.load_at(st, ptr.r, ptr.off + i*w//8, ty_int(w))) for i in range(n)]

# ---- concrete side
def pyval(words, ty):
    b = ty.bits; v = 0
    for i, w in enumerate(words): v |= w << (64*i)
    v &= (1 << b)-1
    if ty.sg and v >> (b-1): v -= 1 << b
    return v
def cwords(ws, pad=1):
    return (ctypes.c_uint64*(len(ws)+pad))(*ws, *([0xA5A5A5A5A5A5A5A5]*pad))
M64 = (1 << 64)-1
SPECIAL = [0, 1, 2, 3, 7, 10, M64, M64-1, 1 << 63, (1 << 63)-1, (1 << 63)+1, 1 << 32, (1 << 32)-1, (1 << 32)+1, 0xffffffff00000000, 0x5555555555555555, 1 << 31, 1 << 62, 6]
def gen_words(rng, n):
    k = rng.random()
    if k < 0.45: return [rng.choice(SPECIAL) for _ in range(n)]
    if k < 0.55:   # small value, sign-extended
        v = rng.randint(-20, 20); return [(v >> (64*i)) & M64 for i in range(n)]
    if k < 0.75: return [rng.getrandbits(64) if rng.random() < 0.5 else rng.choice(SPECIAL) for _ in range(n)]
    if k < 0.85:
        v = rng.getrandbits(rng.randint(1, 64*n)); 
        if rng.random() < 0.4: v = -v
        return [(v >> (64*i)) & M64 for i in range(n)]
    return [rng.getrandbits(64) for _ in range(n)]
def gen_args(tys, small_first=True):
    def g(rng, n):
        import itertools
        one = [[[v & M64] + [M64 if v < 0 else 0]*(t.n-1) for v in (0, 1, -1, 2, -2, 3, -3, 6, -6, 7)] + [[M64]*t.n, [0]*(t.n-1)+[1 << 63], [M64]*(t.n-1)+[(1 << 63)-1]] for t in tys]
        if len(tys) <= 2:
            for x in itertools.product(*one): yield list(x)
        for _ in range(n): yield [gen_words(rng, t.n) for t in tys]
    return g
import re as _re
def ret_words(ex, st, f, args, words):
    """deliver a struct of words as the function's result (sret or by value)"""
    if f.params and 'sret' in f.params[0][2]:
        for i, w in enumerate(words): ex.put(st, args[0].r, ex.offc(args[0].off) + 8*i, 8, w)
        return [(st, None)]
    t = ex.m.res(f.ret)
    def shape(t, ws):
        t = ex.m.res(t)
        if t.k == 'int': return ws.pop(0)
        return [shape(x, ws) for x in (t.fields if t.k == 'struct' else [t.elem]*t.n)]
    return [(st, shape(t, list(words)))]
def mul1x1_contract(ex, st, f, args, ins):
    """ensures: result == a * b exactly (two words)"""
    d = ex.d
    sg = 'mul1x1<true>' in f.dem
    a, b = [ex.unundef(x) for x in args[-2:]]
    p = d.s(a)*d.s(b) if sg else d.u(a)*d.u(b)
    return ret_words(ex, st, f, args, [IV(p, 64), IV(d.fdiv(p, 1 << 64), 64)])
MUL1X1 = (_re.compile(r'large_ints::detail::mul1x1<(true|false)>\('), mul1x1_contract)
def words_of(v, n): return [(v >> (64*i)) & M64 for i in range(n)]

class OpTask:
    """builds Task for `extern "C" void NAME(W*o, const W*a, const W*b...)`"""
    @staticmethod
    def make(unit, name, tys, out_n, spec_int=None, spec_bv=None, spec_py=None, pre_int=None, pre_bv=None, pre_py=None, funcs=(), dom='int', outw=64,
             tinfo=None, n_quick=3000, gen=None, kw=None, timeout=None, budget=None, extra_args=None, setup=None, contracts=(), split=False):
        """spec_int(d, vals(polys), out words, ex, st) -> Cond or [(name,Cond)]; spec_py(vals) -> expected out words list or None (no claim)"""
        def prove(R):
            ex, d = R.new(dom, contracts=list(contracts), **(kw or {}))
            if setup: setup(ex, d)
            st = ex.new_state()
            if tinfo is not None:
                fr = ex.run(name + '_ty', [], ex.new_state())
                got = ex.d.concrete(fr[0].rv)
                ex.oblige(fr[0], 'result type of %s' % name, got == tinfo)
            import itertools
            for signs in itertools.product(*[((0, 1) if split and t.sg else (None,)) for t in tys]):
                one(R, ex, d, signs)
        def one(R, ex, d, signs):
            st = ex.new_state()
            args = [mk_in(d, ex, st, t, 'abc'[i], signs[i]) for i, t in enumerate(tys)]
            ro = ex.new_region(st, 'out', 8*out_n if outw == 64 else (out_n*outw+7)//8)
            vals = [ival(d, ws, t.sg) for (p, ws), t in zip(args, tys)] if dom == 'int' else [ws for p, ws in args]
            if dom == 'int' and pre_int:
                for c in pre_int(d, vals): st.add(c)
            if dom == 'bv' and pre_bv:
                for c in pre_bv(d, vals): st.add(c)
            def from_model(m, o):
                r = []
                for (p, ws), t in zip(args, tys):
                    if dom == 'int': r.append([d.evalp(m, d.u(w)) for w in ws])
                    else: r.append([d.evalv(m, w) for w in ws])
                return [r]
            def fm(m, o, from_model=from_model): return from_model(m, o)
            R.from_model = lambda m, o: (getattr(o, 'fm', None) or fm)(m, o)
            n0 = len(R.obls)
            fin = ex.run(name, [Ptr(ro, 0)] + [p for p, _ in args], st)
            R.finals(fin)
            for f in fin:
                out = rd(ex, f, Ptr(ro, 0), out_n, outw)
                sp = spec_int(d, vals, out, ex, f) if dom == 'int' else spec_bv(d, vals, out, ex, f)
                if not isinstance(sp, list): sp = [('%s: result' % name, sp)]
                for nm, c in sp: ex.oblige(f, nm, c)
            for o in R.obls[n0:]: o.fm = fm
        def conc(lib, inp):
            vals = [pyval(w, t) for w, t in zip(inp, tys)]
            if pre_py and not pre_py(vals): return None
            exp = spec_py(vals)
            if exp is None: return None
            o = cwords([0]*out_n, 2)
            a = [cwords(w) for w in inp]
            getattr(lib, name)(o, *a)
            got = list(o)[:out_n] if outw == 64 else [int.from_bytes(bytes(o)[i*outw//8:(i+1)*outw//8], 'little') for i in range(out_n)]
            exp = [e & ((1 << outw)-1) for e in exp]
            if got != exp:
                return {'failure': '%s(%s) gave words %s, expected %s' % (name, ', '.join('%d:%s' % (v, t.cpp) for v, t in zip(vals, tys)), [hex(x) for x in got], [hex(x) for x in exp])}
            if [x for x in o][out_n:] != [0xA5A5A5A5A5A5A5A5]*2 and outw == 64: return {'failure': 'wrote past the result'}
            return None
        return Task(name, unit, prove, conc, gen or gen_args(tys), funcs or [name], dom, n_quick=n_quick, timeout=timeout, budget=budget)

def group(tasks, k=10):
    """merge tasks of one unit into bigger ones; failures are reported per wrapper by re-running the members"""
    out = []; by = {}
    for t in tasks: by.setdefault(t.unit, []).append(t)
    for u, ts in by.items():
        for i in range(0, len(ts), k):
            out.append(GroupTask(u, ts[i:i+k]))
    return out
class GroupTask(Task):
    def __init__(self, unit, ts):
        self.ts = ts
        name = ts[0].name if len(ts) == 1 else '%s..%s' % (ts[0].name, ts[-1].name)
        def prove(R):
            for t in ts:
                n0 = len(R.obls); R.from_model = None
                R.t = t
                try: t.prove(R)
                except (ExecError, IRError, DomError) as e: raise type(e)('%s: %s' % (t.name, e))
                fm = R.from_model
                for o in R.obls[n0:]:
                    o.owner = (t, getattr(o, 'fm', None) or fm)
            def from_model(m, o):
                t, fm = o.owner
                return [(t.name, i) for i in fm(m, o)] if fm else []
            R.from_model = from_model; R.t = self
        byname = {t.name: t for t in ts}
        def conc(lib, inp):
            r = byname[inp[0]].conc(lib, inp[1])
            return r
        def gen(rng, n):
            gs = [(t.name, t.gen(rng, t.n_quick)) for t in ts if t.gen]
            while gs:
                for g in list(gs):
                    try: yield (g[0], next(g[1]))
                    except StopIteration: gs.remove(g)
        super().__init__(name, unit, prove, conc, gen, sum((t.funcs for t in ts), []), ts[0].domk, n_quick=ts[0].n_quick, timeout=ts[0].timeout)
