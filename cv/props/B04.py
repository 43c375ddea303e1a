"""B04: the comparators of the sweep (segments by height, events by position and kind) are strict total orders that agree with the geometry."""
from geo import *
def imp(a, b): return c_or(c_not(a), b)
def iff(a, b): return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
S2 = 'ax ay bx by cx cy dx dy'
def segs(b, extra=''): return coords(S2 + extra, b) + [Par(n, 32, 0, 1 << 30) for n in ('ia', 'ib', 'ic', 'id')]
def ordered(D, *s): return [c_or(D.lt(p, r), c_and(D.eq(p, r), D.ne(q, t))) for p, q, r, t in s]
def s12(D, v): return ordered(D, (v.ax, v.ay, v.bx, v.by), (v.cx, v.cy, v.dx, v.dy))
def ids(D, v): return [D.ne(v.ia, v.ib), D.ne(v.ic, v.id)]
def height(v):
    """(y1(X)-y2(X))*dx1*dx2"""
    d1, d2 = v.bx-v.ax, v.dx-v.cx
    return (v.ay*d1 + (v.X-v.ax)*(v.by-v.ay))*d2 - (v.cy*d2 + (v.X-v.cx)*(v.dy-v.cy))*d1
def ev(n): return [Par('x'+n, 32, -(1 << 30)+1, (1 << 30)-1), Par('t'+n, 32, 0, 3), Par('a'+n, 32, 0, 1 << 30), Par('b'+n, 32, 0, 1 << 30)]

def check():
    src = HEAD
    A = 'ax ay bx by cx cy dx dy'
    for b, c in ((32, 'int'), (64, 'i64')):
        cs = ','.join('%s %s' % (c, n) for n in A.split()); I = 'unsigned ia,unsigned ib,unsigned ic,unsigned id'
        S = 'cached_segment<unsigned,{c}> s(ia,ib,point_t<{c}>{{ax,ay}},point_t<{c}>{{bx,by}}), t(ic,id,point_t<{c}>{{cx,cy}},point_t<{c}>{{dx,dy}}); sweep_cmp<unsigned,{c}> cmp{{}};'.format(c=c)
        src += '''extern "C" int sc%d(%s,%s) { %s return int(cmp(s,t)) + 2*int(cmp(t,s)) + 4*int(cmp(s,s)); }
extern "C" int s3%d(%s ax,%s ay,%s bx,%s by,%s,unsigned ie,unsigned ig) { cached_segment<unsigned,%s> s(ia,ib,{ax,ay},{bx,by}), t(ic,id,{ax,ay},{bx,by}), u(ie,ig,{ax,ay},{bx,by}); sweep_cmp<unsigned,%s> cmp{}; return int(cmp(s,t)) + 2*int(cmp(t,s)) + 4*int(cmp(t,u)) + 8*int(cmp(s,u)) + 16*int(cmp(s,s)); }
extern "C" bool sh%d(%s,%s X,%s) { %s return cmp(s,t); }
''' % (b, cs, I, S, b, c, c, c, c, I, c, c, b, cs, c, I, S)
    src += '''extern "C" int lc(unsigned ia,unsigned ib,unsigned ic,unsigned id,unsigned ie,unsigned ig) { segment<unsigned> s(ia,ib), t(ic,id), u(ie,ig); line_bal_sweep_cmp<unsigned> cmp{}; return int(cmp(s,t)) + 2*int(cmp(t,s)) + 4*int(cmp(t,u)) + 8*int(cmp(s,u)) + 16*int(cmp(s,s)); }
typedef loop_point<unsigned,int> LP;
struct FV { void *res; LP *b, *e, *c; };
template<class V> static const V &as_vec(const FV &f) { static_assert(sizeof(V) == sizeof(FV)); return reinterpret_cast<const V&>(f); }
static event<unsigned> mkev(unsigned a,unsigned b,int t) { return event<unsigned>{segment<unsigned>(a,b),0,event_type_t(t)}; }
extern "C" int ec(LP *p,std::size_t n,unsigned a1,unsigned b1,int t1,unsigned a2,unsigned b2,int t2,unsigned a3,unsigned b3,int t3) {
  FV f{nullptr,p,p+n,p+n}; event_cmp<unsigned,int> cmp{as_vec<std::pmr::vector<LP>>(f)}; auto e = mkev(a1,b1,t1), g = mkev(a2,b2,t2), h = mkev(a3,b3,t3);
  return int(cmp(e,g)) + 2*int(cmp(g,e)) + 4*int(cmp(g,h)) + 8*int(cmp(e,h)) + 16*int(cmp(e,e)); }
'''
    u = Unit('B04', src, extra=('-fno-strict-aliasing',))
    def tasks():
        out = []
        for b in (32, 64):
            def tot(D, v, r, o):
                same = c_and(D.eq(v.ia, v.ic), D.eq(v.ib, v.id))
                return [('irreflexive', D.lt(r, 4)), ('asymmetric', D.ne(r, 3)), ('total on different segments', c_or(same, D.ne(r, 0)))]
            out.append(fn_task(u, 'sc%d' % b, segs(b), ('i', 32), [], tot, pre=lambda D, v: s12(D, v) + ids(D, v) + [imp(c_and(D.eq(v.ia, v.ic), D.eq(v.ib, v.id)), c_and(D.eq(v.ax, v.cx), D.eq(v.ay, v.cy), D.eq(v.bx, v.dx), D.eq(v.by, v.dy)))], funcs=['sweep_cmp<int%d>::operator()' % b], contracts=[tw_contract(b)]))
            def hpre(D, v):
                d1 = [D.lt(v.ax, v.bx), D.lt(v.cx, v.dx), D.le(v.ax, v.X), D.le(v.X, v.bx), D.le(v.cx, v.X), D.le(v.X, v.dx)]
                o3, o4 = cross(v.bx-v.ax, v.by-v.ay, v.cx-v.ax, v.cy-v.ay), cross(v.bx-v.ax, v.by-v.ay, v.dx-v.ax, v.dy-v.ay)
                o1, o2 = cross(v.dx-v.cx, v.dy-v.cy, v.ax-v.cx, v.ay-v.cy), cross(v.dx-v.cx, v.dy-v.cy, v.bx-v.cx, v.by-v.cy)
                opp = lambda a, c: c_or(c_and(D.gt(a, 0), D.lt(c, 0)), c_and(D.lt(a, 0), D.gt(c, 0)))
                # the segments may touch but not cross
                return d1 + [c_not(c_and(opp(o1, o2), opp(o3, o4)))]
            def hpost(D, v, r, o):
                F = height(v); return [('greater height first wherever the heights differ', c_and(imp(D.gt(F, 0), r), imp(D.lt(F, 0), c_not(r))))]
            def hint(D, v, r, o):
                o3, o4 = cross(v.bx-v.ax, v.by-v.ay, v.cx-v.ax, v.cy-v.ay), cross(v.bx-v.ax, v.by-v.ay, v.dx-v.ax, v.dy-v.ay)
                o1, o2 = cross(v.dx-v.cx, v.dy-v.cy, v.ax-v.cx, v.ay-v.cy), cross(v.dx-v.cx, v.dy-v.cy, v.bx-v.cx, v.by-v.cy)
                out = []
                for a, q in ((o3, v.dx-v.X), (o4, v.X-v.cx), (o1, v.bx-v.X), (o2, v.X-v.ax)):
                    for s in (1, -1): out += [D.mul_lemma(s*a, q), D.mul_lemma(s*a, q, True)]
                return out
            def lemma(D, v, r):
                o3, o4 = cross(v.bx-v.ax, v.by-v.ay, v.cx-v.ax, v.cy-v.ay), cross(v.bx-v.ax, v.by-v.ay, v.dx-v.ax, v.dy-v.ay)
                o1, o2 = cross(v.dx-v.cx, v.dy-v.cy, v.ax-v.cx, v.ay-v.cy), cross(v.dx-v.cx, v.dy-v.cy, v.bx-v.cx, v.by-v.cy)
                return [D.lt(v.ax, v.cx), D.lt(v.cx, v.ax), D.eq(v.ax, v.cx), D.lt(v.ay, v.cy), D.lt(v.cy, v.ay)] + [c for o in (o1, o2, o3, o4) for c in (D.gt(o, 0), D.eq(o, 0), D.lt(o, 0), imp(r, D.gt(o, 0)), imp(c_not(r), D.le(o, 0)))]
            out.append(fn_task(u, 'sh%d' % b, coords(S2 + ' X', b) + segs(b)[8:], 'b', [], hpost, pre=lambda D, v: hpre(D, v) + ids(D, v), funcs=['sweep_cmp<int%d>::operator()' % b, 'triangle_winding'],
                cases=[lambda D, v: [D.lt(v.ax, v.cx)], lambda D, v: [D.eq(v.ax, v.cx)], lambda D, v: [D.gt(v.ax, v.cx)]], hint=hint, lemma=lemma, contracts=[tw_contract(b)]))
        I6 = [Par(n, 32, 0, 1 << 31) for n in 'ia ib ic id ie ig'.split()]
        def bit(r, k): return lambda D: D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0)
        def total(D, r, same):
            st, ts, tu, su, ss = (bit(r, k)(D) for k in range(5))
            return [('irreflexive', c_not(ss)), ('asymmetric', c_not(c_and(st, ts))), ('total', c_or(same, st, ts)), ('transitive', imp(c_and(st, tu), su))]
        for b in (32, 64): out.append(fn_task(u, 's3%d' % b, coords('ax ay bx by', b) + I6, ('i', 32), [], lambda D, v, r, o: total(D, r, c_and(D.eq(v.ia, v.ic), D.eq(v.ib, v.id))), pre=lambda D, v: ordered(D, (v.ax, v.ay, v.bx, v.by)), funcs=['sweep_cmp<int%d>::operator() on coincident segments' % b], contracts=[tw_contract(b)]))
        out.append(fn_task(u, 'lc', I6, ('i', 32), [], lambda D, v, r, o: total(D, r, c_and(D.eq(v.ia, v.ic), D.eq(v.ib, v.id))), funcs=['line_bal_sweep_cmp']))
        out.append(ec_task(u, total))
        return out
    main('B04', [u], tasks, assumptions=['coordinates below 2^(bits-2) in magnitude'], trusted=['layout of std::vector (three pointers after the allocator), as compiled'])

def ec_spec(D, r, E):
    """E: [(x, t, a, b)]"""
    bit = lambda k: D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0)
    st, ts, tu, su, ss = (bit(k) for k in range(5))
    e, g = E[:2]; same = c_and(*[D.eq(e[i], g[i]) for i in (1, 2, 3)])
    return [('irreflexive', c_not(ss)), ('asymmetric', c_not(c_and(st, ts))), ('total on different events', c_or(same, st, ts)), ('transitive', imp(c_and(st, tu), su)),
            ('left to right', c_and(imp(D.lt(e[0], g[0]), st), imp(D.gt(e[0], g[0]), ts))), ('by kind at the same position', imp(D.eq(e[0], g[0]), c_and(imp(D.lt(e[1], g[1]), st), imp(D.gt(e[1], g[1]), ts))))]
def ec_task(u, total):
    NM = 'a1 b1 t1 a2 b2 t2 a3 b3 t3'.split()
    def prove(R):
        ex, d = R.new('int'); st = ex.new_state(); n = d.atom('n', 1, 1 << 31)
        L = 1 << 30
        rid = new_arr(ex, st, 'points', 20, {0: (4, (-L+1, L-1)), 4: (4, (-L+1, L-1)), 8: (4, 'u'), 12: (4, 'u'), 16: (4, 'u')}, n, ro=True)
        v = {k: d.atom(k, 0, 3 if k[0] == 't' else (1 << 31)-1) for k in NM}
        for k in NM:
            if k[0] != 't': st.add(d.lt(v[k], n))
        fin = ex.run('ec', [Ptr(rid, 0), IV(n, 64)] + [IV(v[k], 32) for k in NM], st); R.finals(fin)
        for f in fin:
            xs = [d.s(elem(ex, f, rid, v['a%d' % i])[0][1][0]) for i in (1, 2, 3)]
            ex.oblige_all(f, ec_spec(d, d.s(ex.unundef(f.rv)), [(xs[i-1], v['t%d' % i], v['a%d' % i], v['b%d' % i]) for i in (1, 2, 3)]))
    def conc(lib, inp):
        xs, idx = inp
        arr = (ctypes.c_int32*(5*len(xs)))()
        for i, x in enumerate(xs): arr[5*i] = x
        r = lib.ec(arr, ctypes.c_size_t(len(xs)), *[ctypes.c_uint32(x) for x in idx])
        for nm, c in ec_spec(PY, r, [(xs[idx[3*i]], idx[3*i+2], idx[3*i], idx[3*i+1]) for i in range(3)]):
            if not c: return {'failure': 'event_cmp on points with x %s, events (a,b,kind) %s: %s violated (results %s)' % (xs, idx, nm, bin(r))}
    def gen(rng, k):
        for _ in range(k):
            n = rng.randint(1, 4); yield [[rng.randint(-1, 1) for _ in range(n)], [rng.randint(0, 3) if i % 3 == 2 else rng.randrange(n) for i in range(9)]]
    return Task('ec', u, prove, conc, gen, ['event_cmp<unsigned,int>::operator()'], 'int', n_quick=20000)
