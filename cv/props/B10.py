"""B10: the arithmetic of the rasterizer: crossings, x intercepts, fractions, the orders of lines and events, rounding, the fill rules."""
from geo import *
from B03 import imp, iff
W = 1 << 64
def val(D, o):
    """little-endian 64-bit words, the last one signed"""
    if not isinstance(o, list): return o
    t = 0
    for i, w in enumerate(o): t = t + (D.modu(w, W) if i < len(o)-1 else w)*(1 << (64*i))
    return t
def seg8(b): return coords('ax ay bx by cx cy dx dy', b)
def IDS(): return [Par(n, 64, 0, 1 << 62, False) for n in ('ia', 'ib', 'ic', 'id')]
def par(v):
    x1, y1, x2, y2, x3, y3, x4, y4 = (v[k] for k in 'ax ay bx by cx cy dx dy'.split())
    d = (x1-x2)*(y3-y4) - (y1-y2)*(x3-x4); t = (x1-x3)*(y3-y4) - (y1-y3)*(x3-x4); u = (x1-x3)*(y1-y2) - (y1-y3)*(x1-x2)
    return d, t, u
def sgn(D, x): return D.pite(D.gt(x, 0), 1, D.pite(D.lt(x, 0), -1, 0))

def ev_spec(D, r, E, y):
    """E: two events (kind, a, b, whole, num, den): the order is by exact height, kind, first and second index"""
    bit = lambda k: D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0)
    (t1, a1, b1, w1, n1, d1), (t2, a2, b2, w2, n2, d2) = E
    f1, f2 = n1*d2, n2*d1
    def less(w1, f1, k1, w2, f2, k2):
        c = False
        for x, z in reversed([(w1, w2), (f1, f2)] + list(zip(k1, k2))): c = c_or(D.lt(x, z), c_and(D.eq(x, z), c))
        return c
    return [('by height, kind and line', iff(bit(0), less(w1, f1, (t1, a1, b1), w2, f2, (t2, a2, b2)))), ('the same with the arguments exchanged', iff(bit(1), less(w2, f2, (t2, a2, b2), w1, f1, (t1, a1, b1)))),
            ('irreflexive', c_not(bit(2))), ('at or above the scan line', iff(bit(3), c_or(D.lt(w1, y), c_and(D.eq(w1, y), D.eq(n1, 0)))))]
def ev_task(u, b, t1, t2):
    """t1, t2: whether the events are crossings (kind 1)"""
    NM = 't1 a1 b1 w1 n1 d1 t2 a2 b2 w2 n2 d2'.split(); F = 1 << 62; nb = b//8
    def prove(R):
        for k1, k2 in [(k1, k2) for k1 in ([1] if t1 else [0, 2]) for k2 in ([1] if t2 else [0, 2])]:
            ex, D = R.new('int'); st = ex.new_state(); n = D.atom('n', 1, 1 << 31); L = 1 << (b-2)
            rid = new_arr(ex, st, 'points', nb*2 + 8, {0: (nb, (-L+1, L-1)), nb: (nb, (-L+1, L-1)), 2*nb: (8, 'u')}, n, ro=True)
            v = {}
            for k in NM: v[k] = P(k1 if k[1] == '1' else k2) if k[0] == 't' else D.atom(k, *{'a': (0, F), 'b': (0, F), 'w': (-L+1, L-1), 'n': (0, F), 'd': (1, F)}[k[0]])
            for i, s in (('1', t1), ('2', t2)):
                st.add(D.lt(v['a'+i], n)); st.add(D.lt(v['b'+i], n)); st.add(D.lt(v['n'+i], v['d'+i]))
            y = D.atom('y', -L+1, L-1)
            fin = ex.run('ev%d' % b, [Ptr(rid, 0), IV(n, 64)] + [IV(v[k], 32 if k[0] == 't' else b if k[0] == 'w' else 64) for k in NM] + [IV(y, b)], st); R.finals(fin)
            for f in fin:
                E = []
                for i, s in (('1', t1), ('2', t2)):
                    h = (v['w'+i], v['n'+i], v['d'+i]) if s else (D.s(elem(ex, f, rid, v['a'+i])[0][1][nb]), P(0), P(1))
                    E.append((v['t'+i], v['a'+i], v['b'+i]) + h)
                ex.oblige_all(f, ev_spec(D, D.s(ex.unundef(f.rv)), E, y))
    def conc(lib, inp):
        ys, vals, y = inp; T = ctypes.c_int32 if b == 32 else ctypes.c_int64
        class LP(ctypes.Structure): _fields_ = [('x', T), ('y', T), ('n', ctypes.c_size_t)]
        arr = (LP*len(ys))(*[LP(0, q, 0) for q in ys]); f = getattr(lib, 'ev%d' % b)
        r = f(arr, ctypes.c_size_t(len(ys)), *[ctypes.c_int32(x) if k[0] == 't' else T(x) if k[0] == 'w' else ctypes.c_int64(x) for k, x in zip(NM, vals)], T(y))
        E = []
        for i, s in ((0, t1), (6, t2)): E.append(tuple(vals[i:i+3]) + (tuple(vals[i+3:i+6]) if s else (ys[vals[i+1]], 0, 1)))
        for nm, c in ev_spec(PY, r, E, y):
            if not c: return {'failure': 'draw event_cmp on points with y %s, events (kind a b whole num den) %s, y %d: %s violated (results %s)' % (ys, vals, y, nm, bin(r))}
    def gen(rng, k):
        for _ in range(k):
            n = rng.randint(1, 4); vals = []
            for s in (t1, t2):
                dd = rng.randint(1, 4); vals += [1 if s else rng.choice((0, 2)), rng.randrange(n), rng.randrange(n), rng.randint(-1, 1), rng.randrange(dd), dd]
            yield [[rng.randint(-1, 1) for _ in range(n)], vals, rng.randint(-1, 1)]
    return Task('ev%d_%s%s' % (b, 'line swap'.split()[t1], 'line swap'.split()[t2]), u, prove, conc, gen, ['draw::detail::event_cmp<int%d>' % b, 'less_than_or_equal'], 'int', n_quick=5000)
RX_UM = re.compile(r'unmul<1u, poly_ops::large_ints::compound_xint<3u, true>, poly_ops::large_ints::compound_xint<2u, true>, \(poly_ops::large_ints::modulo_t::value_t\)1, true>\(')
def um_contract(ex, st, f, args, ins):
    """floor division of a three word by a two word value (proved in A05). requires b != 0, b != -2^127, the quotient in (-2^63, 2^63);
    ensures a == q*b + sign(b)*r, 0 <= r < |b|"""
    d = ex.d; ro, pa, pb = args[:3]
    w = lambda p, n: [ex.unundef(ex.load_at(st, p.r, ex.offc(p.off) + 8*i, ty_int(64))) for i in range(n)]
    vv = lambda ws: sum((d.s(x) if i == len(ws)-1 else d.u(x))*(1 << (64*i)) for i, x in enumerate(ws))
    hints = st.ghost.get('um', [])
    def best(x):     # the word-wise value equals one of the expected expressions
        for h in hints:
            if x == h or d.prove([], d.eq(x, h), cvc5=False, timeout=3000)[0] == 'proved': return h
        return x
    a, b = best(vv(w(pa, 3))), best(vv(w(pb, 2)))
    ex.oblige(st, 'unmul: divisor not zero and negatable', c_and(d.ne(b, 0), d.ne(b, -(1 << 127))))
    fq, fr = d.atom('uq', -(1 << 129), 1 << 129), d.atom('ur', 0, (1 << 127)-1)
    sb = d.gt(b, 0); H = 1 << 63
    st.add(c_or(c_not(sb), c_and(d.eq(a, fq*b + fr), d.lt(fr, b)))); st.add(c_or(sb, c_and(d.eq(a, fq*b - fr), d.lt(fr, -b))))
    for S in (b, -b):
        for e in (fq - H, -fq - H): st.add(d.mul_lemma(e, S))
    st.ghost['uq'] = fq
    ex.oblige(st, 'unmul: the quotient fits', c_and(d.gt(fq, -H), d.lt(fq, H)))
    fq2 = d.atom('uq', -H+1, H-1); st.add(d.eq(fq2, fq))
    for i, x in enumerate([IV(fq2, 64), IV(d.modu(fr, W), 64), IV(d.fdiv(fr, W), 64)]): ex.put(st, ro.r, ex.offc(ro.off) + 8*i, 8, x)
    ex.d.umq = (fq2, b)
    return [(st, None)]

RX_M3 = re.compile(r'mul<poly_ops::large_ints::compound_xint<2u, true>, long>\(')
def m3_contract(ex, st, f, args, ins):
    """product of a two word and a one word value (proved in A04): exact, three words"""
    d = ex.d; ro, pa, pb = args[:3]
    w = [ex.unundef(ex.load_at(st, p.r, ex.offc(p.off) + 8*i, ty_int(64))) for p, n in ((pa, 2), (pb, 1)) for i in range(n)]
    x = (d.u(w[0]) + d.s(w[1])*W)*d.s(w[2])
    for i in range(3): ex.put(st, ro.r, ex.offc(ro.off) + 8*i, 8, IV(d.fdiv(x, W**i) if i == 2 else d.modu(d.fdiv(x, W**i), W), 64))
    return [(st, None)]
def check():
    src = HEAD + '''namespace dd = poly_ops::draw::detail;
static inline void putl(i64 *o,__int128 v) { o[0] = i64(v); o[1] = i64(v >> 64); }
static inline void putl(i64 *o,int v) { o[0] = v; }
typedef std::size_t z;
'''
    for b, c in ((32, 'int'), (64, 'i64')):
        nw = b//32
        src += '''extern "C" bool in{b}({c} ax,{c} ay,{c} bx,{c} by,{c} cx,{c} cy,{c} dx,{c} dy,z ia,z ib,z ic,z id,i64 *w,i64 *n,i64 *m) {{
  dd::cached_segment<{c}> s(ia,ib,point_t<{c}>{{ax,ay}},point_t<{c}>{{bx,by}}), t(ic,id,point_t<{c}>{{cx,cy}},point_t<{c}>{{dx,dy}}); dd::whole_and_frac<{c},2> r{{0}}; bool x = dd::intersects(s,t,r); putl(w,r.whole); putl(n,r.frac.num); putl(m,r.frac.denom); return x; }}
extern "C" void xi{b}({c} ax,{c} ay,{c} bx,{c} by,{c} y,i64 *n,i64 *m) {{ auto f = dd::x_intercept(point_t<{c}>{{ax,ay}},point_t<{c}>{{bx,by}},y); putl(n,f.num); putl(m,f.denom); }}
extern "C" int wf{b}({c} w1,i64 n1,i64 d1,{c} w2,i64 n2,i64 d2) {{ typedef dd::whole_and_frac<{c},2> T; typedef dd::fraction<{c},2> F; T a{{w1,F(n1,d1)}}, b{{w2,F(n2,d2)}};
  return int(a < b) + 2*int(b < a) + 4*int(a == b) + 8*int(a < w2) + 16*int(a > w2) + 32*int(a == w2) + 64*int(a <= w2) + 128*int(a >= w2) + 256*int(a <= b) + 512*int(a.frac < b.frac) + 1024*int(a.frac == b.frac) + 2048*int(w1 < b); }}
'''.format(b=b, c=c)
        src += '''extern "C" int ws{b}({c} ax,{c} ay,{c} bx,{c} by,{c} cx,{c} cy,{c} dx,{c} dy,z ia,z ib,z ic,z id,{c} y) {{ dd::cached_segment<{c}> s(ia,ib,point_t<{c}>{{ax,ay}},point_t<{c}>{{bx,by}}), t(ic,id,point_t<{c}>{{cx,cy}},point_t<{c}>{{dx,dy}}); dd::sweep_cmp<{c}> cmp{{y}}; return int(cmp(s,t)) + 2*int(cmp(t,s)) + 4*int(cmp(s,s)); }}
extern "C" {c} tc{b}(i64 n,{c} m,{c} lo,{c} hi) {{ dd::fraction<{c},2,1> f(n,m); return dd::to_coord(f,lo,hi); }}
'''.format(b=b, c=c)
    src += '''extern "C" bool fill(i64 w,unsigned char r) { return dd::should_fill(poly_ops::draw::fill_rule_t(r),w); }
'''
    for b, c in ((32, 'int'), (64, 'i64')):
        src += '''struct FV{b} {{ dd::loop_point<{c}> *b, *e, *c; }};
extern "C" int ev{b}(dd::loop_point<{c}> *p,z n,int t1,z a1,z b1,{c} w1,i64 n1,i64 d1,int t2,z a2,z b2,{c} w2,i64 n2,i64 d2,{c} y) {{ FV{b} f{{p,p+n,p+n}}; typedef dd::event<{c}> E; typedef dd::whole_and_frac<{c},2> W; typedef dd::fraction<{c},2> F; typedef std::vector<dd::loop_point<{c}>> V; static_assert(sizeof(V) == sizeof(f)); const V &v = reinterpret_cast<const V&>(f); dd::event_cmp<{c}> cmp{{v}};
  auto mk = [](int t,z a,z b,{c} w,i64 n,i64 d) {{ return t == 1 ? E(dd::swap_type{{}},dd::segment(a,b),W(w,F(n,d))) : E(t == 0 ? dd::event_type_t::backward : dd::event_type_t::forward,dd::segment(a,b),0); }};
  E e = mk(t1,a1,b1,w1,n1,d1), g = mk(t2,a2,b2,w2,n2,d2); return int(cmp(e,g)) + 2*int(cmp(g,e)) + 4*int(cmp(e,e)) + 8*int(dd::less_than_or_equal(v,e,y)); }}
'''.format(b=b, c=c)
    u = Unit('B10', src, extra=('-fno-strict-aliasing',))
    def tasks():
        out = []
        for b in (32, 64):
            nw = b//32; CB = coords('w1 w2', b)
            def ipost(D, v, r, o):
                d, t, uu = par(v); s = sgn(D, d)
                dist = c_and(D.ne(v.ia, v.ic), D.ne(v.ia, v.id), D.ne(v.ib, v.ic), D.ne(v.ib, v.id))
                X = c_and(dist, c_or(c_and(D.gt(d, 0), D.gt(t, 0), D.lt(t, d), D.gt(uu, 0), D.lt(uu, d)), c_and(D.lt(d, 0), D.lt(t, 0), D.gt(t, d), D.lt(uu, 0), D.gt(uu, d))))
                w, n, m = o.w, val(D, o.n), val(D, o.m)
                return [('exactly the lines that cross inside both and share no end point', iff(r, X)),
                        ('the denominator is the positive cross product', imp(r, c_and(D.gt(m, 0), D.eq(m, D.absv(d))))),
                        ('the fraction is between zero and one', imp(r, c_and(D.ge(n, 0), D.lt(n, m)))),
                        ('whole and fraction are the exact y of the crossing', lambda: imp(r, c_or(c_and(D.gt(d, 0), D.eq(w*d + n, t*(v.by-v.ay) + d*v.ay)), c_and(D.lt(d, 0), D.eq(-w*d + n, -(t*(v.by-v.ay) + d*v.ay))))))]
            C2 = 1 << (b-2); BND = lambda names, C2=C2: [(n, -C2+1, C2-1) for n in names.split()]
            def ider(D, v):
                v['bx'] = v.ax - v.p; v['by'] = v.ay - v.q; v['cx'] = v.ax - v.e; v['cy'] = v.ay - v.f; v['dx'] = v.cx - v.r; v['dy'] = v.cy - v.s
            def ilem(ex, D, st, v, C2=C2):
                d, t, uu = par(v); st.ghost['um'] = [d, t*(v.by-v.ay) + d*v.ay]
                for S in (d, -d):
                    T = t if S is d else -t
                    for q in (C2 + v.ay, C2 - v.ay): st.add(D.mul_lemma(S - T, q))
                    for q in (C2 + v.by, C2 - v.by): st.add(D.mul_lemma(T, q))
            def ihint(D, v, r, o, C2=C2):
                out = []
                if getattr(D, 'umq', None):
                    q, y = D.umq
                    for S in (y, -y):
                        for e in (q - C2 - 1, q - C2, -q - C2, -q - C2 - 1): out.append(D.mul_lemma(e, S))
                for k, qr in list(D.fd.items()):
                    if isinstance(k, tuple) and k[0] == 'tdiv':
                        q = qr[0]
                        for S in (k[2], -k[2]):
                            for e in (q - C2 - 1, q - C2, -q - C2, -q - C2 - 1): out.append(D.mul_lemma(e, S))
                return out
            DL = 2*C2
            IP = [Par('ax', b, -C2+1, C2-1), Par('ay', b, -C2+1, C2-1)] + [Par(n, b, -DL+2, DL-2) for n in 'p q e f r s'.split()] + IDS()
            ARG = [(n, b) for n in 'ax ay bx by cx cy dx dy'.split()] + [(n, 64) for n in 'ia ib ic id'.split()]
            out.append(fn_task(u, 'in%d' % b, IP, 'b', [('w', 64, 1), ('n', 64, nw), ('m', 64, nw)], ipost, dbounds=BND('bx by cx cy dx dy'), derive=ider, argn=ARG, setup=ilem, hint=ihint, contracts=[(RX_UM, um_contract), (RX_M3, m3_contract)] if b == 64 else (), funcs=['draw::detail::intersects<int%d>' % b]))
            def xpost(D, v, r, o):
                n, m = val(D, o.n), val(D, o.m); e = v.ay - v.by
                N = v.ax*(v.y-v.by) + v.bx*(v.ay-v.y)
                return [('the denominator is positive', c_and(D.gt(m, 0), D.eq(m, D.absv(e)))), ('numerator and denominator are the exact x at y', c_or(c_and(D.gt(e, 0), D.eq(n, N)), c_and(D.lt(e, 0), D.eq(n, -N))))]
            out.append(fn_task(u, 'xi%d' % b, coords('ax ay bx by y', b), None, [('n', 64, nw), ('m', 64, 1)], xpost, pre=lambda D, v: [D.ne(v.ay, v.by)], funcs=['draw::detail::x_intercept<int%d>' % b, 'fraction::fraction']))
            L = 1 << 62
            def wpost(D, v, r, o):
                bit = lambda k: D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0)
                x, y = v.n1*v.d2, v.n2*v.d1
                lt = c_or(D.lt(v.w1, v.w2), c_and(D.eq(v.w1, v.w2), D.lt(x, y))); eq = c_and(D.eq(v.w1, v.w2), D.eq(x, y)); gt = c_or(D.gt(v.w1, v.w2), c_and(D.eq(v.w1, v.w2), D.gt(x, y)))
                lc = D.lt(v.w1, v.w2); ec = c_and(D.eq(v.w1, v.w2), D.eq(v.n1, 0)); gc = c_or(D.gt(v.w1, v.w2), c_and(D.eq(v.w1, v.w2), D.gt(v.n1, 0)))
                sp = [('<', lt), ('> ', gt), ('==', eq), ('< integer', lc), ('> integer', gc), ('== integer', ec), ('<= integer', c_or(lc, ec)), ('>= integer', c_or(gc, ec)), ('<=', c_or(lt, eq)), ('fraction <', D.lt(x, y)), ('fraction ==', D.eq(x, y)), ('integer <', c_or(D.lt(v.w1, v.w2), c_and(D.eq(v.w1, v.w2), D.gt(v.n2, 0))))]
                return [('%s compares the exact values' % nm, iff(bit(k), c)) for k, (nm, c) in enumerate(sp)]
            out.append(fn_task(u, 'wf%d' % b, [Par('w1', b), Par('n1', 64, 0, L), Par('d1', 64, 1, L), Par('w2', b), Par('n2', 64, 0, L), Par('d2', 64, 1, L)], ('i', 32), [], wpost, pre=lambda D, v: [D.lt(v.n1, v.d1), D.lt(v.n2, v.d2)], funcs=['whole_and_frac<int%d> comparisons' % b, 'fraction comparisons']))
            def spost(D, v, r, o):
                def x(p, y): # numerator and positive denominator at y
                    e = v[p[1]] - v[p[3]]; N = v[p[0]]*(y-v[p[3]]) + v[p[2]]*(v[p[1]]-y); return N, e
                (n1, e1), (n2, e2) = x(('ax', 'ay', 'bx', 'by'), v.y), x(('cx', 'cy', 'dx', 'dy'), v.y)
                (m1, _), (m2, _) = x(('ax', 'ay', 'bx', 'by'), v.y+1), x(('cx', 'cy', 'dx', 'dy'), v.y+1)
                A, B = n1*e2 - n2*e1, m1*e2 - m2*e1          # both denominators negative: the product is positive
                tie = c_or(c_and(D.ne(v.ib, v.id), D.gt(v.ib, v.id)), c_and(D.eq(v.ib, v.id), D.gt(v.ia, v.ic))); tie2 = c_or(c_and(D.ne(v.ib, v.id), D.lt(v.ib, v.id)), c_and(D.eq(v.ib, v.id), D.lt(v.ia, v.ic)))
                g = lambda s, tt: c_or(D.gt(s*A, 0), c_and(D.eq(A, 0), c_or(D.gt(s*B, 0), c_and(D.eq(B, 0), tt))))
                st, ts, ss = (D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0) for k in range(3))
                return [('irreflexive', c_not(ss)), ('greater x at the scan line first, then at the next, then by index', iff(st, g(1, tie))), ('the same with the arguments exchanged', iff(ts, g(-1, tie2)))]
            out.append(fn_task(u, 'ws%d' % b, seg8(b) + IDS() + [Par('y', b, -C2+1, C2-2)], ('i', 32), [], spost, pre=lambda D, v: [D.lt(v.ay, v.by), D.lt(v.cy, v.dy)], contracts=[(RX_M3, m3_contract)], funcs=['draw::detail::sweep_cmp<int%d>' % b]))
            def tpost(D, v, r, o):
                q = None
                # truncation toward zero: |q*m| <= |n| < |q*m| + |m|, same sign
                n, m, lo, hi = v.n, v.m, v.lo, v.hi; s = sgn(D, m); n_, m_ = s*n, s*m
                k1 = c_and(D.ge(n_, 0), D.le(r*m_, n_), D.lt(n_, r*m_ + m_)); k2 = c_and(D.lt(n_, 0), D.ge(r*m_, n_), D.gt(n_, r*m_ - m_))
                inr = c_or(k1, k2)
                lowq = D.lt(n_, lo*m_); hiq = D.gt(n_, hi*m_)
                return [('in the range', c_and(D.ge(r, lo), D.le(r, hi))), ('rounded toward zero, clamped', c_or(inr, c_and(D.eq(r, lo), c_or(lowq, D.le(n_, lo*m_))), c_and(D.eq(r, hi), D.ge(n_, hi*m_))))]
            if b == 32: out.append(fn_task(u, 'tc32', [Par('n', 64, -L, L), Par('m', 32, 1), Par('lo', 32), Par('hi', 32)], ('i', 32), [], tpost, pre=lambda D, v: [D.le(v.lo, v.hi), D.gt(v.m, 0), D.lt(v.n, v.m*(1 << 31)), D.gt(v.n, -v.m*(1 << 31))], funcs=['draw::detail::to_coord<int32>', 'clamp']))
        for b in (32, 64):
            for t1 in (0, 1):
                for t2 in (0, 1): out.append(ev_task(u, b, t1, t2))
        for k, (nm, f) in enumerate((('non_zero', lambda D, w: D.ne(w, 0)), ('even_odd', lambda D, w: D.eq(D.modu(w, 2), 1)), ('positive', lambda D, w: D.gt(w, 0)), ('negative', lambda D, w: D.lt(w, 0)))):
            out.append(fn_task(u, 'fill', [Par('w', 64), Par('r', 8, k, k, False)], 'b', [], lambda D, v, r, o, f=f: [('accepts exactly the windings of the rule', iff(r, f(D, v.w)))], task='fill_' + nm, funcs=['should_fill']))
        return out
    main('B10', [u], tasks, assumptions=['coordinates below 2^(bits-2) in magnitude', 'line indexes below 2^62'])
