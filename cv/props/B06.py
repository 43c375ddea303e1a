"""B06: adding loops point by point: stored without repeats, linked in order, closed; short loops vanish; the tracker is told in step."""
from geo import *
from B03 import imp, iff
SRC = '''
#include <new>
template<class Tag,auto M> struct Rob { friend constexpr auto getp(Tag) { return M; } };
'''
ROBS = [('Tl', 'C::lpoints'), ('To', 'C::_next_orig_i'), ('Tr', 'C::ran'), ('Tp', 'PS::prev'), ('Tpo', 'PS::prev_orig_i'), ('Tf', 'PS::first_orig_i'), ('Ts', 'PS::second_orig_i'), ('Tst', 'PS::started')]
def src_for(b, c, ix):
    return '''
namespace n{b} {{
typedef clipper<{c},{ix}> C; typedef C::point_sink PS; typedef loop_point<{ix},{c}> LP;
'''.format(b=b, c=c, ix=ix) + '}\n' + ''.join('struct %s%d { friend constexpr auto getp(%s%d); }; template struct Rob<%s%d,&n%d::%s>; ' % (t, b, t, b, t, b, b, m) for t, m in ROBS) + '''
namespace n{b} {{
struct FV {{ void *res; LP *b, *e, *c; }};
struct Rec : i_point_tracker<{ix}> {{ unsigned n; {ix} v[4]; void new_point_between({ix},{ix}) override {{ n += 100; }} void point_merge({ix},{ix}) override {{ n += 100; }} void point_added({ix} i) override {{ if(n < 4) v[n] = i; ++n; }} void reset() override {{ n += 100; }} }};
struct In {{ std::size_t first, n; {c} px, py; {ix} po, fo, so; unsigned char st, cat, pt; {ix} nx; }};
static inline void setvec(C &c,LP *p,std::size_t n,std::size_t cap) {{ FV f{{nullptr,p,p+n,p+cap}}; static_assert(sizeof(f) == sizeof(c.*getp(Tl{b}{{}}))); __builtin_memcpy(reinterpret_cast<void*>(&(c.*getp(Tl{b}{{}}))),&f,sizeof(f)); }}
static inline std::size_t getn(C &c,LP *p) {{ FV f; __builtin_memcpy(&f,reinterpret_cast<void*>(&(c.*getp(Tl{b}{{}}))),sizeof(f)); return std::size_t(f.e - p); }}
static inline void rd(LP *p,std::size_t i,i64 *o) {{ o[0] = p[i].data[0]; o[1] = p[i].data[1]; o[2] = p[i].next; o[3] = i64(p[i].bset()); o[4] = i64(p[i].state()); }}
static void setup(C &c,PS &s,const In &i,LP *p,std::size_t cap) {{ setvec(c,p,i.n,cap); c.*getp(To{b}{{}}) = i.nx; s.*getp(Tp{b}{{}}) = point_t<{c}>{{i.px,i.py}}; s.*getp(Tpo{b}{{}}) = i.po; s.*getp(Tf{b}{{}}) = i.fo; s.*getp(Ts{b}{{}}) = i.so; s.*getp(Tst{b}{{}}) = i.st != 0; }}
}}
extern "C" void op{b}(n{b}::LP *p,std::size_t cap,std::size_t first,std::size_t n,{c} px,{c} py,{ix} po,{ix} fo,{ix} so,unsigned char st,unsigned char cat,unsigned char pt,{ix} nx,{c} x,{c} y,{ix} orig,std::size_t q,i64 *o) {{ using namespace n{b};
  alignas(16) char cb[sizeof(C)]; C &c = reinterpret_cast<C&>(cb); c.*getp(Tr{b}{{}}) = false; setvec(c,p,first,cap); Rec r; r.n = 0;
  alignas(16) char sb[sizeof(PS)]; PS &s = *new(sb) PS(c.add_loop(bool_set(cat),pt ? &r : nullptr)); setup(c,s,In{{first,n,px,py,po,fo,so,st,cat,pt,nx}},p,cap);
  if(q < n) rd(p,q,o+20);
  s(point_t<{c}>{{x,y}},orig);
  o[0] = i64(getn(c,p)); auto &v = s.*getp(Tp{b}{{}}); o[1] = v[0]; o[2] = v[1]; o[3] = s.*getp(Tpo{b}{{}}); o[4] = s.*getp(Tf{b}{{}}); o[5] = s.*getp(Ts{b}{{}}); o[6] = s.*getp(Tst{b}{{}}); o[7] = s.next_orig_i(); o[8] = r.n; for(int i=0; i<3; ++i) o[9+i] = int(r.n) > i ? i64(r.v[i]) : -1;
  if(getn(c,p) > n) rd(p,n,o+12); else o[12] = o[13] = o[14] = o[15] = o[16] = -1;
  if(q < n) rd(p,q,o+25); }}
extern "C" void fin{b}(n{b}::LP *p,std::size_t cap,std::size_t first,std::size_t n,{c} px,{c} py,{ix} po,{ix} fo,{ix} so,unsigned char st,unsigned char cat,unsigned char pt,{ix} nx,std::size_t q,i64 *o) {{ using namespace n{b};
  alignas(16) char cb[sizeof(C)]; C &c = reinterpret_cast<C&>(cb); c.*getp(Tr{b}{{}}) = false; setvec(c,p,first,cap); Rec r; r.n = 0;
  if(q < n) rd(p,q,o+20);
  alignas(16) char sb[sizeof(PS)]; PS &s = *new(sb) PS(c.add_loop(bool_set(cat),pt ? &r : nullptr)); setup(c,s,In{{first,n,px,py,po,fo,so,st,cat,pt,nx}},p,cap); s.~PS();
  o[0] = i64(getn(c,p)); o[7] = c.*getp(To{b}{{}}); o[8] = r.n; for(int i=0; i<3; ++i) o[9+i] = int(r.n) > i ? i64(r.v[i]) : -1;
  o[17] = 0; if(getn(c,p) > first) {{ rd(p,getn(c,p)-1,o+12); o[17] = p[getn(c,p)-1].state() == line_state::check; }} else o[12] = o[13] = o[14] = o[15] = o[16] = -1;
  if(q < n) rd(p,q,o+25); }}
'''.format(b=b, c=c, ix=ix)

def eqp(D, a, b): return c_and(D.eq(a[0], b[0]), D.eq(a[1], b[1]))
def announce(D, v, k, pushed, o):
    """the tracker is told about the third point together with the first two"""
    use = c_and(D.ne(v['pt'], 0), pushed); z = lambda c, n, a: imp(c, c_and(D.eq(o[8], n), *[D.eq(o[9+i], x) for i, x in enumerate(a)]))
    return [('no point is announced before there are three, or without a new point', imp(c_or(c_not(use), D.lt(k, 2)), D.eq(o[8], 0))),
            ('the third point announces the first three origins in order', z(c_and(use, D.eq(k, 2)), 3, (v['fo'], v['so'], v['po']))),
            ('every later point is announced once with its origin', z(c_and(use, D.gt(k, 2)), 1, (v['po'],)))]
def post_op(D, v, o, back, q):
    """o: outputs; back: the last stored point of the loop (if any)"""
    k = v['n'] - v['first']; same = c_and(D.ne(v['st'], 0), eqp(D, (v['x'], v['y']), (v['px'], v['py'])))
    pushed = c_and(D.ne(v['st'], 0), c_not(same), c_or(D.eq(k, 0), c_not(eqp(D, back, (v['px'], v['py'])))))
    r = [('a point is stored exactly when a different one follows it', c_and(imp(pushed, D.eq(o[0], v['n'] + 1)), imp(c_not(pushed), D.eq(o[0], v['n'])))),
         ('the stored point is the one before, linked to the next index, of the set of the loop', imp(pushed, c_and(D.eq(o[12], v['px']), D.eq(o[13], v['py']), D.eq(o[14], v['n'] + 1), D.eq(o[15], v['cat'])))),
         ('the new point is remembered with its origin, a repeat is not', c_and(D.eq(o[1], v['x']), D.eq(o[2], v['y']), D.ne(o[6], 0), imp(same, D.eq(o[3], v['po'])), imp(c_not(same), D.eq(o[3], v['orig'])))),
         ('the next origin index follows the one of the point', D.eq(o[7], v['orig'] + 1)),
         ('the origins of the first two points are kept until they are announced', imp(c_and(D.ne(v['pt'], 0), pushed), c_and(imp(D.eq(k, 0), D.eq(o[4], v['po'])), imp(D.ne(k, 0), D.eq(o[4], v['fo'])), imp(D.eq(k, 1), D.eq(o[5], v['po'])), imp(D.gt(k, 1), D.eq(o[5], v['so'])))))]
    r += announce(D, v, k, pushed, o)
    r.append(('other points do not change', imp(D.lt(q, v['n']), c_and(*[D.eq(o[20+i], o[25+i]) for i in range(5)]))))
    return r
def post_fin(D, v, o, back, fst, q):
    k = v['n'] - v['first']; P_ = (v['px'], v['py']); st = D.ne(v['st'], 0)
    pushed = c_and(st, c_or(D.eq(k, 0), c_and(c_not(eqp(D, fst, P_)), c_not(eqp(D, back, P_)))))
    three = c_and(st, c_or(D.ge(k, 3), c_and(pushed, D.ge(k, 2)))); short = c_and(st, c_not(three))
    r = [('a loop of fewer than three points vanishes', imp(short, D.eq(o[0], v['first']))), ('an unused sink adds nothing', imp(c_not(st), D.eq(o[0], v['n']))),
         ('the last point is stored unless it repeats the first or the point before', imp(three, c_and(imp(pushed, c_and(D.eq(o[0], v['n'] + 1), D.eq(o[12], v['px']), D.eq(o[13], v['py']), D.eq(o[15], v['cat']))), imp(c_not(pushed), D.eq(o[0], v['n']))))),
         ('the last point is linked to the first', imp(three, D.eq(o[14], v['first']))), ('the closing line is marked', imp(three, D.eq(o[17], 1))),
         ('the next origin index does not change', D.eq(o[7], v['nx']))]
    r += announce(D, v, k, pushed, o)
    last = c_and(three, c_not(pushed), D.eq(q, v['n'] - 1))
    r.append(('other points do not change', imp(c_and(D.lt(q, v['n']), c_or(D.lt(q, v['first']), c_and(three, c_not(last)))), c_and(*[D.eq(o[20+i], o[25+i]) for i in range(5)]))))
    r.append(('the coordinates of the last point do not change', imp(last, c_and(D.eq(o[20], o[25]), D.eq(o[21], o[26]), D.eq(o[23], o[28])))))
    return r
def sink_task(u, b, fin, stv, ptv):
    nb = b//8; IB = 32; isz = 4
    off = {32: dict(x=(0, 4), y=(4, 4), next=(8, 4)), 64: dict(x=(0, 8), y=(8, 8), next=(16, 4))}[b]
    PN = 'first n px py po fo so st cat pt nx'.split() + ([] if fin else 'x y orig'.split()) + ['q']
    W = dict(first=64, n=64, px=b, py=b, po=32, fo=32, so=32, st=8, cat=8, pt=8, nx=32, x=b, y=b, orig=32, q=64)
    name = ('fin' if fin else 'op') + str(b); esz = 20 if b == 32 else 32; aux = 12 if b == 32 else 20
    NO = 30
    def prove(R):
        ex, D = R.new('int'); st = ex.new_state(); M = 1 << 30; H = (1 << (b-1))
        cap = D.atom('cap', 0, M)
        F = {off['x'][0]: (nb, 'i'), off['y'][0]: (nb, 'i'), off['next'][0]: (4, 'u'), aux: (4, (0, 1)), aux+4: (1, (0, 31))}
        rid = new_arr(ex, st, 'points', esz, F, cap)
        v = {}
        for k in PN:
            if k == 'st': v[k] = P(stv)
            elif k == 'pt': v[k] = P(ptv)
            elif k == 'cat': v[k] = D.atom(k, 0, 1)
            elif k in ('first', 'n', 'q'): v[k] = D.atom(k, 0, M)
            elif k in ('po', 'fo', 'so', 'nx', 'orig'): v[k] = D.atom(k, 0, (1 << 32)-2)
            else: v[k] = D.atom(k, -H, H-1)
        st.add(D.le(v['first'], v['n'])); st.add(D.lt(v['n'], cap))
        if not stv: st.add(D.eq(v['n'], v['first']))
        ro = ex.new_region(st, 'o', 8*NO)
        for i in range(20, 30): ex.put(st, ro, 8*i, 8, IV(P(0), 64))
        # the stored points the specification names, as they are before the call
        k = v['n'] - v['first']; states = []
        for has, s in ex.fork(st, D.gt(k, 0)):
            if not has: states.append((s, (P(0), P(0)), (P(0), P(0)))); continue
            e1, = elem(ex, s, rid, v['n'] - 1); s = e1[0]; bk = (D.s(e1[1][off['x'][0]]), D.s(e1[1][off['y'][0]]))
            for s2, e2 in elem(ex, s, rid, v['first']): states.append((s2, bk, (D.s(e2[off['x'][0]]), D.s(e2[off['y'][0]]))))
        for s, bk, fs in states:
            for f in R_run(ex, R, name, rid, cap, PN, v, W, ro, s):
                o = [ex.load_at(f, ro, 8*i, ty_int(64)) for i in range(NO)]
                o = [P(-7) if isinstance(x, Undef) else D.s(x) for x in o]
                ex.oblige_all(f, post_fin(D, v, o, bk, fs, v['q']) if fin else post_op(D, v, o, bk, v['q']))
    def R_run(ex, R, name, rid, cap, PN, v, W, ro, s):
        out = ex.run(name, [Ptr(rid, 0), IV(cap, 64)] + [IV(v[k], W[k]) for k in PN] + [Ptr(ro, 0)], s); R.finals(out); return out
    def conc(lib, inp):
        pts, vals = inp; v = dict(zip(PN, vals)); cap = len(pts) + 4
        buf = (ctypes.c_char*(esz*cap))()
        import struct
        fm = {32: '<iiIiBxxx', 64: '<qqIiBxxxxxxx'}[b]
        for i, (x, y, nx, bs, stt) in enumerate(pts): struct.pack_into(fm, buf, i*esz, x, y, nx, bs, stt)
        o = (ctypes.c_int64*NO)(*([0]*NO)); f = getattr(lib, name); f.restype = None
        T = {64: ctypes.c_int64, 32: ctypes.c_uint32, 8: ctypes.c_uint8}
        f(buf, ctypes.c_size_t(cap), *[(ctypes.c_int32 if k in ('px', 'py', 'x', 'y') and b == 32 else T[W[k]])(v[k]) for k in PN], o)
        bk = pts[v['n']-1][:2] if v['n'] > v['first'] else (0, 0); fs = pts[v['first']][:2] if v['n'] > v['first'] else (0, 0)
        for nm, c in (post_fin(PY, v, list(o), bk, fs, v['q']) if fin else post_op(PY, v, list(o), bk, v['q'])):
            if not c: return {'failure': '%s with stored points %s, %s: %s violated, outputs %s' % (name, pts, v, nm, list(o))}
    def gen(rng, cnt):
        for _ in range(cnt):
            first = rng.randint(0, 2); n = first + (rng.randint(0, 4) if stv else 0); g = lambda: rng.randint(0, 1)
            pts = [(g(), g(), rng.randint(0, 9), g(), rng.randint(0, 3)) for _ in range(n)]
            v = dict(first=first, n=n, px=g(), py=g(), po=rng.randint(0, 99), fo=rng.randint(0, 99), so=rng.randint(0, 99), st=stv, cat=g(), pt=ptv, nx=rng.randint(0, 99), x=g(), y=g(), orig=rng.randint(0, 99), q=rng.randint(0, max(0, n)))
            yield [pts, [v[k] for k in PN]]
    return Task('%s_%d%d' % (name, stv, ptv), u, prove, conc, gen, ['clipper<int%d>::point_sink::%s' % (b, '~point_sink' if fin else 'operator()'), 'point_sink::finalize_prev', 'clipper::add_loop'], 'int', n_quick=3000)
def check():
    src = HEAD + SRC + src_for(32, 'int', 'unsigned') + src_for(64, 'i64', 'unsigned')
    u = Unit('B06', src, extra=('-fno-strict-aliasing',))
    main('B06', [u], lambda: [sink_task(u, b, fin, s, p) for b in (32, 64) for fin in (0, 1) for s in (0, 1) for p in (0, 1)], assumptions=['the vector of points has room (growth of std::vector keeps the elements)', 'at most 2^30 points; origin indexes below 2^32-1'], trusted=['layout of std::vector (three pointers after the allocator), as compiled'])
