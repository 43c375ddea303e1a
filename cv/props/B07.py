"""B07: splitting a line at a crossing keeps the loops, the events and the sweep nodes in step; touching ends are marked; anchor points."""
from geo import *
from B03 import imp, iff
SRC = '''
#include <new>
struct FV { void *res; char *b, *e, *c; };
template<class V,class T> static inline void setv(V &v,T *p,std::size_t n,std::size_t cap) { FV f{nullptr,reinterpret_cast<char*>(p),reinterpret_cast<char*>(p+n),reinterpret_cast<char*>(p+cap)}; static_assert(sizeof(f) == sizeof(V)); __builtin_memcpy(reinterpret_cast<void*>(&v),&f,sizeof(f)); }
template<class V,class T> static inline std::size_t getn(V &v,T *p) { FV f; __builtin_memcpy(&f,reinterpret_cast<void*>(&v),sizeof(f)); return std::size_t(reinterpret_cast<T*>(f.e) - p); }
typedef event<unsigned> EV;
static inline void rde(const EV &e,i64 *o) { o[0] = e.ab.a; o[1] = e.ab.b; o[2] = e.sweep_node; o[3] = i64(e.type); o[4] = i64(e.status); }
struct Rec : i_point_tracker<unsigned> { unsigned n = 0, bad = 0, a = 0, b = 0; void new_point_between(unsigned x,unsigned y) override { ++n; a = x; b = y; } void point_merge(unsigned,unsigned) override { ++bad; } void point_added(unsigned) override { ++bad; } void reset() override { ++bad; } };
'''
def src_for(b, c):
    return '''
namespace n{b} {{
typedef clipper<{c},unsigned> C; typedef loop_point<unsigned,{c}> LP; typedef sweep_node<unsigned,{c}> SN; typedef sweep_t<unsigned,{c}> SW;
static inline void rd(const LP &p,i64 *o) {{ o[0] = p.data[0]; o[1] = p.data[1]; o[2] = p.next; o[3] = i64(p.bset()); o[4] = i64(p.state()); }}
static inline void rds(const SN &s,i64 *o) {{ o[0] = s.value.a; o[1] = s.value.b; o[2] = s.value.pa[0]; o[3] = s.value.pa[1]; o[4] = s.value.pb[0]; o[5] = s.value.pb[1]; }}
template<class PV,class NV,class EVV> static inline void before(PV &p,NV &nodes,EVV &ev,unsigned s,std::size_t q,std::size_t qn,std::size_t qe,i64 *o) {{
  o[87] = nodes[s].value.a; o[88] = nodes[s].value.b; rd(p[nodes[s].value.a],o+89); rd(p[nodes[s].value.b],o+94); rd(p[q],o+60); rds(nodes[qn],o+81); rde(ev[qe],o+70); }}
template<class PV,class NV,class EVV> static inline void after(PV &p,NV &nodes,EVV &ev,std::size_t n,std::size_t nn,std::size_t en,std::size_t n2,std::size_t nn2,std::size_t en2,Rec &r,std::size_t q,std::size_t qn,std::size_t qe,i64 *o) {{
  o[1] = i64(n2); o[42] = i64(nn2); o[21] = i64(en2); o[18] = r.n + 100*r.bad; o[19] = r.a; o[20] = r.b;
  if(n2 == n+1) rd(p[n],o+2);
  rd(p[o[87]],o+8); rd(p[o[88]],o+13);
  if(en2 == en+4) for(int i=0; i<4; ++i) rde(ev[en+i],o+22+5*i);
  if(nn2 == nn+2) for(int i=0; i<2; ++i) rds(nodes[nn+i],o+43+6*i);
  rd(p[q],o+55); rds(nodes[qn],o+75); rde(ev[qe],o+65); }}
}}
extern "C" void sp{b}(n{b}::LP *p,n{b}::SN *nodes,EV *ev,std::size_t n,std::size_t nn,std::size_t en,std::size_t cap,unsigned s,{c} cx,{c} cy,signed char at,unsigned char pt,std::size_t q,std::size_t qn,std::size_t qe,i64 *o) {{ using namespace n{b};
  alignas(16) char cb[sizeof(C)]; C &c = reinterpret_cast<C&>(cb); alignas(16) char sb[sizeof(SW)]; SW &sw = reinterpret_cast<SW&>(sb); Rec r;
  setv(c.lpoints,p,n,cap); setv(c.sweep_nodes,nodes,nn,cap); setv(c.events.events,ev,en,cap); c.events.last_size = en;
  before(p,nodes,ev,s,q,qn,qe,o);
  o[0] = c.split_segment(sw,s,point_t<{c}>{{cx,cy}},at_edge_t(at),pt ? &r : nullptr);
  after(p,nodes,ev,n,nn,en,getn(c.lpoints,p),getn(c.sweep_nodes,nodes),getn(c.events.events,ev),r,q,qn,qe,o); }}
extern "C" void ci{b}(n{b}::LP *p,n{b}::SN *nodes,std::size_t n,std::size_t nn,std::size_t cap,unsigned s1,unsigned s2,std::size_t q,i64 *o) {{ using namespace n{b};
  alignas(16) char cb[sizeof(C)]; C &c = reinterpret_cast<C&>(cb); alignas(16) char sb[sizeof(SW)]; SW &sw = reinterpret_cast<SW&>(sb);
  setv(c.lpoints,p,n,cap); setv(c.sweep_nodes,nodes,nn,cap);
  o[1] = nodes[s1].value.a; o[2] = nodes[s1].value.b; o[3] = nodes[s2].value.a; o[4] = nodes[s2].value.b; rd(p[q],o+5);
  o[0] = c.check_intersection(sw,s1,s2,nullptr); rd(p[q],o+10); }}
extern "C" void an{b}(n{b}::LP *p,std::size_t n,std::size_t cap,unsigned i,unsigned char pt,std::size_t q,i64 *o) {{ using namespace n{b};
  alignas(16) char cb[sizeof(C)]; C &c = reinterpret_cast<C&>(cb); Rec r; setv(c.lpoints,p,n,cap);
  rd(p[i],o+5); o[30] = i64(p[p[i].next].state()); rd(p[q],o+20);
  o[0] = c.insert_anchor_point(i,pt ? &r : nullptr); o[1] = i64(getn(c.lpoints,p)); o[2] = r.n + 100*r.bad; o[3] = r.a; o[4] = r.b;
  rd(p[i],o+10); if(getn(c.lpoints,p) == n+1) rd(p[n],o+15); rd(p[q],o+25); }}
// the same on a real clipper, for replays: a loop of m points, the sweep holding the lines s (and s2)
extern "C" int rsp{b}(const {c} *xy,std::size_t m,unsigned s,{c} cx,{c} cy,signed char at,unsigned char pt,std::size_t q,std::size_t qn,std::size_t qe,i64 *o) {{ using namespace n{b};
  C c; {{ auto snk = c.add_loop(bool_set::clip); for(std::size_t i=0; i<m; ++i) snk(point_t<{c}>{{xy[2*i],xy[2*i+1]}}); }}
  if(c.lpoints.size() < 3) return 0;
  std::size_t n = c.lpoints.size(); s = 1 + s % unsigned(n); Rec r;
  if(c.sweep_nodes.empty()) c.sweep_nodes.emplace_back();
  for(unsigned i=0; i<n; ++i) {{ unsigned j1 = i, j2 = c.lpoints[i].next; if(c.lpoints[j1].data[0] > c.lpoints[j2].data[0]) std::swap(j1,j2); c.add_fb_events(j1,j2); }}
  c.events.next(c.lpoints); SW sw(c.sweep_nodes); sw.insert(s);
  std::size_t nn = c.sweep_nodes.size(), en = c.events.events.size(); q %= n; qn = 1 + qn % (nn-1); qe %= en;
  if(at == 0 && (c.sweep_nodes[s].value.pa == point_t<{c}>{{cx,cy}} || c.sweep_nodes[s].value.pb == point_t<{c}>{{cx,cy}})) return 0;
  before(c.lpoints,c.sweep_nodes,c.events.events,s,q,qn,qe,o);
  o[99] = -1; for(std::size_t i=0; i<en; ++i) {{ auto &e = c.events.events[i]; if(i64(e.ab.a) == o[87] && i64(e.ab.b) == o[88] && (e.type == event_type_t::forward || e.type == event_type_t::vforward)) o[99] = i64(i); }}
  o[0] = c.split_segment(sw,s,point_t<{c}>{{cx,cy}},at_edge_t(at),pt ? &r : nullptr);
  after(c.lpoints,c.sweep_nodes,c.events.events,n,nn,en,c.lpoints.size(),c.sweep_nodes.size(),c.events.events.size(),r,q,qn,qe,o);
  o[100] = i64(n); o[101] = i64(nn); o[102] = i64(en); o[103] = i64(q); o[104] = i64(qe); o[105] = i64(qn); o[106] = sw.begin() == sw.end(); return 1; }}
extern "C" int rci{b}(const {c} *xy,std::size_t m,unsigned s1,unsigned s2,i64 *o) {{ using namespace n{b};
  C c; {{ auto snk = c.add_loop(bool_set::clip); for(std::size_t i=0; i<m; ++i) snk(point_t<{c}>{{xy[2*i],xy[2*i+1]}}); }}
  if(c.lpoints.size() < 3) return 0;
  std::size_t n = c.lpoints.size(); s1 = 1 + s1 % unsigned(n); s2 = 1 + s2 % unsigned(n); if(s1 == s2) return 0;
  if(c.sweep_nodes.empty()) c.sweep_nodes.emplace_back();
  for(unsigned i=0; i<n; ++i) {{ c.lpoints[i].state() = line_state::undef; unsigned j1 = i, j2 = c.lpoints[i].next; if(c.lpoints[j1].data[0] > c.lpoints[j2].data[0]) std::swap(j1,j2); c.add_fb_events(j1,j2); }}
  c.events.next(c.lpoints); SW sw(c.sweep_nodes); sw.insert(s1); sw.insert(s2);
  auto x = c.sweep_nodes[s1].value, y = c.sweep_nodes[s2].value; auto rg = c.rgen; point_t<{c}> in; at_edge_t ae[2];
  bool hit = intersects(x,y,in,std::span<at_edge_t,2>(ae),rg); bool both = hit && ae[0] == at_edge_t::both, spl = hit && !both && (ae[0] == at_edge_t::no || ae[1] == at_edge_t::no);
  bool r = c.check_intersection(sw,s1,s2,nullptr);
  o[0] = 0; if(r != spl) o[0] |= 1; std::size_t want = n + (hit && ae[0] == at_edge_t::no) + (hit && ae[1] == at_edge_t::no); if(c.lpoints.size() != want) {{ o[0] |= 2; return 1; }}
  std::vector<char> mark(want,0); for(std::size_t i=n; i<want; ++i) {{ mark[i] = 1; if(c.lpoints[i].data != in) o[0] |= 4; }}
  if(both) mark[x.a] = mark[x.b] = mark[y.a] = mark[y.b] = 1;
  else if(hit) for(int k=0; k<2; ++k) {{ auto &sg = k ? y : x; if(ae[k] == at_edge_t::start) mark[sg.a] = 1; if(ae[k] == at_edge_t::end) mark[sg.b] = 1; }}
  for(std::size_t i=0; i<want; ++i) if((c.lpoints[i].state() == line_state::check) != bool(mark[i])) o[0] |= 8;
  return 1; }}
'''.format(b=b, c=c)

def post_split(D, v, o):
    """v: s cx cy at pt n nn en q qn qe, k: the index of the event found; o: see the driver"""
    a, b = o[87], o[88]; A, B = o[89:94], o[94:99]; C_ = (v['cx'], v['cy']); at = v['at']; mid = v['n']; split = D.eq(at, 0)
    am = D.eq(A[2], b); n2 = lambda c, x, y: D.pite(c, x, y)
    fa, fb = n2(am, a, b), n2(am, b, a); FA = [n2(am, x, y) for x, y in zip(A, B)]; FB = [n2(am, y, x) for x, y in zip(A, B)]
    fa2 = [n2(am, x, y) for x, y in zip(o[8:13], o[13:18])]; fb2 = [n2(am, y, x) for x, y in zip(o[8:13], o[13:18])]
    z = lambda c: imp(split, c); eqs = lambda xs, ys: c_and(*[D.eq(x, y) for x, y in zip(xs, ys)])
    r = [('at an end of the line that end is returned and nothing is added', c_and(imp(D.eq(at, -1), D.eq(o[0], a)), imp(D.eq(at, 1), D.eq(o[0], b)), imp(D.ne(at, 0), c_and(D.eq(o[1], v['n']), D.eq(o[42], v['nn']), D.eq(o[21], v['en']), D.eq(o[18], 0))))),
         ('one point is added and returned', z(c_and(D.eq(o[0], mid), D.eq(o[1], mid + 1)))),
         ('the new point lies at the crossing, in the set of the line', z(c_and(D.eq(o[2], C_[0]), D.eq(o[3], C_[1]), D.eq(o[5], A[3])))),
         ('the line now goes through the new point', z(c_and(D.eq(o[4], fb), D.eq(fa2[2], mid)))),
         ('the ends of the line are not moved', z(c_and(*[D.eq(fa2[i], FA[i]) for i in (0, 1, 3, 4)], eqs(fb2, FB)))),
         ('the tracker hears of the new point once, between the ends in loop order', z(imp(D.ne(v['pt'], 0), c_and(D.eq(o[18], 1), D.eq(o[19], fa), D.eq(o[20], fb)))))]
    def evs(i, p, P_, q, Q, node):
        l = D.le(P_[0], Q[0]); L, R = n2(l, p, q), n2(l, q, p); vt = D.eq(P_[0], Q[0]); LP, RP = [n2(l, x, y) for x, y in zip(P_[:2], Q[:2])], [n2(l, y, x) for x, y in zip(P_[:2], Q[:2])]
        e, g = o[22+10*i:27+10*i], o[27+10*i:32+10*i]; s = o[43+6*i:49+6*i]
        return [('part %d of the line gets a start and an end event from left to right' % i, z(c_and(eqs(e, (L, R, node, n2(vt, 0, 2), 0)), eqs(g, (R, L, node, n2(vt, 3, 1), 0))))),
                ('part %d of the line gets a sweep node with its points' % i, z(eqs(s, (L, R, *LP, *RP))))]
    r += [('four events and two nodes are added', z(c_and(D.eq(o[21], v['en'] + 4), D.eq(o[42], v['nn'] + 2))))]
    r += evs(0, fa, FA, mid, C_, v['nn']) + evs(1, mid, C_, fb, FB, v['nn'] + 1)
    r += [('no other point changes', imp(c_or(c_not(split), c_and(D.ne(v['q'], a), D.ne(v['q'], b))), eqs(o[55:60], o[60:65]))),
          ('the lines of other nodes do not change', eqs(o[75:81], o[81:87])),
          ('only the start event of the line is deleted', c_and(eqs(o[65:69], o[70:74]), imp(c_and(split, D.eq(v['qe'], v['k'])), D.eq(o[69], 1)), imp(c_or(c_not(split), D.ne(v['qe'], v['k'])), D.eq(o[69], o[74]))))]
    return r
LPF = {32: ({0: (4, 'i'), 4: (4, 'i'), 8: (4, 'u'), 12: (4, (0, 1)), 16: (1, (0, 31))}, 20), 64: ({0: (8, 'i'), 8: (8, 'i'), 16: (4, 'u'), 20: (4, (0, 1)), 24: (1, (0, 31))}, 32)}
SNF = {32: ({0: (4, 'u'), 4: (4, 'u'), 8: (4, 'u'), 12: (4, (0, 1)), 16: (4, 'u'), 20: (4, 'u'), 24: (4, 'i'), 28: (4, 'i'), 32: (4, 'i'), 36: (4, 'i')}, 40), 64: ({0: (4, 'u'), 4: (4, 'u'), 8: (4, 'u'), 12: (4, (0, 1)), 16: (4, 'u'), 20: (4, 'u'), 24: (8, 'i'), 32: (8, 'i'), 40: (8, 'i'), 48: (8, 'i')}, 56)}
EVF = ({0: (4, 'u'), 4: (4, 'u'), 8: (4, 'u'), 12: (4, (0, 3)), 16: (4, (0, 1))}, 20)
NX = {32: 8, 64: 16}; VA = 16; PA = {32: (24, 28, 32, 36), 64: (24, 32, 40, 48)}
XY = {32: (0, 4), 64: (0, 8)}; ST = {32: 16, 64: 24}; BS = {32: 12, 64: 20}
def one(l):
    assert len(l) == 1; return l[0]
def seg_pre(ex, D, st, rp, rn, b, s, n):
    """node s holds a line of the loops with the coordinates of its ends -> [(state, a, b)]"""
    out = []
    st, N = one(elem(ex, st, rn, s)); a, bb = D.u(N[VA]), D.u(N[VA+4]); st.add(D.lt(a, n)); st.add(D.lt(bb, n)); st.add(D.ne(a, bb))
    for st1, A in elem(ex, st, rp, a):
        for st2, B in elem(ex, st1, rp, bb):
            pa = [D.s(N[x]) for x in PA[b]]; ax, ay, bx, by = D.s(A[XY[b][0]]), D.s(A[XY[b][1]]), D.s(B[XY[b][0]]), D.s(B[XY[b][1]])
            for x, y in zip(pa, (ax, ay, bx, by)): st2.add(D.eq(x, y))
            an, bn = D.u(A[NX[b]]), D.u(B[NX[b]])
            st2.add(c_or(D.eq(an, bb), D.eq(bn, a))); st2.add(c_not(c_and(D.eq(an, bb), D.eq(bn, a))))
            st2.add(c_or(D.lt(ax, bx), c_and(D.eq(ax, bx), D.eq(an, bb)))); st2.add(D.eq(D.u(A[BS[b]]), D.u(B[BS[b]])))
            out.append((st2, a, bb, (ax, ay, bx, by)))
    return out
def split_task(u, b, at, pt):
    M = 1 << 28; H = 1 << b-1; NO = 107
    def prove(R):
        def c_erase(ex, st, f, args, ins):
            # by value of the node index: passed by reference
            x = ex.d.u(ex.load_at(st, args[-1].r, ex.offc(args[-1].off) or 0, ty_int(32))) if isinstance(args[-1], Ptr) else ex.d.u(args[-1])
            st.ghost['er'] = st.ghost.get('er', ()) + (x,); return [(st, Undef(ins.t))]
        def c_init(ex, st, f, args, ins):
            st.ghost['in'] = st.ghost.get('in', ()) + (len(st.ghost.get('er', ())), ex.d.u(args[-1])); return [(st, None)]
        def c_find(ex, st, f, args, ins):
            # lower_bound over the sorted events: the start event of the line (present and sorted: precondition of the sweep)
            d = ex.d; p = args[2]; o = p.off if isinstance(p.off, IV) else P(p.off)
            typ = d.u(args[3]); out = []
            a = ex.load(st, p, ty_int(32), 'find'); 
            for s1, x in a:
                for s2, y in ex.load(s1, ex.gep_off(p, 4) if hasattr(ex, 'gep_off') else Ptr(p.r, IV((p.off.p if isinstance(p.off, IV) else P(p.off)) + 4, 64)), ty_int(32), 'find'):
                    ex.oblige(s2, 'the start event searched is the one of the line', c_and(d.eq(d.u(x), s2.ghost['a']), d.eq(d.u(y), s2.ghost['b']), d.eq(typ, d.pite(d.eq(s2.ghost['x'][0], s2.ghost['x'][2]), 0, 2))))
                    for s3, e in elem(ex, s2, s2.ghost['rev'], s2.ghost['k']): out.append((s3, Ptr(s3.ghost['rev'], IV(s3.ghost['k']*20, 64))))
            return out
        ex, D = R.new('int', contracts=[(re.compile(r'sweep_set<.*>::iterator.*::erase<|sweep_set<.*::erase<'), c_erase), (re.compile(r'sweep_set<.*::init_node\(unsigned int\)'), c_init), (re.compile(r'events_t<.*::find\(.*event_type_t\)$'), c_find)])
        st = ex.new_state(); cap = D.atom('cap', 0, M)
        rp, rn, re_ = new_arr(ex, st, 'points', LPF[b][1], LPF[b][0], cap), new_arr(ex, st, 'nodes', SNF[b][1], SNF[b][0], cap), new_arr(ex, st, 'events', 20, EVF[0], cap)
        v = {k: D.atom(k, 0, M) for k in 'n nn en s q qn qe k'.split()}; v['cx'] = D.atom('cx', -H, H-1); v['cy'] = D.atom('cy', -H, H-1); v['at'] = P(at); v['pt'] = P(pt)
        for x, add in (('n', 1), ('nn', 2), ('en', 4)): st.add(D.le(v[x] + add, cap))
        for x, m in (('s', 'nn'), ('q', 'n'), ('qn', 'nn'), ('qe', 'en'), ('k', 'en')): st.add(D.lt(v[x], v[m]))
        ro = ex.new_region(st, 'o', 8*NO)
        for i in range(NO): ex.put(st, ro, 8*i, 8, IV(P(-5), 64))
        for s, a, bb, X in seg_pre(ex, D, st, rp, rn, b, v['s'], v['n']):
            if at == 0: s.add(c_not(c_and(D.eq(v['cx'], X[0]), D.eq(v['cy'], X[1])))); s.add(c_not(c_and(D.eq(v['cx'], X[2]), D.eq(v['cy'], X[3]))))
            s.ghost['a'] = a; s.ghost['b'] = bb; s.ghost['x'] = X; s.ghost['k'] = v['k']; s.ghost['rev'] = re_
            W = dict(n=64, nn=64, en=64, s=32, cx=b, cy=b, at=8, pt=8, q=64, qn=64, qe=64)
            args = [Ptr(rp, 0), Ptr(rn, 0), Ptr(re_, 0)] + [IV(v[k], W[k]) for k in ('n', 'nn', 'en')] + [IV(cap, 64)] + [IV(v[k], W[k]) for k in 's cx cy at pt q qn qe'.split()] + [Ptr(ro, 0)]
            out = ex.run('sp%d' % b, args, s); R.finals(out)
            for f in out:
                o = [ex.load_at(f, ro, 8*i, ty_int(64)) for i in range(NO)]; o = [P(-7) if isinstance(x, Undef) else D.s(x) for x in o]
                ex.oblige_all(f, post_split(D, v, o))
                er, ini = f.ghost.get('er', ()), f.ghost.get('in', ())
                if at == 0:
                    ex.oblige(f, 'the line leaves the sweep once, before it changes', len(er) == 1 and D.eq(er[0], v['s']))
                    ex.oblige(f, 'its node is reset after it left the sweep', len(ini) == 2 and c_and(ini[0] == 1, D.eq(ini[1], v['s'])))
                else: ex.oblige(f, 'the sweep is not touched', not er and not ini)
    def conc(lib, inp):
        xy, s, cx, cy, q, qn, qe = inp; ct = ctypes.c_int32 if b == 32 else ctypes.c_int64
        o = (ctypes.c_int64*NO)(*([-5]*NO)); f = getattr(lib, 'rsp%d' % b); f.restype = ctypes.c_int
        if not f((ct*len(xy))(*xy), ctypes.c_size_t(len(xy)//2), ctypes.c_uint32(s), ct(cx), ct(cy), ctypes.c_int8(at), ctypes.c_uint8(pt), ctypes.c_size_t(q), ctypes.c_size_t(qn), ctypes.c_size_t(qe), o): return None
        v = dict(s=s, cx=cx, cy=cy, at=at, pt=pt, n=o[100], nn=o[101], en=o[102], q=o[103], qe=o[104], k=o[99])
        items = post_split(PY, v, list(o)) + ([('the line leaves the sweep', o[106] == 1)] if at == 0 else [])
        for nm, c in items:
            if not c: return {'failure': 'split_segment of line %d of the loop %s at (%d,%d), at_edge %d: %s violated, outputs %s' % (s, xy, cx, cy, at, nm, list(o))}
    def gen(rng, cnt):
        for _ in range(cnt):
            g = lambda: rng.randint(0, 3)
            yield [[g() for _ in range(2*rng.randint(3, 6))], rng.randint(0, 9), g(), g(), rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 19)]
    return Task('split%d_%d%d' % (b, at+1, pt), u, prove, conc, gen, ['clipper<int%d>::split_segment' % b, 'clipper::add_fb_events', 'events_t::add_fb_events', 'events_t::add_event', 'segment_common::a_is_main'], 'int', n_quick=3000)

def post_anchor(D, v, o):
    has = D.ge(o[30], 16); z = lambda c: imp(c_not(has), c); eqs = lambda xs, ys: c_and(*[D.eq(x, y) for x, y in zip(xs, ys)])
    I = o[5:10]
    return [('an anchor already after the point is returned', imp(has, c_and(D.eq(o[0], I[2]), D.eq(o[1], v['n']), D.eq(o[2], 0), eqs(o[10:15], I)))),
            ('otherwise one point is added after it', z(c_and(D.eq(o[0], v['n']), D.eq(o[1], v['n'] + 1), D.eq(o[12], v['n']), D.eq(o[17], I[2])))),
            ('the anchor is a copy of the point, marked', z(c_and(D.eq(o[15], I[0]), D.eq(o[16], I[1]), D.eq(o[18], I[3]), D.eq(o[19], 20)))),
            ('the point keeps everything but its successor', c_and(*[D.eq(o[10+i], I[i]) for i in (0, 1, 3, 4)])),
            ('the tracker hears of it between the point and its old successor', imp(D.ne(v['pt'], 0), z(c_and(D.eq(o[2], 1), D.eq(o[3], v['i']), D.eq(o[4], I[2]))))),
            ('other points do not change', imp(D.ne(v['q'], v['i']), eqs(o[25:30], o[20:25])))]
def anchor_task(u, b, pt):
    M = 1 << 28; NO = 31
    def prove(R):
        ex, D = R.new('int'); st = ex.new_state(); cap = D.atom('cap', 0, M); rp = new_arr(ex, st, 'points', LPF[b][1], LPF[b][0], cap)
        v = {k: D.atom(k, 0, M) for k in 'n i q'.split()}; v['pt'] = P(pt)
        st.add(D.lt(v['n'], cap)); st.add(D.lt(v['i'], v['n'])); st.add(D.lt(v['q'], v['n']))
        ro = ex.new_region(st, 'o', 8*NO)
        for i in range(NO): ex.put(st, ro, 8*i, 8, IV(P(-5), 64))
        for s, E in elem(ex, st, rp, v['i']):
            s.add(D.lt(D.u(E[NX[b]]), v['n'])); s.add(D.ne(D.u(E[NX[b]]), v['i']))
            out = ex.run('an%d' % b, [Ptr(rp, 0), IV(v['n'], 64), IV(cap, 64), IV(v['i'], 32), IV(P(pt), 8), IV(v['q'], 64), Ptr(ro, 0)], s); R.finals(out)
            for f in out:
                o = [ex.load_at(f, ro, 8*i, ty_int(64)) for i in range(NO)]; ex.oblige_all(f, post_anchor(D, v, [P(-7) if isinstance(x, Undef) else D.s(x) for x in o]))
    def conc(lib, inp):
        import struct
        pts, i, q = inp; n = len(pts); buf = (ctypes.c_char*(LPF[b][1]*(n+2)))(); fm = {32: '<iiIiBxxx', 64: '<qqIiBxxxxxxx'}[b]
        for j, t in enumerate(pts): struct.pack_into(fm, buf, j*LPF[b][1], *t)
        o = (ctypes.c_int64*NO)(*([-5]*NO)); f = getattr(lib, 'an%d' % b); f.restype = None
        f(buf, ctypes.c_size_t(n), ctypes.c_size_t(n+2), ctypes.c_uint32(i), ctypes.c_uint8(pt), ctypes.c_size_t(q), o)
        for nm, c in post_anchor(PY, dict(n=n, i=i, q=q, pt=pt), list(o)):
            if not c: return {'failure': 'insert_anchor_point(%d) on points %s: %s violated, outputs %s' % (i, pts, nm, list(o))}
    def gen(rng, cnt):
        for _ in range(cnt):
            n = rng.randint(2, 5); g = lambda: rng.randint(0, 3)
            yield [[(g(), g(), (j + 1 + rng.randint(0, n-2)) % n, g() % 2, rng.choice([0, 1, 2, 3, 4, 20, 16])) for j in range(n)], rng.randint(0, n-1), rng.randint(0, n-1)]
    return Task('anchor%d_%d' % (b, pt), u, prove, conc, gen, ['clipper<int%d>::insert_anchor_point' % b], 'int', n_quick=3000)

def cross_task(u, b):
    M = 1 << 28; H = 1 << b-1; NO = 15
    def prove(R):
        def c_int(ex, st, f, args, ins):
            d = ex.d; out = []
            # contract of intersects (B02): any crossing point and edge flags, both or none of them "both"
            for hit, s in ex.fork(st, d.eq(d.atom('hit', 0, 1), 1)):
                if not hit: out.append((s, False)); s.ghost['hit'] = 0; continue
                x, y, e0, e1 = d.atom('ix', -H, H-1), d.atom('iy', -H, H-1), d.atom('e0', -1, 2), d.atom('e1', -1, 2)
                s.add(iff(d.eq(e0, 2), d.eq(e1, 2)))
                for i, z in enumerate((x, y)): ex.put(s, args[2].r, (ex.offc(args[2].off) or 0) + i*b//8, b//8, IV(z, b))
                sp = args[3]
                for i, z in enumerate((e0, e1)): ex.put(s, sp.r, (ex.offc(sp.off) or 0) + 4*i, 4, IV(z, 32))
                s.ghost['hit'] = 1; s.ghost['e'] = (e0, e1); s.ghost['i'] = (x, y)
                out.append((s, True))
            return out
        def c_split(ex, st, f, args, ins):
            # contract of split_segment (this property): an end, or a new point
            d = ex.d; s_, pp, e = d.u(args[2]), args[3], d.s(args[4])
            px, py = (d.s(ex.load_at(st, pp.r, (ex.offc(pp.off) or 0) + i*b//8, ty_int(b))) for i in (0, 1))
            i = len(st.ghost.get('sp', ())); r = d.atom('r%d' % i, 0, M)
            st.add(d.lt(r, cap)); st.ghost['sp'] = st.ghost.get('sp', ()) + ((s_, px, py, e, r),)
            return [(st, IV(r, 32))]
        ex, D = R.new('int', contracts=[(re.compile(r'bool poly_ops::detail::intersects<'), c_int), (re.compile(r'clipper<.*::split_segment\('), c_split)])
        st = ex.new_state(); cap = D.atom('cap', 1, M)
        rp, rn = new_arr(ex, st, 'points', LPF[b][1], LPF[b][0], cap), new_arr(ex, st, 'nodes', SNF[b][1], SNF[b][0], cap)
        v = {k: D.atom(k, 0, M) for k in 'n nn s1 s2 q'.split()}
        st.add(D.le(v['n'], cap)); st.add(D.le(v['nn'], cap)); st.add(D.ne(v['s1'], v['s2']))
        for x, m in (('s1', 'nn'), ('s2', 'nn'), ('q', 'n')): st.add(D.lt(v[x], v[m]))
        ro = ex.new_region(st, 'o', 8*NO)
        for i in range(NO): ex.put(st, ro, 8*i, 8, IV(P(-5), 64))
        for k in ('s1', 's2'):
            st, N = one(elem(ex, st, rn, v[k])); st.add(D.lt(D.u(N[VA]), v['n'])); st.add(D.lt(D.u(N[VA+4]), v['n']))
        out = ex.run('ci%d' % b, [Ptr(rp, 0), Ptr(rn, 0), IV(v['n'], 64), IV(v['nn'], 64), IV(cap, 64), IV(v['s1'], 32), IV(v['s2'], 32), IV(v['q'], 64), Ptr(ro, 0)], st); R.finals(out)
        for f in out:
            o = [D.s(ex.load_at(f, ro, 8*i, ty_int(64))) for i in range(NO)]; hit = f.ghost['hit']; sp = f.ghost.get('sp', ())
            same = c_and(*[D.eq(o[10+i], o[5+i]) for i in range(5)]); chk = c_and(*[D.eq(o[10+i], o[5+i]) for i in range(4)], D.eq(o[14], 8))
            if not hit: ex.oblige_all(f, [('without a crossing nothing changes', c_and(same, D.eq(o[0], 0), not sp))]); continue
            e0, e1 = f.ghost['e']; anyno = c_or(D.eq(e0, 0), D.eq(e1, 0))
            if len(sp) == 2:
                (a1, x1, y1, f1, r1), (a2, x2, y2, f2, r2) = sp
                mk = c_or(D.eq(v['q'], r1), D.eq(v['q'], r2))
                ex.oblige_all(f, [('both lines are split at the crossing, each by its own flag', c_and(D.eq(a1, v['s1']), D.eq(a2, v['s2']), D.eq(f1, e0), D.eq(f2, e1), *[D.eq(x, y) for x, y in ((x1, f.ghost['i'][0]), (x2, f.ghost['i'][0]), (y1, f.ghost['i'][1]), (y2, f.ghost['i'][1]))])),
                    ('split exactly when a line is crossed inside, and reported', c_and(anyno, D.eq(o[0], 1))), ('both crossing points are marked for checking, no others change', c_and(imp(mk, chk), imp(c_not(mk), same)))])
            else:
                a1, b1, a2, b2 = o[1:5]; q = v['q']
                mk = c_or(c_and(D.eq(e0, 2), c_or(*[D.eq(q, x) for x in (a1, b1, a2, b2)])), c_and(D.ne(e0, 2), c_or(c_and(D.eq(e0, -1), D.eq(q, a1)), c_and(D.eq(e0, 1), D.eq(q, b1)), c_and(D.eq(e1, -1), D.eq(q, a2)), c_and(D.eq(e1, 1), D.eq(q, b2)))))
                ex.oblige_all(f, [('not split only when the lines touch at ends', c_and(len(sp) == 0, c_not(anyno), D.eq(o[0], 0))), ('exactly the touching ends are marked for checking', c_and(imp(mk, chk), imp(c_not(mk), same)))])
    def conc(lib, inp):
        xy, s1, s2 = inp; ct = ctypes.c_int32 if b == 32 else ctypes.c_int64; o = (ctypes.c_int64*2)(); f = getattr(lib, 'rci%d' % b); f.restype = ctypes.c_int
        if not f((ct*len(xy))(*xy), ctypes.c_size_t(len(xy)//2), ctypes.c_uint32(s1), ctypes.c_uint32(s2), o): return None
        if o[0]: return {'failure': 'check_intersection of lines %d and %d of the loop %s: %s' % (s1, s2, xy, ', '.join(t for i, t in enumerate(('wrong result', 'wrong number of points', 'new point not at the crossing', 'wrong points marked for checking')) if o[0] >> i & 1))}
    def gen(rng, cnt):
        for _ in range(cnt):
            g = lambda: rng.randint(0, 3); yield [[g() for _ in range(2*rng.randint(3, 6))], rng.randint(0, 9), rng.randint(0, 9)]
    return Task('cross%d' % b, u, prove, conc, gen, ['clipper<int%d>::check_intersection' % b], 'int', n_quick=5000)
def check():
    src = HEAD + SRC + src_for(32, 'int') + src_for(64, 'i64'); u = Unit('B07', src, extra=('-fno-strict-aliasing',))
    main('B07', [u], lambda: [split_task(u, b, at, pt) for b in (32, 64) for at in (0, -1, 1) for pt in (0, 1)] + [anchor_task(u, b, pt) for b in (32, 64) for pt in (0, 1)] + [cross_task(u, b) for b in (32, 64)],
        assumptions=['the vectors have room (growth of std::vector keeps the elements)', 'at most 2^28 points, nodes and events'], trusted=['layout of std::vector', 'contracts of sweep_set::erase, init_node and events_t::find (binary search of a sorted array)'])
