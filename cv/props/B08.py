"""B08: following a line balance along a loop: every point up to the next crossing gets the state, is kept, reversed or merged away; the break lists are right."""
from geo import *
from B03 import imp, iff
from B07 import LPF, NX, XY, ST, BS, one
from cut import AutoCut
SRC = '''
#include <new>
struct FV { void *res; char *b, *e, *c; };
template<class V,class T> static inline void setv(V &v,T *p,std::size_t n,std::size_t cap) { FV f{nullptr,reinterpret_cast<char*>(p),reinterpret_cast<char*>(p+n),reinterpret_cast<char*>(p+cap)}; static_assert(sizeof(f) == sizeof(V)); __builtin_memcpy(reinterpret_cast<void*>(&v),&f,sizeof(f)); }
void merge_call(unsigned from,unsigned to); void list_places(void *ends,void *orphans) {}
struct Rec : i_point_tracker<unsigned> { void new_point_between(unsigned,unsigned) override { merge_call(~0u,~0u); } void point_merge(unsigned a,unsigned b) override { merge_call(a,b); } void point_added(unsigned) override { merge_call(~0u,~0u); } void reset() override { merge_call(~0u,~0u); } };
static std::vector<unsigned> merges; void merge_call(unsigned a,unsigned b) { merges.push_back(a); merges.push_back(b); }
'''
def src_for(b, c):
    return '''
namespace n{b} {{ typedef loop_point<unsigned,{c}> LP; typedef breaks_t<unsigned,{c}> BR; static inline void rd(const LP &p,i64 *o) {{ o[0] = p.data[0]; o[1] = p.data[1]; o[2] = p.next; o[3] = i64(p.bset()); o[4] = i64(p.state()); }} }}
extern "C" void fb{b}(n{b}::LP *p,std::size_t n,unsigned intr,unsigned char pt) {{ using namespace n{b};
  alignas(16) char vb[sizeof(std::pmr::vector<LP>)]; auto &v = reinterpret_cast<std::pmr::vector<LP>&>(vb); alignas(16) char bb[sizeof(BR)]; BR &br = reinterpret_cast<BR&>(bb); Rec r; setv(v,p,n,n); list_places(&br.broken_ends,&br.orphans);
  follow_balance<unsigned,{c}>(v,intr,br,pt ? &r : nullptr); }}
// replay on real containers; o: 5 numbers a point, then the four break lists as counted sequences, then the merges
extern "C" int rfb{b}(const i64 *in,std::size_t n,unsigned intr,unsigned char pt,i64 *o) {{ using namespace n{b};
  std::pmr::vector<LP> v; for(std::size_t i=0; i<n; ++i) {{ v.emplace_back(point_t<{c}>{{{c}(in[5*i]),{c}(in[5*i+1])}},unsigned(in[5*i+2]),bool_set(in[5*i+3])); v.back().state() = line_state::type(in[5*i+4]); }}
  BR br(std::pmr::get_default_resource(),std::pmr::get_default_resource()); Rec r; merges.clear(); follow_balance<unsigned,{c}>(v,intr,br,pt ? &r : nullptr);
  i64 *q = o; for(auto &x : v) {{ rd(x,q); q += 5; }}
  i64 *z = q++; *z = 0; for(auto &[k,l] : br.broken_starts) for(auto i : l) {{ ++*z; *q++ = k[0]; *q++ = k[1]; *q++ = i; }}
  z = q++; *z = 0; for(auto i : br.broken_ends) {{ ++*z; *q++ = i; }}
  z = q++; *z = 0; for(auto &[k,l] : br.virtual_points) for(auto &i : l) {{ ++*z; *q++ = k[0]; *q++ = k[1]; *q++ = i.next; *q++ = i.keep; *q++ = i.next_is_end; }}
  z = q++; *z = 0; for(auto i : br.orphans) {{ ++*z; *q++ = i; }}
  z = q++; *z = i64(merges.size()); for(auto i : merges) *q++ = i;
  return int(q-o); }}
'''.format(b=b, c=c)
KEEP, REV = 1, 2
class Inv:
    """at the head of the loop: prev and next are points, prev is intr or not a crossing; the point intr is as it was. What one iteration does is required on the way back."""
    def __init__(self, T): self.T = T
    def val(self, ex, st, fr, k): return ex.d.u(ex.unundef(fr.env[k[1]] if k[0] == 'phi' else st.mem[k[1]].cells[k[2]][1]))
    def el(self, ex, st, k):
        s, e = one(elem(ex, st, self.T.rp, k)); assert s is st
        return self.T.fields(ex.d, e)
    def havoc(self, ex, st, fr, m):
        T = self.T; d = ex.d; kp = kn = None
        for k, o, n in m.vals:
            if not isinstance(o, IV) or not isinstance(n, IV): continue
            op = d.u(o)
            if (op - T.intr).const() == 0 and kp is None: kp = k
            elif (op - T.next0).const() == 0 and kn is None: kn = k
        st.ghost['keys'] = (kp, kn); st.ghost['ev'] = ()
        if kp is None or kn is None: return
        p, n = self.val(ex, st, fr, kp), self.val(ex, st, fr, kn)
        st.add(d.ge(p, 0)); st.add(d.lt(p, T.n)); st.add(d.ge(n, 0)); st.add(d.lt(n, T.n))
        I = self.el(ex, st, T.intr)
        for x, y in zip(I, T.I): st.add(d.eq(x, y))
        N = self.el(ex, st, n); NN = self.el(ex, st, N[2]); Q = self.el(ex, st, T.q)
        st.ghost['h'] = (p, n, N, NN, Q)
    def facts(self, ex, st, fr, m):
        d = ex.d; T = self.T; g = st.ghost
        if m is None: return []
        kp, kn = g.get('keys', (None, None))
        if kp is None or kn is None: return []
        p, n = self.val(ex, st, fr, kp), self.val(ex, st, fr, kn); out = []
        p0, n0, N, NN, Q = g['h']
        if p is p0 or (p - p0).const() == 0: return out          # the assumption itself
        # an iteration is over
        at = lambda k: T.rd(ex, st, k)
        I2 = at(T.intr); N2 = at(n0); Q2 = at(T.q); s = T.state
        anchor = d.pite(d.ge(N[4], 16), 16, 0)
        out += [('prev is the point handled, next its old successor', c_and(d.eq(p, n0), d.eq(n, N[2]))), ('next is a point', c_and(d.ge(n, 0), d.lt(n, T.n))),
                ('the crossing point is as it was', c_and(*[d.eq(x, y) for x, y in zip(I2, T.I)])),
                ('the point handled is not a crossing', c_or(d.eq(N[4], 4), d.eq(N[4], 20))),
                ('the point takes the state of the crossing, and stays an anchor', d.eq(N2[4], s + anchor)), ('its set does not change', d.eq(N2[3], N[3]))]
        rv = s == KEEP | REV
        out += [('a point of a kept reversed line is linked to the point before, others keep their link', d.eq(N2[2], p0 if rv else N[2])),
                ('only anchors of kept reversed lines move, to the point after', c_and(*[d.eq(N2[i], d.pite(d.ge(N[4], 16), NN[i], N[i]) if rv else N[i]) for i in (0, 1)]))]
        ev = g['ev']
        if T.pt and not s & KEEP: out.append(('a discarded point is merged once, toward the end that may stay', len(ev) == 1 and (c_and(d.eq(ev[0][1], n0), d.eq(ev[0][2], T.intr)) if s & REV else c_and(d.eq(ev[0][1], p0), d.eq(ev[0][2], n0)))))
        else: out.append(('nothing is merged, no list changes', not ev))
        if ev and any(e[0] != 'merge' for e in ev): out.append(('no list changes inside the line', False))
        out.append(('no other point changes', imp(d.ne(T.q, n0), c_and(*[d.eq(x, y) for x, y in zip(Q2, Q)]))))
        return out
def fb_task(u, b, state, pt):
    M = 1 << 28
    class T: pass
    T = T(); T.state = state; T.pt = pt; nm = 'follow%d_%d%d' % (b, state, pt)
    T.fields = lambda d, e: [d.s(e[XY[b][0]]), d.s(e[XY[b][1]]), d.u(e[NX[b]]), d.u(e[BS[b]]), d.u(e[ST[b]])]
    def prove(R):
        def rd(ex, st, k):
            """the fields of a point now, of all ways to find it in the array"""
            d = ex.d; rs = elem(ex, st.copy(), T.rp, k); vals = []
            nb = len(st.facts)
            if len(rs) == 1:
                for c in rs[0][0].facts[nb:]: st.add(c)
                return T.fields(d, rs[0][1])
            out = [d.atom('rd', -(1 << 70), 1 << 70) for _ in range(5)]; alt = []
            for s, e in rs: alt.append(c_and(*s.facts[nb:], *[d.eq(x, y) for x, y in zip(out, T.fields(d, e))]))
            st.add(c_or(*alt)); return out
        T.rd = rd
        def key(ex, st, p):
            if not isinstance(p, Ptr): raise ExecError('map key')
            r = []
            for o in XY[b]:
                off = (p.off.p if isinstance(p.off, IV) else P(p.off)) + o
                x = ex.load(st, Ptr(p.r, IV(off, 64)), ty_int(8*(b//8)), 'key')
                if len(x) != 1 or x[0][0] is not st: raise ExecError('key read splits')
                r.append(ex.d.s(x[0][1]))
            return tuple(r)
        def ref(ex, st, p, n=4): return ex.d.u(ex.load_at(st, p.r, ex.offc(p.off) or 0, ty_int(8*n)))
        def keyed(kind):
            def f(ex, st, fn, args, ins):
                # operator[]: a reference to the list of this key; the read of the key may split on the point it belongs to
                p = args[1]; out = []
                if st.mem[p.r].arr is not None:
                    off = p.off.p if isinstance(p.off, IV) else P(p.off)
                    for s1, x in ex.load(st, Ptr(p.r, IV(off + XY[b][0], 64)), ty_int(b), 'key'):
                        for s2, y in ex.load(s1, Ptr(p.r, IV(off + XY[b][1], 64)), ty_int(b), 'key'):
                            r = ex.new_region(s2, 'list', 64); s2.ghost[('list', r)] = (kind, ex.d.s(x), ex.d.s(y)); out.append((s2, Ptr(r, 0)))
                    return out
                x, y = (ex.d.s(ex.load_at(st, p.r, (ex.offc(p.off) or 0) + o, ty_int(b))) for o in XY[b])
                r = ex.new_region(st, 'list', 64); st.ghost[('list', r)] = (kind, x, y); return [(st, Ptr(r, 0))]
            return f
        def vpush(ex, st, fn, args, ins):
            p = args[0]; o = ex.offc(p.off) or 0
            w = st.ghost.get(('list', p.r)) or st.ghost['brk'].get((p.r, o))
            if w is None: raise ExecError('push_back to an unknown vector')
            out = []
            a = args[1]
            if st.mem[a.r].arr is not None: vals = [(s, ex.d.u(x)) for s, x in ex.load(st, a, ty_int(32), 'pushed value')]
            else: vals = [(st, ref(ex, st, a))]
            for s, x in vals:
                s.ghost['ev'] = s.ghost.get('ev', ()) + (('push', w, x),); out.append((s, None))
            return out
        def vemp(ex, st, fn, args, ins):
            p = args[0]; w = st.ghost.get(('list', p.r)); bl = []
            if w is None: raise ExecError('emplace_back to an unknown list')
            for a in args[2:4]:
                v = ex.load_at(st, a.r, ex.offc(a.off) or 0, ty_int(8)) if isinstance(a, Ptr) else a
                bl.append(ex.d.u(v) if isinstance(v, IV) else ex.d.pite(v, 1, 0))
            st.ghost['ev'] = st.ghost.get('ev', ()) + (('virt', w, ref(ex, st, args[1]), *bl),)
            return [(st, Undef(ins.t))]
        def places(ex, st, fn, args, ins):
            st.ghost['brk'] = {(a.r, ex.offc(a.off) or 0): w for a, w in zip(args, ('ends', 'orphans'))}; return [(st, None)]
        def mcall(ex, st, fn, args, ins):
            st.ghost['ev'] = st.ghost.get('ev', ()) + (('merge', ex.d.u(args[0]), ex.d.u(args[1])),); return [(st, None)]
        inv = Inv(T)
        ex, D = R.new('int', contracts=[(re.compile(r'std::map<.*vector<unsigned int.*>::operator\[\]'), keyed('starts')), (re.compile(r'std::map<.*virt_point.*>::operator\[\]'), keyed('virtual')),
            (re.compile(r'std::vector<unsigned int,.*>::push_back\('), vpush), (re.compile(r'std::vector<poly_ops::detail::virt_point<.*::emplace_back<'), vemp), (re.compile(r'^merge_call\('), mcall), (re.compile(r'^list_places\('), places)], cuts=[AutoCut(r'follow_balance<', inv)])
        st = ex.new_state(); T.n = n = D.atom('n', 1, M); T.intr = D.atom('intr', 0, M); T.q = D.atom('q', 0, M); st.add(D.lt(T.intr, n)); st.add(D.lt(T.q, n))
        def known(ex2, s, k, ini):
            s.add(D.lt(D.u(ini[NX[b]]), n)); t = D.u(ini[ST[b]]); s.add(c_or(D.le(t, 4), c_and(D.ge(t, 16), D.le(t, 20))))
        T.rp = new_arr(ex, st, 'points', LPF[b][1], LPF[b][0], n, known)
        s, I = one(elem(ex, st, T.rp, T.intr)); T.I = T.fields(D, I); st.add(D.eq(T.I[4], state)); T.next0 = T.I[2]
        st.ghost['ev'] = ()
        out = ex.run('fb%d' % b, [Ptr(T.rp, 0), IV(n, 64), IV(T.intr, 32), IV(P(pt), 8)], st); R.finals(out)
        for f in out:
            if 'h' not in f.ghost: ex.oblige(f, 'the loop is reached', False); continue
            p, nx, N, NN, Q = f.ghost['h']; ev = f.ghost['ev']; I = T.I; Q2 = rd(ex, f, T.q)
            items = [('the loop ends at a crossing', c_not(c_or(D.eq(N[4], 4), D.eq(N[4], 20)))), ('ending changes no point', c_and(*[D.eq(x, y) for x, y in zip(Q2, Q)]))]
            if state == 0: items.append(('a discarded line is merged into its end', (len(ev) == 1 and c_and(ev[0][0] == 'merge', D.eq(ev[0][1], p), D.eq(ev[0][2], nx))) if pt else not ev))
            elif state == 1:
                a = [e for e in ev if e[0] == 'push' and e[1][0] == 'starts']; z = [e for e in ev if e[0] == 'push' and e[1] == 'ends']
                items.append(('a kept line is recorded once as a start at its place and once as an end', len(ev) == 2 and len(a) == 1 and len(z) == 1 and c_and(D.eq(a[0][1][1], I[0]), D.eq(a[0][1][2], I[1]), D.eq(a[0][2], T.intr), D.eq(z[0][2], p))))
            else:
                a = [e for e in ev if e[0] == 'push' and e[1] == 'orphans']; z = [e for e in ev if e[0] == 'push' and e[1] == 'ends']; w = [e for e in ev if e[0] == 'virt']
                self_ = D.eq(p, T.intr); kr = state == 3
                items.append(('the start of a reversed line is an orphan', len(a) == 1 and D.eq(a[0][2], T.intr)))
                items.append(('its missing start is recorded at the place of its end', len(w) == 1 and c_and(w[0][1][0] == 'virtual', D.eq(w[0][1][1], N[0]), D.eq(w[0][1][2], N[1]), D.eq(w[0][2], p), D.eq(w[0][3], 1 if kr else 0), iff(D.eq(w[0][4], 1), c_and(kr, self_)))))
                if kr: items.append(('its new end is the point after the crossing, unless it has no other point', c_and(imp(self_, not z), imp(c_not(self_), len(z) == 1 and D.eq(z[0][2], rd(ex, f, T.intr)[2]))))); items.append(('no other entry', len(ev) == 2 + len(z)))
                else: items.append(('no other entry', len(ev) == 2))
            ex.oblige_all(f, items)
    def conc(lib, inp):
        pts, intr = inp; n = len(pts); fl = [x for p in pts for x in p]; N = 5*n + 200
        a = (ctypes.c_int64*len(fl))(*fl); o = (ctypes.c_int64*N)(); f = getattr(lib, 'rfb%d' % b); f.restype = ctypes.c_int
        f(a, ctypes.c_size_t(n), ctypes.c_uint32(intr), ctypes.c_uint8(pt), o)
        # the same by the specification
        w = [list(p) for p in pts]; prev = intr; nx = pts[intr][2]; mg = []
        while w[nx][4] in (4, 20):
            nn = w[nx][2]; old = list(w[nx]); w[nx][4] = state | (old[4] & 16)
            if not state & 1: mg += ([nx, intr] if state & 2 else [prev, nx])
            elif state & 2:
                if old[4] & 16: w[nx][0:2] = w[nn][0:2]
                w[nx][2] = prev
            prev, nx = nx, nn
        bs, be, vp, orp = [], [], [], []
        if state == 0: mg += [prev, nx]
        elif state == 1: bs = [w[intr][0], w[intr][1], intr]; be = [prev]
        else:
            orp = [intr]; nie = 0
            if state == 3:
                if prev == intr: nie = 1
                else: be = [w[intr][2]]
            vp = [w[nx][0], w[nx][1], prev, int(state == 3), nie]
        exp = [x for p in w for x in p] + [len(bs)//3, *bs, len(be), *be, len(vp)//5, *vp, len(orp), *orp] + ([len(mg), *mg] if pt else [0])
        if list(o)[:len(exp)] != exp: return {'failure': 'follow_balance from point %d of %s (x, y, next, set, state): got %s, expected %s' % (intr, pts, list(o)[:len(exp)], exp)}
    def gen(rng, cnt):
        for _ in range(cnt):
            n = rng.randint(1, 6); g = lambda: rng.randint(0, 3); intr = rng.randint(0, n-1); pm = list(range(n)); rng.shuffle(pm); nxt = {pm[i]: pm[(i+1) % n] for i in range(n)}
            pts = [[g(), g(), nxt[i], g() % 2, rng.choice([4, 4, 4, 20, 1, 3])] for i in range(n)]; pts[intr][4] = state
            yield [pts, intr]
    return Task(nm, u, prove, conc, gen, ['detail::follow_balance<unsigned,int%d>' % b, 'loop_point::has_line_bal'], 'int', n_quick=3000)
def check():
    src = HEAD + SRC + src_for(32, 'int') + src_for(64, 'i64'); u = Unit('B08', src, extra=('-fno-strict-aliasing',))
    main('B08', [u], lambda: [fb_task(u, b, s, p) for b in (32, 64) for s in range(4) for p in (0, 1)],
        assumptions=['at most 2^28 points', 'every point is linked to a point; no point is still marked for checking (asserted by the code)'], trusted=['std::map::operator[], std::vector::push_back/emplace_back', 'layout of std::vector'])
