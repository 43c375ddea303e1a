"""B03: the vertical ray test and the line balance (which lines are kept by which operation)."""
from geo import *
def imp(a, b): return c_or(c_not(a), b)
def iff(a, b): return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))

def ray(D, ax, ay, bx, by, px, py, h, dx, dy, tie):
    """does the upward ray from p, displaced infinitesimally along (dx,dy), cross the segment a-b (ax <= bx)? tie decides for coincident lines.
    h: the sign of the horizontal displacement"""
    inr = c_and(c_or(D.lt(ax, px), c_and(D.eq(ax, px), D.ge(h, 0))), c_or(D.lt(px, bx), c_and(D.eq(px, bx), D.le(h, 0))))
    c = (bx-ax)*(py-ay) - (by-ay)*(px-ax)       # > 0: the line passes above p
    s = (bx-ax)*dy - (by-ay)*dx                 # > 0: p moves below the line
    gen = c_and(inr, c_or(D.gt(c, 0), c_and(D.eq(c, 0), c_or(D.gt(s, 0), c_and(D.eq(s, 0), tie)))))
    vert = c_and(tie, D.eq(dx, 0), iff(D.gt(dy, 0), D.gt(by-ay, 0)), D.eq(py, ay))
    v = D.eq(ax, bx)
    return c_or(c_and(v, vert), c_and(c_not(v), gen))
RP = 'ax ay bx by px py'
def tr(D, x): return D.ne(x, 0)
def rp(b): return coords(RP, b) + [Par('h', b, -(1 << b-2), (1 << b-2))]

def pos(b): return coords('ax ay bx by px py qx qy', b)
def lb_pre(D, v):
    return [D.le(v.ax, v.bx), c_or(D.ne(v.ax, v.bx), D.ne(v.ay, v.by)), c_or(D.ne(v.px, v.qx), D.ne(v.py, v.qy))]
def hs(D, dx, dy): return D.pite(D.ne(dx, 0), dx, dy)

UNION, INTER, XOR, DIFF, NORM = range(5)
def keep_spec(D, op, own, ws, wc):
    """own: 0 subject, 1 clip; ws, wc: winding numbers of the two sets on the side of the line where its own set's is the lower
    -> conditions (kept, reversed): the line is kept when exactly one of its sides is inside the result, and reversed when that is the side with the lower winding number"""
    P_, T = (lambda x: D.gt(x, 0)), ws + wc
    if op == NORM: e = D.eq(D.modu(T, 2), 0); return True, c_not(e)
    if op == UNION: lo, hi = P_(T), P_(T+1)
    else:
        a, b = (ws, wc) if own == 0 else (wc, ws)
        F_ = {INTER: lambda s, c: c_and(s, c), XOR: lambda s, c: c_not(iff(s, c)), DIFF: lambda s, c: c_and(s, c_not(c))}[op]
        f = (lambda x: F_(P_(x), P_(b))) if own == 0 else (lambda x: F_(P_(b), P_(x)))
        lo, hi = f(a), f(a+1)
    keep = c_not(iff(lo, hi)); rev = c_and(keep, lo)
    if op == DIFF and own == 1: rev = D.eq(wc, 0)       # also the discarded lines at the clip boundary are turned round: their ends are needed
    return keep, rev

VP = r'^(unsigned int ?& ?)?std::vector<unsigned int, std::pmr::polymorphic_allocator<unsigned int> ?>::'
def vec_push(ex, st, f, args, ins):
    """push_back/emplace_back of a standard vector: appends the value"""
    x = args[1]
    v = ex.d.u(ex.unundef(ex.load_at(st, x.r, x.off, ty_int(32)))) if isinstance(x, Ptr) else ex.d.u(x)
    o = args[0].off; o = ex.offc(o)
    k = ('push', args[0].r, o); st.ghost[k] = st.ghost.get(k, []) + [v]
    if ex.m.res(f.ret).k == 'void': return [(st, None)]
    return [(st, Ptr(ex.new_region(st, 'back', 8), 0))]
PUSH = (re.compile(VP+r'(push_back|emplace_back)'), vec_push)

def check():
    src = HEAD
    for b, c in ((32, 'int'), (64, 'i64')):
        src += '''extern "C" bool ray{b}({c} ax,{c} ay,{c} bx,{c} by,{c} px,{c} py,{c} h,{c} dx,{c} dy,unsigned char tie) {{ return line_segment_up_ray_intersection<{c}>({{ax,ay}},{{bx,by}},{{px,py}},h,{{dx,dy}},tie != 0); }}
extern "C" int dray{b}({c} ax,{c} ay,{c} bx,{c} by,{c} px,{c} py,{c} h,{c} dx,{c} dy,unsigned char tie,{c} h2,{c} dx2,{c} dy2,unsigned char tie2) {{ auto [r,s] = dual_line_segment_up_ray_intersection<{c}>({{ax,ay}},{{bx,by}},{{px,py}},h,{{dx,dy}},tie != 0,h2,{{dx2,dy2}},tie2 != 0); return int(r) + 2*int(s); }}
extern "C" bool low{b}({c} dx,{c} dy,{c} ex,{c} ey,unsigned char tie) {{ return lower_angle<{c}>({{dx,dy}},{{ex,ey}},tie != 0); }}
extern "C" {c} hs{b}({c} dx,{c} dy) {{ return hsign_of<{c}>({{dx,dy}}); }}
'''.format(b=b, c=c)
    src += '''
template<class Tag,auto M> struct Rob { friend constexpr auto getp(Tag) { return M; } };
struct TW { friend constexpr auto getp(TW); }; template struct Rob<TW,&line_balance<unsigned,int>::wn>;
typedef loop_point<unsigned,int> LP;
std::pmr::vector<unsigned> tmpv[2];
'''
    # the point p1 at index P, its successor at P^1, the segment's ends at S, S^1 (other points for the second origin)
    for P_, S in ((0, 2), (2, 0)):
        for am in (0, 1):
            src += '''extern "C" void lbc%d%d(int ax,int ay,int bx,int by,int px,int py,int qx,int qy,unsigned char own,unsigned char oth,int *w0,int *w1,unsigned char *np,unsigned *pv) {
  LP pts[4]; unsigned a = %d, b = %d, p = %d, q = %d;
  pts[a] = LP({ax,ay},%s,bool_set(oth)); pts[b] = LP({bx,by},%s,bool_set(oth)); pts[p] = LP({px,py},q,bool_set(own)); pts[q] = LP({qx,qy},p,bool_set(own));
  tmpv[0].clear(); line_balance<unsigned,int> lb(pts,p,tmpv[0]); w0[0] = (lb.*getp(TW{}))[0]; w0[1] = (lb.*getp(TW{}))[1]; lb.check(segment<unsigned>(a,b)); w1[0] = (lb.*getp(TW{}))[0]; w1[1] = (lb.*getp(TW{}))[1];
  *np = (unsigned char)(tmpv[0].size()); *pv = tmpv[0].size() ? tmpv[0][0] : 0; }
''' % (S, am, S, S+1, P_, P_+1, 'b' if am else 'p', 'p' if am else 'a')
    src += '''extern "C" void lbself(int ax,int ay,int bx,int by,unsigned char own,unsigned char flip,int *w0,int *w1,unsigned char *np) {
  LP pts[2]; unsigned p = flip ? 1 : 0; pts[0] = LP({ax,ay},1,bool_set(own)); pts[1] = LP({bx,by},0,bool_set(own)); if(flip) pts[0].next = 7; else pts[1].next = 7;
  tmpv[0].clear(); line_balance<unsigned,int> lb(pts,p,tmpv[0]); w0[0] = (lb.*getp(TW{}))[0]; w0[1] = (lb.*getp(TW{}))[1]; lb.check(segment<unsigned>(0,1)); w1[0] = (lb.*getp(TW{}))[0]; w1[1] = (lb.*getp(TW{}))[1]; *np = (unsigned char)(tmpv[0].size()); }
extern "C" unsigned char lbr(int ws,int wc,unsigned char own,unsigned char op) {
  LP pts[2]; pts[0] = LP({0,0},1,bool_set(own)); pts[1] = LP({1,0},0,bool_set(own)); line_balance<unsigned,int> lb(pts,0,tmpv[0]); (lb.*getp(TW{}))[0] = ws; (lb.*getp(TW{}))[1] = wc; return lb.result(bool_op(op)); }
'''
    for i, (p1, p2, S) in enumerate(((0, 2, 4), (2, 4, 0), (4, 2, 0), (0, 4, 2))):
        for am in (0, 1):
            src += '''extern "C" void dlb%d%d(int ax,int ay,int bx,int by,int px,int py,int qx,int qy,int rx,int ry,int *w0,int *w1,unsigned char *n) {
  LP pts[6]; unsigned a = %d, b = %d, p1 = %d, p2 = %d;
  pts[a] = LP({ax,ay},%s,bool_set::subject); pts[b] = LP({bx,by},%s,bool_set::subject); pts[p1] = LP({px,py},p1+1,bool_set::subject); pts[p1+1] = LP({qx,qy},p1,bool_set::subject); pts[p2] = LP({px,py},p2+1,bool_set::subject); pts[p2+1] = LP({rx,ry},p2,bool_set::subject);
  tmpv[0].clear(); tmpv[1].clear(); dual_line_balance<unsigned,int> lb(pts,p1,p2,tmpv); auto [x,y] = lb.result(); w0[0]=x; w0[1]=y; lb.check(segment<unsigned>(a,b)); auto [z,w] = lb.result(); w1[0]=z; w1[1]=w; n[0] = (unsigned char)(tmpv[0].size()); n[1] = (unsigned char)(tmpv[1].size()); }
''' % (i, am, S, S+1, p1, p2, 'b' if am else '9', '9' if am else 'a')
    # the segment is the line at p1 or the line at p2 itself
    for w in (1, 2):
        for flip in (0, 1):
            src += '''extern "C" void dls%d%d(int px,int py,int qx,int qy,int rx,int ry,int *w0,int *w1,unsigned char *n) {
  LP pts[4]; unsigned p1 = %d, p2 = %d; pts[p1] = LP({px,py},p1+1,bool_set::subject); pts[p1+1] = LP({qx,qy},9,bool_set::subject); pts[p2] = LP({px,py},p2+1,bool_set::subject); pts[p2+1] = LP({rx,ry},9,bool_set::subject);
  unsigned m = %s, e = m+1; bool sw = pts[m].data[0] > pts[e].data[0]; segment<unsigned> s(sw ? e : m,sw ? m : e);
  tmpv[0].clear(); tmpv[1].clear(); dual_line_balance<unsigned,int> lb(pts,p1,p2,tmpv); auto [x,y] = lb.result(); w0[0]=x; w0[1]=y; lb.check(s); auto [z,ww] = lb.result(); w1[0]=z; w1[1]=ww; n[0] = (unsigned char)(tmpv[0].size()); n[1] = (unsigned char)(tmpv[1].size()); }
''' % (w, flip, 2*flip, 2-2*flip, 'p1' if w == 1 else 'p2')
    u = Unit('B03', src)
    def pushes(ex, f):
        ex_ = {}
        return f.ghost
    def tasks():
        out = []; B8 = Par('tie', 8, 0, 1, False)
        for b in (32, 64):
            D3 = coords('dx dy', b)
            out.append(fn_task(u, 'ray%d' % b, rp(b) + D3 + [B8], 'b', [], lambda D, v, r, o: [('equals the exact displaced ray test', iff(r, ray(D, v.ax, v.ay, v.bx, v.by, v.px, v.py, v.h, v.dx, v.dy, tr(D, v.tie))))],
                pre=lambda D, v: [D.le(v.ax, v.bx), D.ne(v.h, 0)], funcs=['line_segment_up_ray_intersection<int%d>' % b, 'vert_overlap', 'lower_angle']))
            P2 = rp(b) + D3 + [B8, Par('h2', b, -(1 << b-2), 1 << b-2)] + coords('dx2 dy2', b) + [Par('tie2', 8, 0, 1, False)]
            out.append(fn_task(u, 'dray%d' % b, P2, ('i', 32), [], lambda D, v, r, o: [
                ('first result', iff(c_or(D.eq(r, 1), D.eq(r, 3)), ray(D, v.ax, v.ay, v.bx, v.by, v.px, v.py, v.h, v.dx, v.dy, tr(D, v.tie)))),
                ('second result', iff(D.ge(r, 2), ray(D, v.ax, v.ay, v.bx, v.by, v.px, v.py, v.h2, v.dx2, v.dy2, tr(D, v.tie2))))],
                pre=lambda D, v: [D.le(v.ax, v.bx), D.ne(v.h, 0), D.ne(v.h2, 0)], funcs=['dual_line_segment_up_ray_intersection<int%d>' % b]))
            out.append(fn_task(u, 'low%d' % b, coords('dx dy ex ey', b) + [B8], 'b', [], lambda D, v, r, o: [('compares the exact cross product', iff(r, c_or(D.gt(v.dx*v.ey - v.dy*v.ex, 0), c_and(D.eq(v.dx*v.ey - v.dy*v.ex, 0), tr(D, v.tie)))))], funcs=['lower_angle<int%d>' % b]))
            out.append(fn_task(u, 'hs%d' % b, coords('dx dy', b), ('i', b), [], lambda D, v, r, o: [('horizontal direction, or vertical for vertical lines', D.eq(r, hs(D, v.dx, v.dy)))], pre=lambda D, v: [c_or(D.ne(v.dx, 0), D.ne(v.dy, 0))], funcs=['hsign_of<int%d>' % b]))
        VEC = [PUSH, (re.compile(VP+r'clear\(\)'), lambda ex, st, f, a, i: [(st, None)]), (re.compile(VP+r'size\(\)'), vsize), (re.compile(VP+r'operator\[\]'), vat)]
        def init(D, v): return D.pite(D.lt(v.qx - v.px, 0), -1, 0)
        for P_, S in ((0, 2), (2, 0)):
            for am in (0, 1):
                mi = S if am else S+1
                def post(D, v, r, o, mi=mi, am=am, P_=P_):
                    dx, dy = v.qx-v.px, v.qy-v.py
                    X = ray(D, v.ax, v.ay, v.bx, v.by, v.px, v.py, hs(D, dx, dy), dx, dy, mi > P_)
                    out = []
                    for k in (0, 1):
                        out += [('initial winding of set %d' % k, D.eq(o.w0[k], D.pite(D.eq(v.own, k), init(D, v), 0))),
                                ('a crossing line changes the winding of its own set by its direction (%d)' % k, D.eq(o.w1[k] - o.w0[k], D.pite(c_and(X, D.eq(v.oth, k)), 1 if am else -1, 0)))]
                    return out + [('crossing lines are recorded', iff(D.eq(o.np, 1), X)), ('the recorded index is the line', imp(X, D.eq(o.pv, mi))), ('recorded once', D.le(o.np, 1))]
                out.append(fn_task(u, 'lbc%d%d' % (S, am), pos(32) + [Par('own', 8, 0, 1, False), Par('oth', 8, 0, 1, False)], None, [('w0', 32, 2), ('w1', 32, 2), ('np', 8, 1), ('pv', 32, 1)], post, pre=lb_pre, contracts=VEC, funcs=['line_balance::line_balance', 'line_balance::check', 'line_delta', 'segment_common::a_is_main']))
        out.append(fn_task(u, 'lbself', coords('ax ay bx by', 32) + [Par('own', 8, 0, 1, False), Par('flip', 8, 0, 1, False)], None, [('w0', 32, 2), ('w1', 32, 2), ('np', 8, 1)],
            lambda D, v, r, o: [('a line does not cross its own ray', c_and(D.eq(o.w0[0], o.w1[0]), D.eq(o.w0[1], o.w1[1]), D.eq(o.np, 0)))], pre=lambda D, v: [D.le(v.ax, v.bx), c_or(D.ne(v.ax, v.bx), D.ne(v.ay, v.by))], contracts=VEC, funcs=['line_balance::check']))
        for op in range(5):
            for own in (0, 1):
                def post(D, v, r, o, op=op, own=own):
                    k, rv = keep_spec(D, op, own, v.ws, v.wc)
                    kept = c_or(D.eq(r, 1), D.eq(r, 3)); rev = c_or(D.eq(r, 2), D.eq(r, 3))
                    return [('state is keep/discard, possibly reversed', c_and(D.ge(r, 0), D.le(r, 3))), ('kept exactly when one side is inside the result', iff(kept, k)), ('reversed exactly when the inside changes sides', iff(rev, rv))]
                B = 1 << 29
                out.append(fn_task(u, 'lbr', [Par('ws', 32, -B, B), Par('wc', 32, -B, B), Par('own', 8, own, own, False), Par('op', 8, op, op, False)], ('u', 8), [], post, contracts=VEC, task='result_%d%d' % (op, own), funcs=['line_balance::result']))
        DP = coords('ax ay bx by px py qx qy rx ry', 32)
        def dpre(D, v): return lb_pre(D, v) + [c_or(D.ne(v.px, v.rx), D.ne(v.py, v.ry))]
        def dual(i, am, p1, p2, S):
            mi = S if am else S+1
            def post(D, v, r, o):
                out = []
                for k, (x, y, pi) in enumerate(((v.qx, v.qy, p1), (v.rx, v.ry, p2))):
                    dx, dy = x-v.px, y-v.py; X = ray(D, v.ax, v.ay, v.bx, v.by, v.px, v.py, hs(D, dx, dy), dx, dy, mi > pi)
                    out += [('initial balance %d' % k, D.eq(o.w0[k], D.pite(D.lt(dx, 0), -1, 0))), ('a crossing line changes balance %d by its direction' % k, D.eq(o.w1[k] - o.w0[k], D.pite(X, 1 if am else -1, 0))), ('crossings %d are recorded' % k, c_and(imp(X, D.eq(o.n[k], 1)), imp(c_not(X), D.eq(o.n[k], 0))))]
                return out
            return fn_task(u, 'dlb%d%d' % (i, am), DP, None, [('w0', 32, 2), ('w1', 32, 2), ('n', 8, 2)], post, pre=dpre, contracts=VEC, funcs=['dual_line_balance::check', 'dual_line_balance::result'])
        for i, (p1, p2, S) in enumerate(((0, 2, 4), (2, 4, 0), (4, 2, 0), (0, 4, 2))):
            for am in (0, 1): out.append(dual(i, am, p1, p2, S))
        def dself(w, flip):
            p1, p2 = 2*flip, 2-2*flip; mi = p1 if w == 1 else p2; ot = p2 if w == 1 else p1
            def post(D, v, r, o):
                mx, my, ex_, ey = (v.qx, v.qy, v.rx, v.ry) if w == 1 else (v.rx, v.ry, v.qx, v.qy); dx, dy = ex_-v.px, ey-v.py
                fw = D.le(v.px, mx)
                X = c_or(c_and(fw, ray(D, v.px, v.py, mx, my, v.px, v.py, hs(D, dx, dy), dx, dy, mi > ot)), c_and(c_not(fw), ray(D, mx, my, v.px, v.py, v.px, v.py, hs(D, dx, dy), dx, dy, mi > ot)))
                k = 1 if w == 1 else 0
                return [('own balance unchanged', c_and(D.eq(o.w1[1-k], o.w0[1-k]), D.eq(o.n[1-k], 0))), ('the other balance counts the line', D.eq(o.w1[k] - o.w0[k], D.pite(X, D.pite(fw, 1, -1), 0))), ('recorded', c_and(imp(X, D.eq(o.n[k], 1)), imp(c_not(X), D.eq(o.n[k], 0))))]
            return fn_task(u, 'dls%d%d' % (w, flip), coords('px py qx qy rx ry', 32), None, [('w0', 32, 2), ('w1', 32, 2), ('n', 8, 2)], post, pre=lambda D, v: [c_or(D.ne(v.px, v.qx), D.ne(v.py, v.qy)), c_or(D.ne(v.px, v.rx), D.ne(v.py, v.ry))], contracts=VEC, funcs=['dual_line_balance::check'])
        for w in (1, 2):
            for flip in (0, 1): out.append(dself(w, flip))
        return out
    main('B03', [u], tasks, assumptions=['coordinates below 2^(bits-2) in magnitude', 'winding numbers below 2^29 in magnitude'], trusted=['std::vector push_back/emplace_back/clear/size'])

def vsize(ex, st, f, args, ins): return [(st, IV(P(len(st.ghost.get(('push', args[0].r, ex.offc(args[0].off)), []))), 64))]
def vat(ex, st, f, args, ins):
    k = ex.d.concrete(args[1]); r = ex.new_region(st, 'elem', 8); ex.put(st, r, 0, 4, IV(st.ghost[('push', args[0].r, ex.offc(args[0].off))][k], 32)); return [(st, Ptr(r, 0))]
