"""B02: segment intersection: whether two segments intersect is decided exactly and the reported point and end flags fit."""
from geo import *
START, NO, END, BOTH = -1, 0, 1, 2
def rand_bool(*bits):
    """either value may come; the first calls are split over the tasks"""
    def h(ex, st, f, args, ins):
        k = st.ghost.get('rb', 0); st.ghost['rb'] = k + 1
        return [(st, bool(bits[k]) if k < len(bits) else ex.d.rel('!=', ex.d.atom('rnd', 0, 1)))]
    return (re.compile(r'rand_bool\('), h)
C4 = 'x1 y1 x2 y2 x3 y3 x4 y4'
def pars(bits):
    return coords(C4, bits, 1 << 61 if bits == 64 else None) + [Par('i%d' % i, 32, 0, 1 << 30) for i in (1, 2, 3, 4)]
def segpre(D, v):
    return [c_or(D.ne(v.x1, v.x2), D.ne(v.y1, v.y2)), c_or(D.ne(v.x3, v.x4), D.ne(v.y3, v.y4)), D.ne(v.i1, v.i2), D.ne(v.i3, v.i4)]
def det(v): return (v.x1-v.x2)*(v.y3-v.y4) - (v.y1-v.y2)*(v.x3-v.x4)
def imp(a, b): return c_or(c_not(a), b)
def iff(a, b): return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
def at(D, o, v, k): return c_and(D.eq(o.p[0], v['x'+k]), D.eq(o.p[1], v['y'+k]))
def at_(v, o, k): return (o.p[0] - v['x'+k], o.p[1] - v['y'+k])

def to_double(ex, st, f, args, ins):
    """contract of compound_int<2> to double (proved in A06): relative error at most 3*2^-53, exact sign"""
    d = ex.d; lo, hi = (ex.unundef(ex.load_at(st, args[0].r, args[0].off + 8*i, ty_int(64))) for i in (0, 1))
    v = d.u(lo) + d.s(hi)*(1 << 64); key = ('td', v)
    a = ex.fp.cache.get(key)
    if a is None:
        B = 1 << 128; a = d.atomr('dbl', -B, B); A = d.at(a); zv = d.z(v); at_ = d.zat(v) | {A.id}; n = 1 << 53
        zv = z3.ToReal(zv)
        A.defs.append(Cond(z3.Implies(zv >= 0, z3.And(A.z*n >= zv*(n-3), A.z*n <= zv*(n+3))), at_)); A.defs.append(Cond(z3.Implies(zv <= 0, z3.And(A.z*n <= zv*(n-3), A.z*n >= zv*(n+3))), at_))
        ex.fp.cache[key] = a
    r = ex.fp.mk(a, 'double'); r.rel = (v, P(1), 3); return [(st, r)]
TD = (re.compile(r'compound_xint<2u?, true>::operator double|operator double.*compound_xint<2'), to_double)
def cross_post(bits):
    def post(D, v, r, o):
        d = det(v); share = c_or(D.eq(v.i1, v.i3), D.eq(v.i1, v.i4), D.eq(v.i2, v.i3), D.eq(v.i2, v.i4))
        o1, o2, o3, o4 = orient(v, '1', '2', '3'), orient(v, '1', '2', '4'), orient(v, '3', '4', '1'), orient(v, '3', '4', '2')
        opp = lambda a, b: c_or(c_and(D.ge(a, 0), D.le(b, 0)), c_and(D.le(a, 0), D.ge(b, 0)))
        hit = c_and(c_not(share), opp(o1, o2), opp(o3, o4))
        out = [('true exactly when the segments cross or touch and share no vertex', iff(r, hit))]
        if r is False: return out
        e = o.e
        def imps(*a):
            """the conclusion under hypotheses, evaluated only when the call can return true"""
            return imp(c_and(r, *a[:-1]), a[-1])
        z1, z2, z3_, z4 = (D.eq(x, 0) for x in (o1, o2, o3, o4))
        flag = lambda k, f: D.eq(e[k], f)
        und = lambda: any(isinstance(x, Undef) for x in e + o.p)
        if und(): return out + [('point and flags are set', c_not(r))]
        out += [
            ('touching at the start of the first', imps(z3_, c_and(flag(0, START), at(D, o, v, '1')))),
            ('touching at the end of the first', imps(z4, c_and(flag(0, END), at(D, o, v, '2')))),
            ('touching the first only: flag of the second', imps(c_or(z3_, z4), c_and(imp(z1, flag(1, START)), imp(z2, flag(1, END)), imp(c_not(c_or(z1, z2)), flag(1, NO))))),
            ('touching at the start of the second', imps(c_not(z3_), c_not(z4), z1, c_and(flag(0, NO), flag(1, START), at(D, o, v, '3')))),
            ('touching at the end of the second', imps(c_not(z3_), c_not(z4), z2, c_and(flag(0, NO), flag(1, END), at(D, o, v, '4'))))]
        inter = c_and(c_not(z1), c_not(z2), c_not(z3_), c_not(z4))
        for k, (a, b) in enumerate((('1', '2'), ('3', '4'))):
            sa, sb = at(D, o, v, a), at(D, o, v, b)
            out.append(('interior crossing: flags of segment %d say whether the rounded point is an end' % k, imps(inter, c_or(c_and(sa, flag(k, START)), c_and(c_not(sa), sb, flag(k, END)), c_and(c_not(sa), c_not(sb), flag(k, NO))))))
        t = (v.x1-v.x3)*(v.y3-v.y4) - (v.y1-v.y3)*(v.x3-v.x4)
        S = 1 << 19 if bits == 32 else 1
        for c, i in (('x', 0), ('y', 1)):
            dx = v[c+'2'] - v[c+'1']; q = o.p[i] - v[c+'1']
            err = q*d - t*dx
            if bits == 32:
                out.append(('interior crossing: %s is within one unit (+2^-19) of the exact crossing' % c, imps(inter, c_and(imp(D.gt(d, 0), c_and(D.le(err*S, d*(S+1)), D.ge(err*S, -d*(S+1)))), imp(D.lt(d, 0), c_and(D.le(err*S, -d*(S+1)), D.ge(err*S, d*(S+1))))))))
                out.append(('the %s coordinate is within the extent of the first segment' % c, imps(c_and(imp(D.ge(dx, 0), c_and(D.ge(q, 0), D.le(q-dx, 0))), imp(D.le(dx, 0), c_and(D.le(q, 0), D.ge(q-dx, 0)))))))
            else:       # one unit plus the rounding of the quotient and the product
                K = 1 << 49; ok = lambda e: c_and(imp(D.ge(dx, 0), c_and(D.le(e*K, d*sd*(K + dx)), D.ge(e*K, -d*sd*(K + dx)))), imp(D.le(dx, 0), c_and(D.le(e*K, d*sd*(K - dx)), D.ge(e*K, -d*sd*(K - dx)))))
                cs = []
                for sd, g in ((1, D.gt), (-1, D.lt)): cs.append(imp(g(d, 0), ok(err)))
                out.append(('interior crossing: %s is within one unit (and a relative 2^-49) of the exact crossing' % c, imps(inter, c_and(*cs))))
        return out
    return post
def cross_hint(bits):
    M = 1 << (bits-1)
    def hint(D, v, r, o):
        d = det(v); t = (v.x1-v.x3)*(v.y3-v.y4) - (v.y1-v.y3)*(v.x3-v.x4); h = []
        k = next((k for k in '34' if not isinstance(o.p[0], Undef) and o.p[0] == v['x'+k] and o.p[1] == v['y'+k]), None)
        for c in 'xy':
            dx = v[c+'2'] - v[c+'1']
            for s in (1, -1):
                for w in (t, d-t): h += [D.mul_lemma(w*s, dx), D.mul_lemma(w*s, -dx)] if r is not False and k else []; h += [D.mul_lemma(w*s, P(M)-dx), D.mul_lemma(w*s, P(M)+dx)]
        if k:       # an end of the second segment on the first: (p-p1)*d = t*(p2-p1) there
            ou = orient(v, '1', '2', k)
            for c in 'xy':
                w = v[c+'4'] - v[c+'3']; z = D.rel('==', ou); h.append(imp(z, D.rel('==', ou*w)))
                for s in (1, -1):
                    for e in '12':
                        for q in (1, -1): h.append(D.mul_lemma((v[c+k]-v[c+e])*q, d*s, strict=True))
        return h
    return hint

def par_post(D, v, r, o):
    """the segments are parallel"""
    e = o.e; dx, dy = v.x2-v.x1, v.y2-v.y1
    col = D.eq(orient(v, '1', '2', '3'), 0)
    pr = lambda k: (v['x'+k]-v.x1)*dx + (v['y'+k]-v.y1)*dy
    L = dx*dx + dy*dy; a, b = pr('3'), pr('4'); one = P(0) if D is not PY else 0
    inn = lambda x, p, q: c_or(c_and(D.lt(p, x), D.lt(x, q)), c_and(D.lt(q, x), D.lt(x, p)))
    i1, i2, i3, i4 = inn(one, a, b), inn(L, a, b), inn(a, one, L), inn(b, one, L)
    inside = c_or(i1, i2, i3, i4)
    same = c_and(D.eq(a, 0), D.eq(b, L)); rev = c_and(D.eq(a, L), D.eq(b, 0)); eqi = lambda p, q: D.eq(v['i'+p], v['i'+q])
    dist = c_or(c_and(same, c_not(c_and(eqi('1', '3'), eqi('2', '4')))), c_and(rev, c_not(c_and(eqi('1', '4'), eqi('2', '3')))))
    out = [('true exactly when collinear and overlapping in more than shared vertices', iff(r, c_and(col, c_or(inside, dist))))]
    if r is False: return out
    if any(isinstance(x, Undef) for x in e): return out + [('flags are set', c_not(r))]
    f = lambda k, x: D.eq(e[k], x); R = lambda *a: imp(c_and(r, *a[:-1]), a[-1])
    und = any(isinstance(x, Undef) for x in o.p); pt = (lambda k: at(D, o, v, k)) if not und else (lambda k: False)
    opts = c_or(c_and(i1, f(0, START), f(1, NO), pt('1')), c_and(i2, f(0, END), f(1, NO), pt('2')), c_and(i3, f(0, NO), f(1, START), pt('3')), c_and(i4, f(0, NO), f(1, END), pt('4')))
    out.append(('an end inside the other segment is reported with its flag', R(inside, opts)))
    for nm, c, p, q, fp, fq in (('same direction', same, '3', '4', START, END), ('opposite direction', rev, '4', '3', END, START)):
        d1, d2 = c_not(eqi('1', p)), c_not(eqi('2', q))
        out += [('%s: both ends' % nm, R(c, d1, d2, c_and(f(0, BOTH), f(1, BOTH)))),
                ('%s: only the starts are distinct vertices' % nm, R(c, d1, c_not(d2), c_and(f(0, START), f(1, fp), pt('1')))),
                ('%s: only the ends are distinct vertices' % nm, R(c, d2, c_not(d1), c_and(f(0, END), f(1, fq), pt('2'))))]
    return out

def check():
    src = HEAD
    for b, c in ((32, 'int'), (64, 'i64')):
        src += '''extern "C" bool inter%d(%s x1,%s y1,%s x2,%s y2,%s x3,%s y3,%s x4,%s y4,unsigned i1,unsigned i2,unsigned i3,unsigned i4,%s *p,int *e) {
  cached_segment<unsigned,%s> s1(i1,i2,{x1,y1},{x2,y2}), s2(i3,i4,{x3,y3},{x4,y4});
  std::minstd_rand g(unsigned(x1)*2654435761u + unsigned(y2)*40503u + unsigned(x4)*977u + 1u); point_t<%s> q; at_edge_t ae[2];
  bool r = intersects(s1,s2,q,std::span<at_edge_t,2>(ae),g); if(r) { p[0]=q[0]; p[1]=q[1]; e[0]=int(ae[0]); e[1]=int(ae[1]); } return r; }
''' % ((b,) + (c,)*11)
    u = Unit('B02', src)
    def gen(rng, n, b=32):
        for _ in range(n):
            S = rng.choice([1, 2, 3, 4, 6, 50, 100000, 1 << (29 if b == 32 else 60)])
            l = [rng.randint(-S, S) for _ in range(8)]
            if rng.random() < 0.3: k = rng.choice([0, 2]); l[4:6] = l[k:k+2]
            if rng.random() < 0.2: l[6:8] = l[2:4] if rng.random() < .5 else l[0:2]
            if rng.random() < 0.2: m, a = rng.randint(-3, 3), rng.randint(-3, 3); l[4] = l[0] + m*(l[2]-l[0]); l[5] = l[1] + m*(l[3]-l[1]); l[6] = l[0] + a*(l[2]-l[0]); l[7] = l[1] + a*(l[3]-l[1])
            lim = (1 << (30 if b == 32 else 61))-1; l = [max(-lim, min(lim, x)) for x in l]
            if rng.random() < .5: ix = [0, 1, 2, 3]
            else: ix = [rng.randint(0, 3) for _ in range(4)]
            if not all(segpre(PY, V(zip(C4.split() + ['i1', 'i2', 'i3', 'i4'], l + ix)))): continue
            yield l + ix
    def tasks():
        out = []
        for b in (32, 64):
            kw = dict(gen=gen if b == 32 else (lambda rng, n: gen(rng, n, 64)), outs=[('p', b, 2), ('e', 32, 2)], ret='b', n_quick=60000)
            if b == 32:
                for nm, g in (('pos', 'gt'), ('neg', 'lt')):
                    for r0, r1 in ((0, 0), (0, 1), (1, 0), (1, 1)): out.append(fn_task(u, 'inter%d' % b, pars(b), post=cross_post(b), contracts=[rand_bool(r0, r1), TD], pre=lambda D, v, g=g: segpre(D, v) + [getattr(D, g)(det(v), 0)], hint=cross_hint(b), task='intersects%d_%s%d%d' % (b, nm, r0, r1), funcs=['detail::intersects<unsigned,int%d>' % b, 'is_edge'], timeout=60000, **kw))
            else:
                out.append(fn_task(u, 'inter64', pars(64), post=cross_post(64), pre=lambda D, v: segpre(D, v) + [D.ne(det(v), 0)], task='intersects64_sampled', funcs=['detail::intersects<unsigned,int64>'], bounded='%d seeded pseudo-random segment pairs' % kw['n_quick'], **kw))
            if b == 32 or TIER == 'thorough':
                out.append(fn_task(u, 'inter%d' % b, pars(b), post=par_post, contracts=[rand_bool()], pre=lambda D, v: segpre(D, v) + [D.eq(det(v), 0)], task='intersects%d_parallel' % b, funcs=['detail::intersects_parallel<unsigned,int%d>' % b, 'between'], timeout=60000, **kw))
            else:
                out.append(fn_task(u, 'inter64', pars(64), post=par_post, pre=lambda D, v: segpre(D, v) + [D.eq(det(v), 0)], task='intersects64_parallel_sampled', funcs=['detail::intersects_parallel<unsigned,int64>'], bounded='%d seeded pseudo-random segment pairs (proved in the thorough tier)' % kw['n_quick'], **kw))
        return out
    main('B02', [u], tasks, assumptions=['coordinates below 2^(bits-2) in magnitude (2^61 for 64 bits)', 'segments are not degenerate', 'rand_bool may return either value'])
