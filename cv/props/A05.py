"""A05: division: divmod (truncating and floor mode), operator/ and unmul."""
from li import *
import re, itertools

# ---------------------------------------------------------------- contracts inside the division code
class SSGhost:
    def __init__(self, A0, B0, facts): self.A0 = A0; self.B0 = B0; self.facts = facts

def words_at(ex, st, p, n): return rd(ex, st, p, n)
def put_words(ex, st, p, ws):
    for i, w in enumerate(ws): ex.put(st, p.r, p.off + 8*i, 8, w)

def hint(ex, st, x):
    """replace a polynomial by an equal one the specification knows (|a|, |b|)"""
    for h in st.ghost.get('hints', ()):
        if h == x: return h
    for h in st.ghost.get('hints', ()):
        c = ex.d.rel('==', x - h)
        if c is False: continue
        r, m, be = ex.d.prove(st.facts, c, 5000)
        if r == 'proved':
            ex.oblige(st, 'operand magnitude', c, assume=False); return h
    return x

RX_SS = re.compile(r'udivmod_shift_sub<(\d+)u?>\(')
RX_LONG = re.compile(r'\budivmod_long<(\d+)u?>\(')
def ss_contract(ex, st, f, args, ins):
    """requires *b != 0; ensures quot == a0 / b0, a == a0 % b0 (N-word naturals); modifies a, b, quot"""
    N = int(RX_SS.search(f.dem).group(1)); d = ex.d; pa, pb, pq = args
    x = hint(ex, st, ival(d, words_at(ex, st, pa, N), False)); y = hint(ex, st, ival(d, words_at(ex, st, pb, N), False))
    ex.oblige(st, 'udivmod_shift_sub<%d>: divisor not zero' % N, d.gt(y, 0))
    q, r = d.tdivrem(x, y)
    put_words(ex, st, pq, [IV(d.fdiv(q, 1 << (64*i)), 64) for i in range(N)])
    put_words(ex, st, pa, [IV(d.fdiv(r, 1 << (64*i)), 64) for i in range(N)])
    put_words(ex, st, pb, [d.fresh('bdead', 64) for i in range(N)])
    st.ghost['qr'] = (q, r, x, y)
    return [(st, None)]
def long_contract(ex, st, f, args, ins):
    """requires b != 0; ensures quot == a0 / b, a == a0 % b"""
    N = int(RX_LONG.search(f.dem).group(1)); d = ex.d; pa, b, pq = args
    if N == 1: return None
    x = hint(ex, st, ival(d, words_at(ex, st, pa, N), False)); y = hint(ex, st, d.u(ex.unundef(b)))
    ex.oblige(st, 'udivmod_long<%d>: divisor not zero' % N, d.gt(y, 0))
    q, r = d.tdivrem(x, y)
    put_words(ex, st, pq, [IV(d.fdiv(q, 1 << (64*i)), 64) for i in range(N)])
    put_words(ex, st, pa, [IV(r, 64)] + [d.const(0, 64)]*(N-1))
    st.ghost['qr'] = (q, r, x, y)
    return [(st, None)]
CONTRACTS = [(RX_SS, ss_contract), (RX_LONG, long_contract)]

def ss_entry(ex, st, f, args, ins):
    """proof of udivmod_shift_sub itself: remember the operands, enter the body"""
    N = int(RX_SS.search(f.dem).group(1)); d = ex.d
    st.ghost['ss'] = SSGhost(ival(d, words_at(ex, st, args[0], N), False), ival(d, words_at(ex, st, args[1], N), False), list(st.facts))
    st.ghost['ss'].bw = words_at(ex, st, args[1], N)
    st.ghost.pop('clz', None)
    return None
def clz_contract(ex, st, f, args, ins):
    """countl_zero of an N-word value (proved in A02): W-1-e with 2^e <= x < 2^(e+1), or W for zero.
    2^e is a ghost; the second of two calls is split on the difference of the two results"""
    d = ex.d
    if d.name != 'int': return None
    m = re.search(r'xint_ref<(\d+)u?', f.dem) or re.search(r'compound_xint<(\d+)u?', f.dem)
    if not m: return None
    N = int(m.group(1)); W = 64*N
    p = args[0]
    if isinstance(p, Ptr):
        # by reference to the reference object (holds a pointer)
        pass
    v = ex.load_at(st, p.r, p.off, PTR) if 'ref<' in f.dem else p
    x = ival(d, words_at(ex, st, v, N), False)
    out = []
    z = d.rel('==', x)
    for isz, s in ex.fork(st, z):
        if isz: out.append((s, d.const(W, 32))); continue
        g = s.ghost.get('clz')
        if g is None:
            e = d.atom('clz', 0, W-1); pw = d.atom('pow', 1, 1 << (W-1))
            s.add(d.le(pw, x)); s.add(d.lt(x, pw*2))
            s.ghost['clz'] = (e, pw); out.append((s, IV(e, 32)))
        else:
            e, pw = g
            for k in range(-(W-1), W):
                t = s.copy()
                if k >= 0: p2 = pw*(1 << k)
                else:
                    p2 = d.atom('pow', 1, 1 << (W-1)); t.add(d.eq(pw, p2*(1 << -k)))
                c = [d.le(p2, x), d.lt(x, p2*2), d.le(p2, 1 << (W-1)), d.ge(e - k, 0), d.le(e - k, W-1)]
                if any(i is False for i in c): continue
                for i in c: t.add(i)
                if not ex.feasible(t, d.le(p2, x)): continue
                out.append((t, IV(e - k, 32)))
    return out
RX_CLZ = re.compile(r'large_ints::countl_zero<.*(xint_ref|compound_xint)<')

class ShiftSubCut:
    """loop invariant of udivmod_shift_sub, for the inner loop at (word n, shift s):
         a0 == Q*b0 + a,  a < b0*2^(s+1),  b == b0*2^s (s >= 0),
         Q = sum of the finished quotient words plus the partial word quot[n] at weight 2^max(s+1,64n)"""
    def __init__(self): self.done = set()
    def match(self, ex, f, b, L):
        m = RX_SS.search(f.dem)
        if not m or b not in L: return False
        body = L[b]
        if any(h != b and h in body for h in L): return False      # innermost only
        calls = [i for x in body for i in f.blocks[x] if i.op in ('call', 'invoke') and i.x['callee'].k == 'global']
        return any('subborrow' in getattr(ex.m.funcs.get(c.x['callee'].v), 'dem', '') for c in calls)
    def _pos(self, ex, st, fr, b):
        d = ex.d; ins = fr.f.blocks[b]
        phis = [i.dst for i in ins if i.op == 'phi']
        cmpi = next((i for i in ins if i.op == 'icmp'), None)
        if len(phis) != 1 or cmpi is None: raise ExecError('shift loop has an unexpected shape')
        s = d.concrete(fr.env[phis[0]]); 
        if s is None: raise ExecError('shift is not concrete')
        if s >= 1 << 31: s -= 1 << 32
        ops = [ex.val(st, fr, a) for a in cmpi.a]
        other = next(o for o, a in zip(ops, cmpi.a) if not (a.k == 'local' and a.v == phis[0]))
        end = d.concrete(other)
        if end is None or end % 64: raise ExecError('word limit not concrete')
        return end//64, s
    def ptrs(self, fr): return [fr.env[p[0]] for p in fr.f.params]
    def Q(self, d, ws, n, s, N):
        Q = P(0)
        for j in range(n+1, N): Q = Q + d.u(ws[j])*(1 << (64*j))
        return Q + d.u(ws[n])*(1 << max(s+1, 64*n))
    def arrive(self, ex, st, fr, b, back):
        N = int(RX_SS.search(fr.f.dem).group(1)); d = ex.d; n, s = self._pos(ex, st, fr, b); g = st.ghost['ss']
        pa, pb, pq = self.ptrs(fr); nm = 'udivmod_shift_sub<%d> word %d shift %d: ' % (N, n, s)
        A = ival(d, rd(ex, st, pa, N), False)
        qw = [None]*n + [ex.unundef(ex.load_at(st, pq.r, pq.off + 8*j, ty_int(64))) for j in range(n, N)]
        if s >= 0: ex.oblige(st, nm + 'b == b0*2^s', d.eq(ival(d, rd(ex, st, pb, N), False), g.B0*(1 << s)))
        ex.oblige(st, nm + 'a0 == q*b0 + a', d.eq(g.A0, self.Q(d, qw, n, s, N)*g.B0 + A))
        ex.oblige(st, nm + 'a < b0*2^(s+1)', d.lt(A, g.B0*(1 << (s+1))))
        hi = self.qmax(n, s)
        ex.oblige(st, nm + 'partial quotient word has room', d.le(d.u(qw[n]), hi))
        return self.expand(ex, st, fr, b, n, s)
    def qmax(self, n, s): return (1 << min(64, max(0, 64*n + 63 - s))) - 1
    def expand(self, ex, st, fr, b, n, s):
        key = (fr.f.name, n, s)
        if key in self.done: return []
        self.done.add(key); d = ex.d
        N = int(RX_SS.search(fr.f.dem).group(1)); g = st.ghost['ss']
        t = st.copy(); f2 = t.frames[-1]; f2.visits = {}
        t.facts = list(g.facts)
        pa, pb, pq = self.ptrs(f2)
        aw = [d.fresh('a', 64) for _ in range(N)]; put_words(ex, t, pa, aw)
        if s >= 1:      # b == 2t for the value t == b0*2^(s-1) of the next step: its words are those of t shifted by one
            tw = [IV(d.atom('t', 0, (1 << 63)-1), 64) if i == N-1 else d.fresh('t', 64) for i in range(N)]
            bv = ival(d, tw, False)*2; t.add(d.eq(ival(d, tw, False), g.B0*(1 << (s-1))))
            bw = []; c = P(0)
            for i in range(N):
                x = d.u(tw[i])*2 + c; c = d.fdiv(x, 1 << 64); bw.append(IV(d.modu(x, 1 << 64), 64))
        elif s == 0: bw = g.bw
        else: bw = [d.fresh('b', 64) for _ in range(N)]
        put_words(ex, t, pb, bw)
        qw = [None]*N
        for j in range(n, N):
            qw[j] = IV(d.atom('q', 0, self.qmax(n, s)), 64) if j == n else d.fresh('q', 64)
            ex.put(t, pq.r, pq.off + 8*j, 8, qw[j])
        A = ival(d, aw, False)
        t.add(d.eq(g.A0, self.Q(d, qw, n, s, N)*g.B0 + A))
        t.add(d.lt(A, g.B0*(1 << (s+1))))
        return [t]

# ---------------------------------------------------------------- specification
def quot_spec(d, ex, f, a, b, qo, ro, floor, sa, sb, N, Nr, sg):
    """qo, ro: output words. truncation: a == q*b + r, |r| < |b|, r has the sign of a (or is zero);
    floor mode: q == floor(a/b), r == |a - q*b|"""
    q = ival(d, qo, sg); r = ival(d, ro, sg); out = []
    g = f.ghost.get('qr')
    if g is not None:
        # magnitudes divided as naturals: gq = |a| div |b|, gr = |a| mod |b|
        gq, gr, x, y = g; ab = a if not sa else -a; bb = b if not sb else -b
        out.append(('dividend magnitude', d.rel('==', x - ab))); out.append(('divisor magnitude', d.rel('==', y - bb)))
        if not floor:
            out.append(('quotient == sign * (|a| div |b|)', d.rel('==', q - (gq if sa == sb else -gq))))
            out.append(('remainder == sign(a) * (|a| mod |b|)', d.rel('==', r - (-gr if sa else gr))))
        else:
            if sa == sb:
                out.append(('floor quotient', d.rel('==', q - gq))); out.append(('remainder', d.rel('==', r - gr)))
            else:
                nz = d.rel('>', gr)
                out.append(('floor quotient (exact)', c_imp(c_not(nz), c_and(d.rel('==', q + gq), d.rel('==', r)))))
                out.append(('floor quotient (inexact)', c_imp(nz, c_and(d.rel('==', q + gq + 1), d.rel('==', r - (bb - gr))))))
        return out
    if not floor:
        out.append(('a == quot*b + rem', d.rel('==', a - q*b - r)))
        out.append(('|rem| < |b|', c_and(d.lt(r, b if not sb else -b), d.lt(-r, b if not sb else -b))))
        out.append(('rem has the sign of a', d.rel('>=' if not sa else '<=', r)))
    else:
        out.append(('a == quot*b + rem (floor)', d.rel('==', a - q*b - (r if not sb else -r))))
        out.append(('0 <= rem < |b|', c_and(d.rel('>=', r), d.lt(r, b if not sb else -b))))
    return out

class DivTask:
    @staticmethod
    def make(u, nm, A, B, Nq, Nr, sg, floor, unmul, fn, contracts, cuts=None, tinfo=None, kw=None, n_quick=4000):
        pre_mag = floor     # |b| is formed with the built-in absolute value in this mode
        def okpy(a, b):
            if b == 0: return False
            q = abs(a)//abs(b); q = q if (a < 0) == (b < 0) else -q
            if floor: q = a//b
            lo, hi = (-(1 << (64*Nq-1)), (1 << (64*Nq-1))-1) if sg else (0, (1 << (64*Nq))-1)
            if not (lo <= q <= hi): return False
            t = abs(a)//abs(b); t = t if (a < 0) == (b < 0) else -t
            if not (lo <= t <= hi): return False
            if floor and B.sg and b == -(1 << (B.bits-1)): return False
            return True
        def prove(R):
            for sa, sb in itertools.product((0, 1) if A.sg else (0,), (0, 1) if B.sg else (0,)):
                cs = [c() for c in cuts] if cuts else []
                ex, d = R.new('int', contracts=list(contracts), cuts=cs, max_visits=4000)
                st = ex.new_state()
                pa, wa = mk_in(d, ex, st, A, 'a', sa if A.sg else None); pb, wb = mk_in(d, ex, st, B, 'b', sb if B.sg else None)
                ro = ex.new_region(st, 'out', 8*(Nq+Nr))
                a, b = ival(d, wa, A.sg), ival(d, wb, B.sg)
                st.add(d.ne(b, 0))
                ab = -a if sa else a; bb = -b if sb else b
                st.ghost['hints'] = [ab, bb]
                if floor and B.sg and sb: st.add(d.ne(b, -(1 << (B.bits-1))))
                lo, hi = (-(1 << (64*Nq-1)), (1 << (64*Nq-1))-1) if sg else (0, (1 << (64*Nq))-1)
                if unmul and A.count(sg) > Nq:
                    q, r = d.tdivrem(a, b)
                    st.add(c_and(d.ge(q, lo), d.le(q, hi)))
                    if floor and sa != sb: st.add(c_or(d.rel('==', r), d.ge(q, lo+1)))
                    if sg:   # the same precondition on the magnitudes, in the terms of the division contract
                        q2, r2 = d.tdivrem(ab, bb)
                        st.add(c_and(d.le(q2, hi + (0 if sa == sb else 1)), d.ge(q2, 0)))
                        if floor and sa != sb: st.add(c_or(d.rel('==', r2), d.le(q2, hi)))
                elif sg and sa and sb and A.bits == 64*Nq:
                    st.add(c_or(d.ne(a, -(1 << (64*Nq-1))), d.ne(b, -1)))
                def fm(m, o, wa=wa, wb=wb, d=d): return [[[d.evalp(m, d.u(w)) for w in ws] for ws in (wa, wb)]]
                R.from_model = lambda m, o: (getattr(o, 'fm', None) or fm)(m, o)
                n0 = len(R.obls)
                fin = ex.run(nm, [Ptr(ro, 0), pa, pb], st)
                R.finals(fin)
                for f in fin:
                    o = rd(ex, f, Ptr(ro, 0), Nq+Nr)
                    for name, c in quot_spec(d, ex, f, a, b, o[:Nq], o[Nq:], floor, sa, sb, Nq, Nr, sg):
                        ex.oblige(f, '%s: %s' % (nm, name), c, assume=False)
                for o in R.obls[n0:]: o.fm = fm
        def conc(lib, inp):
            a, b = pyval(inp[0], A), pyval(inp[1], B)
            if not okpy(a, b): return None
            if floor: q = a//b; r = abs(a - q*b)
            else:
                q = abs(a)//abs(b); q = q if (a < 0) == (b < 0) else -q; r = a - q*b
            exp = words_of(q, Nq) + words_of(r, Nr)
            o = cwords([0]*(Nq+Nr), 2); getattr(lib, nm)(o, cwords(inp[0]), cwords(inp[1]))
            got = list(o)[:Nq+Nr]
            if got != exp:
                return {'failure': '%s(%d, %d) gave quotient/remainder words %s, expected %s (quotient %d, remainder %d)' % (nm, a, b, [hex(x) for x in got], [hex(x) for x in exp], q, r)}
        base = gen_args([A, B])
        def gen(rng, n):
            yield from base(rng, n)
            for _ in range(n):      # divisors near the dividend, exact multiples
                b = rng.getrandbits(rng.randint(1, B.bits-1)); q = rng.getrandbits(rng.randint(1, max(1, A.bits-1))) 
                a = b*q + rng.choice((0, 0, 1, -1, b-1, b//2))
                if A.sg and rng.random() < 0.5: a = -a
                if B.sg and rng.random() < 0.5: b = -b
                yield [words_of(a & ((1 << A.bits)-1) if A.bits >= 64 else a, A.n), words_of(b, B.n)]
        return Task(nm, u, prove, conc, gen, [fn], 'int', n_quick=n_quick, timeout=40000)

COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
def check():
    specs = []
    for conf in CONFS:
        src = HEAD; L = []
        pairs = [(a, b) for a in COMP for b in COMP if T[a].n <= 3 and T[b].n <= 3 or (TIER == 'thorough' and a == b) or (T[a].n == 4 and T[b].n == 1)] + \
                [(a, b) for a in ('s1', 's2', 's3', 'u1', 'u2') for b in ('i8', 'i32', 'i64', 'n64')] + [('i64', 's2'), ('i64', 's1'), ('n64', 'u2'), ('i64', 'i64'), ('n64', 'n64'), ('s2', 'i16'), ('s4', 'i64')]
        for a, b in pairs:
            A, B = T[a], T[b]; sg = A.sg or B.sg; N = max(A.count(sg), B.count(sg)); Nr = B.count(sg)
            for mode, fl in (('truncate', 0), ('euclid', 1)):
                if fl and not sg and (a, b) not in (('u2', 'u2'), ('u1', 'u1'), ('u2', 'n64')): continue
                nm = 'div%s_%s_%s' % ('fl' if fl else '', a, b)
                src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = divmod(in<%s>(a),in<%s>(b)%s); outv(o,r.quot); outv(o+%d,r.rem); }\n' % (nm, A.cpp, B.cpp, ',modulo_t::euclid' if fl else '', N)
                L.append((nm, A, B, N, Nr, sg, fl, 0, 'large_ints::divmod<%s,%s,%s>' % (A.cpp, B.cpp, mode)))
        for a, b, nr in (('s2', 's1', 1), ('s2', 'i64', 1), ('u2', 'u1', 1), ('u2', 'n64', 1), ('s3', 's1', 2), ('s3', 's2', 1), ('s3', 's2', 2), ('s2', 's2', 1), ('s4', 's2', 2), ('u3', 'u2', 1), ('i128', 'i64', 1) , ('s2', 'i32', 1)):
            if conf == 'noext' and '128' in a: continue
            A, B = T[a], T[b]; sg = A.sg or B.sg; Nr = B.count(sg)
            for fl in ((0, 1) if sg else (0,)):
                nm = 'unmul%s%d_%s_%s' % ('fl' if fl else '', nr, a, b)
                src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = unmul<%d>(in<%s>(a),in<%s>(b)%s); outv(o,r.quot); outv(o+%d,r.rem); }\n' % (nm, nr, A.cpp, B.cpp, ',modulo_t::euclid' if fl else '', nr)
                L.append((nm, A, B, nr, Nr, sg, fl, 1, 'large_ints::unmul<%d,%s,%s>' % (nr, A.cpp, B.cpp)))
        specs.append((Unit('A05', src, conf), L))
    def tasks():
        out = []
        for u, L in specs:
            slow = []
            for nm, A, B, Nq, Nr, sg, fl, um, fn in L:
                own = not fl and not um and not sg and A.name == B.name and A.n == B.n and A.n > 1     # proves udivmod_shift_sub<N>
                ownl = not fl and not um and not sg and A.comp and B.name == 'u1' and A.n > 1            # proves udivmod_long<N>
                if own:
                    slow.append(DivTask.make(u, nm, A, B, Nq, Nr, sg, fl, um, fn + ', detail::udivmod_shift_sub<%d>' % A.n, [(RX_SS, ss_entry), (RX_CLZ, clz_contract)], [ShiftSubCut]))
                else:
                    t = DivTask.make(u, nm, A, B, Nq, Nr, sg, fl, um, fn, [(RX_SS, ss_contract)] if ownl else CONTRACTS)
                    out.append(t)
            out[:0] = slow
        big = [t for t in out if 'shift_sub' in t.funcs[0]]
        return big + group([t for t in out if t not in big], 8)
    main('A05', [u for u, _ in specs], tasks, assumptions=['x86-64 little endian, 64-bit full_uint', 'divisor not zero; quotient representable in the result type (as for built-in division)', 'floor mode: |divisor| representable in its type'])
