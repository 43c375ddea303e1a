"""B01: orientation, dot product and polygon area are exact integers."""
from geo import *

def lval(D, o, n):
    """little-endian words (unsigned but the last) -> value"""
    if n == 1: return o
    t = 0
    for i, w in enumerate(o): t = t + (D.modu(w, 1 << 64) if i < n-1 else w)*(1 << (64*i))
    return t

class ShoeInv:
    """after consuming the points 0..i-1: the running sum is the shoelace sum of the edges between them (modulo the width of long_t),
    the previous point is point i-1 and the first is point 0. S(i) is the sum of (x_{j-1}-x_j)(y_{j-1}+y_j) for 0 < j < i."""
    def __init__(self, rid, n, bits): self.rid = rid; self.n = n; self.b = bits; self.es = bits//4; self.W = bits*2
    def el(self, ex, st, k):
        r = elem(ex, st, self.rid, k)
        if len(r) != 1: raise ExecError('ambiguous element')
        v = r[0][1]; return ex.d.s(v[0]), ex.d.s(v[self.b//8])
    def term(self, ex, st, i):
        x0, y0 = self.el(ex, st, i-1); x1, y1 = self.el(ex, st, i); return (x0-x1)*(y0+y1)
    def itr(self, ex, st, fr):
        """the iterator: the pointer into the points whose value differs from begin and end"""
        d = ex.d; c = []
        for rid, r in st.mem.items():
            if r.freed or r.arr is not None: continue
            for o, (s, v) in r.cells.items():
                if isinstance(v, Ptr) and v.r == self.rid: c.append(((rid, o), v))
        return c
    def init(self, ex, st, fr): st.ghost['i'] = P(1); st.ghost['S'] = P(0)
    def havoc(self, ex, st, fr, m):
        d = ex.d; g = st.ghost; g['i'] = i = d.atom('i', 1, (1 << 40)); g['S'] = d.atom('S', -(1 << 200), 1 << 200)
        st.add(d.le(i, self.n))
        self.m = m
    def step(self, ex, st, fr, m):
        g = st.ghost; g['S'] = g['S'] + self.term(ex, st, g['i']); g['i'] = g['i'] + 1
    def facts(self, ex, st, fr, m):
        d = ex.d; g = st.ghost; f = []; i = g['i']; nb = self.b//8
        keys = [k for k, o, n in m.vals] if m else []
        # iterators: every pointer into the points that the loop moves (before the loop is known: the ones not at begin/end are checked by use)
        for k in keys:
            v = st.mem[k[1]].cells[k[2]][1] if k[0] == 'cell' else fr.env[k[1]] if k[0] == 'phi' else None
            if isinstance(v, Ptr) and v.r == self.rid: f.append(('iterator at the last consumed point', d.rel('==', d.s(ex.offv(v.off)) - (i-1)*self.es)))
        f.append(('index at most the size', d.le(i, self.n)))
        sink = next((r for r in st.mem.values() if 'winding_dir_sink' in (r.tag or '') and not r.freed), None)
        if sink is None: raise ExecError('winding_dir_sink object not found')
        L = lambda o, n: ex.unundef(ex.load_at(st, sink.id, o, ty_int(n)))
        if True:
            x, y = self.el(ex, st, i-1); x0, y0 = self.el(ex, st, P(0))
            f.append(('first point', c_and(d.rel('==', d.s(L(0, self.b)) - x0), d.rel('==', d.s(L(nb, self.b)) - y0))))
            f.append(('previous point', c_and(d.rel('==', d.s(L(2*nb, self.b)) - x), d.rel('==', d.s(L(3*nb, self.b)) - y))))
            W = self.W; r = P(0)
            for w in range(W//64): r = r + d.u(L(4*nb + 8*w, 64))*(1 << (64*w))
            f.append(('running sum', d.rel('==', d.modu(r - g['S'], 1 << W))))
        return f

def wd_task(u, b):
    nw = b//32; es = b//4; lim = 1 << (b-2)
    def prove(R):
        ex, d = R.new('int'); st = ex.new_state(); n = d.atom('n', 0, 1 << 40)
        rid = new_arr(ex, st, 'points', es, {0: (b//8, (-lim+1, lim-1)), b//8: (b//8, (-lim+1, lim-1))}, n, ro=True)
        inv = ShoeInv(rid, n, b); ex.cuts = [AutoCut(r'winding_dir<', inv)]
        ro = ex.new_region(st, 'out', 8*nw)
        fin = ex.run('wd%d' % b, [Ptr(rid, 0), IV(n, 64), Ptr(ro, 0)], st); R.finals(fin)
        for f in fin:
            r = P(0)
            for w in range(nw): r = r + d.u(ex.unundef(ex.load_at(f, ro, 8*w, ty_int(64))))*(1 << (64*w))
            if 'i' not in f.ghost:
                ex.oblige(f, 'wd: no points: zero', c_and(d.rel('==', n), d.rel('==', r))); continue
            i = f.ghost['i']; S = f.ghost['S']
            ex.oblige(f, 'wd: every point is consumed', d.rel('==', i - n))
            x, y = inv.el(ex, f, i-1); x0, y0 = inv.el(ex, f, P(0))
            ex.oblige(f, 'wd: closed shoelace sum', d.rel('==', d.modu(r - (S + (x-x0)*(y+y0)), 1 << (64*nw))))
        if not any('i' in f.ghost for f in fin): ex.oblige(st, 'the loop exit is reached', False)
    def conc(lib, inp):
        n = len(inp)//2; C = CT[b]; arr = (C*(2*n+2))(*inp); o = (ctypes.c_int64*(nw+1))()
        getattr(lib, 'wd%d' % b)(arr, ctypes.c_size_t(n), o)
        r = sum((o[w] % (1 << 64)) << (64*w) for w in range(nw)); W = 64*nw
        if r >> (W-1): r -= 1 << W
        e = sum(inp[2*i]*inp[2*((i+1) % n)+1] - inp[2*((i+1) % n)]*inp[2*i+1] for i in range(n)) if n else 0
        if r != e and abs(e) < 1 << (W-2): return {'failure': 'winding_dir<int%d>(%s) = %d, expected %d' % (b, inp, r, e)}
    def gen(rng, k):
        for _ in range(k):
            S = rng.choice([2, 5, 1000, lim-1 >> 4]); yield [rng.randint(-S, S) for _ in range(2*rng.randint(0, 7))]
    return Task('wd%d' % b, u, prove, conc, gen, ['winding_dir', 'winding_dir_sink'], 'int', n_quick=5000)

def check():
    src = HEAD
    us = []; T = []
    for b, c in ((32, 'int'), (64, 'i64')):
        nw = b//32
        src += 'extern "C" void tw%d(%s x1,%s y1,%s x2,%s y2,%s x3,%s y3,i64 *o){ putl(o,triangle_winding<%s>({x1,y1},{x2,y2},{x3,y3})); }\n' % ((b,) + (c,)*7)
        src += 'extern "C" void dot%d(%s x1,%s y1,%s x2,%s y2,i64 *o){ putl(o,int_dot<%s>({x1,y1},{x2,y2})); }\n' % ((b,) + (c,)*5)
        src += 'extern "C" void wd%d(const point_t<%s> *p,std::size_t n,i64 *o){ putl(o,winding_dir<%s>(std::span<const point_t<%s>>(p,n))); }\n' % (b, c, c, c)
    src += 'extern "C" void tw16(std::int16_t x1,std::int16_t y1,std::int16_t x2,std::int16_t y2,std::int16_t x3,std::int16_t y3,i64 *o){ putl(o,i64(triangle_winding<std::int16_t>({x1,y1},{x2,y2},{x3,y3}))); }\n'
    u = Unit('B01', src)
    def tasks():
        out = []
        for b in (32, 64, 16):
            nw = max(1, b//32)
            out.append(fn_task(u, 'tw%d' % b, coords('x1 y1 x2 y2 x3 y3', b), None, [('o', 64, nw)],
                lambda D, v, r, o, nw=nw: [('equals (p2-p1)x(p3-p1)', D.eq(lval(D, o.o, nw), orient(v, '1', '2', '3')))], funcs=['triangle_winding<int%d>' % b]))
            if b != 16: out.append(fn_task(u, 'dot%d' % b, coords('x1 y1 x2 y2', b, 1 << (b-1)), None, [('o', 64, nw)],
                lambda D, v, r, o, nw=nw: [('equals the dot product', D.eq(lval(D, o.o, nw), v.x1*v.x2 + v.y1*v.y2))], funcs=['detail::int_dot<int%d>' % b]))
        out += [wd_task(u, 32), wd_task(u, 64)]
        return out
    main('B01', [u], tasks, assumptions=['coordinates below 2^(bits-2) in magnitude, so that differences are representable'])
