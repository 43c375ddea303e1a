"""A06: conversions, assignment, array helpers: a value is reproduced modulo the width of its destination."""
from li import *
from fractions import Fraction

def spec_mod(bits, sg):
    def s(d, v, out, ex, st):
        return d.rel('==', d.modu(v[0] - ival(d, out, False), 1 << bits))
    return s

class PrefixArr:
    """a word array of symbolic length seen by a loop that visits elements in ascending order: the loop invariant
    speaks about the value of the words before the current index, the current element is a fresh word"""
    def __init__(self, name, n): self.name = name; self.n = n
    def clone(self): return self
    def idx(self, ex, st, p, size, what):
        if size != 8: raise ExecError('access of %d bytes' % size)
        o = ex.d.s(ex.offv(p.off)); i = ex.d.fdiv(o, 8)
        ex.oblige(st, '%s: aligned access to %s' % (what, self.name), ex.d.rel('==', o - i*8))
        ex.oblige(st, '%s: index within %s' % (what, self.name), c_and(ex.d.ge(i, 0), ex.d.lt(i, self.n)))
        ex.oblige(st, '%s: accesses the current element of %s' % (what, self.name), ex.d.rel('==', i - st.ghost['i']))
        return i
    def load(self, ex, st, p, t, size, what):
        self.idx(ex, st, p, size, what); k = ('el', self.name)
        if k not in st.ghost: st.ghost[k] = ex.d.fresh(self.name, 64)
        return [(st, st.ghost[k])]
    def store(self, ex, st, p, t, size, v, what):
        self.idx(ex, st, p, size, what)
        if self.name != 'out': ex.oblige(st, 'only the output array is written', False)
        st.ghost[('el', self.name)] = ex.unundef(v); return [st]

class ArCut:
    """invariant of ar_add/ar_sub at index i: A(i) +- B(i) == O(i) +- carry * 2^(64 i), 0 <= carry <= 1, i <= n"""
    def __init__(self, sgn): self.sgn = sgn; self.seen = False
    def match(self, ex, f, b, L): return re.search(r'large_ints::ar_(add|sub)\(', f.dem) and b in L
    def state(self, ex, st, fr, b):
        """index and carry: among the header's values, found by type and role (the index starts at 0 and is compared with n)"""
        phis = [i for i in fr.f.blocks[b] if i.op == 'phi']
        ints = [i for i in phis if i.t.k == 'int']
        if len(ints) != 2 or len(ints) != len(phis): raise ExecError('loop of %s has an unexpected shape' % fr.f.dem)
        cmpi = next((i for i in fr.f.blocks[b] if i.op == 'icmp'), None)
        idx = next((i for i in ints if cmpi and any(a.k == 'local' and a.v == i.dst for a in cmpi.a)), None)
        if idx is None: raise ExecError('index of the loop not found')
        car = next(i for i in ints if i is not idx)
        return idx, car
    def inv(self, ex, st, fr, b, what):
        d = ex.d; idx, car = self.state(ex, st, fr, b); g = st.ghost
        i = d.u(fr.env[idx.dst]); c = fr.env[car.dst]; c = d.b2i(c, 8) if isinstance(c, (bool, Cond)) else c; c = d.u(c)
        s = self.sgn
        ex.oblige(st, 'invariant %s: index counts the processed words' % what, d.rel('==', i - g['i']))
        ex.oblige(st, 'invariant %s: carry is 0 or 1' % what, c_and(d.ge(c, 0), d.le(c, 1)))
        ex.oblige(st, 'invariant %s: A %s B == O %s carry*2^(64i)' % (what, '+-'[s < 0], '+-'[s < 0]), d.rel('==', g['SA'] + g['SB']*s - g['SO'] - c*g['pw']*s))
        ex.oblige(st, 'invariant %s: i <= n' % what, d.le(i, g['n']))
    def arrive(self, ex, st, fr, b, back):
        d = ex.d; g = st.ghost
        if back:
            pw = g['pw']
            for k, el in (('SA', 'a'), ('SB', 'b'), ('SO', 'out')):
                e = g.pop(('el', el), None)
                if e is None: ex.oblige(st, 'element of %s visited at every index' % el, False); return []
                g[k] = g[k] + d.u(e)*pw
            g['i'] = g['i'] + 1; g['pw'] = pw*(1 << 64)
        else:
            g['SA'] = g['SB'] = g['SO'] = P(0); g['i'] = P(0); g['pw'] = P(1)
        self.inv(ex, st, fr, b, 'preserved' if back else 'established')
        if back or self.seen: return []
        self.seen = True
        t = st.copy(); f2 = t.frames[-1]; f2.visits = {}; idx, car = self.state(ex, t, f2, b); g = t.ghost
        i = d.atom('i', 0, (1 << 32)-1); c = d.atom('carry', 0, 1)
        g['i'] = i
        g['pw'] = d.atom('pw', 1); g['SA'] = d.atom('SA', 0); g['SB'] = d.atom('SB', 0)
        g['SO'] = g['SA'] + g['SB']*self.sgn - c*g['pw']*self.sgn
        t.add(d.le(i, g['n']))
        f2.env[idx.dst] = IV(i, ex.m.res(idx.t).bits); f2.env[car.dst] = IV(c, ex.m.res(car.t).bits) if ex.m.res(car.t).bits > 1 else d.rel('==', c - 1)
        g['carry'] = c
        return [t]

def ar_task(u, nm, sgn):
    def prove(R):
        cut = ArCut(sgn)
        ex, d = R.new('int', cuts=[cut])
        st = ex.new_state(); n = d.atom('n', 0, (1 << 32)-1); st.ghost['n'] = n
        ps = []
        for k in ('a', 'b', 'out'):
            r = ex.new_region(st, k, None); st.mem[r].arr = PrefixArr(k, n); ps.append(Ptr(r, 0))
        fin = ex.run(nm, [ps[2], ps[0], ps[1], IV(n, 32)], st)
        R.finals(fin)
        for f in fin:
            g = f.ghost
            ex.oblige(f, '%s: all n words are processed' % nm, d.rel('==', g['i'] - n))
        if not fin: ex.oblige(st, 'loop exit reached', False)
    def conc(lib, inp):
        a, b = inp; n = len(a); va = sum(x << (64*i) for i, x in enumerate(a)); vb = sum(x << (64*i) for i, x in enumerate(b))
        for alias in (0, 1, 2):
            A = cwords(a, 2); B = cwords(b, 2); O = cwords([0]*n, 2) if alias == 0 else A if alias == 1 else B
            getattr(lib, nm)(O, A, B, ctypes.c_uint(n))
            exp = words_of(va + sgn*vb, n)
            if list(O) != exp + [0xA5A5A5A5A5A5A5A5]*2: return {'failure': '%s n=%d %s,%s (output aliasing %d) gave %s, expected %s' % (nm, n, a, b, alias, [hex(x) for x in O][:n], [hex(x) for x in exp])}
    def gen(rng, k):
        for _ in range(k):
            n = rng.randint(1, 7); yield [gen_words(rng, n), gen_words(rng, n)]
    return Task(nm, u, prove, conc, gen, ['large_ints::ar_add' if sgn > 0 else 'large_ints::ar_sub'], 'int')

def fl_spec(kind):
    pr = 53 if kind == 'double' else 24
    def s(d, v, out, ex, st): raise NotImplementedError
    return s
def fl_task(u, nm, A, kind):
    pr = 53 if kind == 'double' else 24
    def prove(R):
        for sg in ((0, 1) if A.sg else (None,)):
            ex, d = R.new('int')
            st = ex.new_state(); pa, wa = mk_in(d, ex, st, A, 'a', sg)
            fin = ex.run(nm, [pa], st); R.finals(fin)
            R.from_model = lambda m, o, wa=wa, d=d: [[[d.evalp(m, d.u(w)) for w in wa]]]
            v = ival(d, wa, A.sg)
            for f in fin:
                r = f.rv.x; k = A.n + 1      # error: at most n conversions/additions, each 1/2 ulp
                e = 1 << (pr-1); av = v if not sg else -v; ar = r if not sg else -r
                ex.oblige(f, '%s: |result - value| <= %d*2^-%d*|value|' % (nm, k, pr), c_and(d.rel('<=', (ar - av)*(e*2) - av*k), d.rel('>=', (ar - av)*(e*2) + av*k)))
    def conc(lib, inp):
        f = getattr(lib, nm); f.restype = ctypes.c_double if kind == 'double' else ctypes.c_float
        v = pyval(inp[0], A); r = Fraction(float(f(cwords(inp[0])))) if True else 0
        if abs(r - v)*(1 << pr) > (A.n+1)*abs(v): return {'failure': '%s(%d) gave %s' % (nm, v, float(r))}
    return Task(nm, u, prove, conc, gen_args([A]), ['%s::operator %s' % (A.cpp, kind)], 'int')

LITS = ['0x0', '0x800000000000000000000000000000000000000000000001', '0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF', '0xC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DEC0DE', '0x7', '0x8', '0xF', '0x7FFFFFFFFFFFFFFF', '0x8000000000000000', '0xfedcba9876543210', '0x123456789abcdef01', '0x0123456789abcdef', '0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF', '0x7fffffffffffffffffffffffffffffff', '0xabcdef0123456789deadBEEFcafeF00d12', '0x000000000000000000001', '0x80000000000000000000000000000000000000000000000000000000000000001']
import re
COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
BI = ['i8', 'i16', 'i32', 'i64', 'n8', 'n16', 'n32', 'n64', 'i128', 'n128']
def check():
    specs = []
    for conf in CONFS:
        src = HEAD; L = []; bi = [b for b in BI if not (conf == 'noext' and '128' in b)]
        for a in COMP:
            A = T[a]
            for b in COMP + bi:
                B = T[b]; nm = 'cv_%s_%s' % (a, b); bits = B.bits
                src += 'extern "C" void %s(W*o,const W*a){ auto r = static_cast<%s>(in<%s>(a)); outv(o,r); }\n' % (nm, B.cpp, A.cpp)
                L.append((nm, [A], B, 'static_cast<%s>(%s)' % (B.cpp, A.cpp)))
                if b in bi:
                    nm = 'cv_%s_%s' % (b, a)
                    src += 'extern "C" void %s(W*o,const W*a){ %s r(in<%s>(a)); outv(o,r); }\n' % (nm, A.cpp, B.cpp)
                    L.append((nm, [B], A, '%s(%s)' % (A.cpp, B.cpp)))
                # assignment of a narrower source
                if B.count(A.sg) <= A.n and (A.sg or not B.sg):
                    nm = 'as_%s_%s' % (a, b)
                    src += 'extern "C" void %s(W*o,const W*a){ %s r; for(unsigned i=0;i<%d;++i) r[i]=0x5a5a5a5a5a5a5a5aul; auto &q = (r = in<%s>(a)); outv(o,q); if(&q != &r) o[0] ^= 1; }\n' % (nm, A.cpp, A.n, B.cpp)
                    L.append((nm, [B], A, '%s::operator=(%s)' % (A.cpp, B.cpp)))
            nm = 'cp_' + a
            src += 'extern "C" void %s(W*o,const W*a){ copy(o,in<%s>(a)); }\n' % (nm, A.cpp); L.append((nm, [A], T['u%d' % A.n], 'large_ints::copy<%s>' % A.cpp))
            if A.n > 1:
                nm = 'hl_' + a; B = T['u%d' % (A.n-1)]
                src += 'extern "C" void %s(W*o,const W*a){ %s r(a[%d],in<%s>(a)); outv(o,r); }\n' % (nm, A.cpp, A.n-1, B.cpp)
                L.append((nm, [A], A, '%s(hi,%s)' % (A.cpp, B.cpp)))
        F = []
        for a in COMP:
            for k in ('double', 'float'):
                nm = 'fl_%s_%s' % (a, k); src += 'extern "C" %s %s(const W*a){ return static_cast<%s>(in<%s>(a)); }\n' % (k, nm, k, T[a].cpp); F.append((nm, T[a], k))
        for i, l in enumerate(LITS):
            n = (len(l) - 2 + 15)//16; n += (len(l)-2) % 16 == 0 and int(l[2], 16) >= 8
            src += 'extern "C" void lit%d(W*o,const W*){ auto r = %s_compi; compound_int<%d> q(r); outv(o,q); o[%d] = sizeof r; }\n' % (i, l, n, n)
        for nm, fn in (('ar_p', 'ar_add'), ('ar_m', 'ar_sub')):
            src += 'extern "C" void %s(W*o,const W*a,const W*b,unsigned n){ %s(n,a,b,o); }\n' % (nm, fn)
        specs.append((Unit('A06', src, conf), L, F))
    def tasks():
        out = []; slow = []
        for u, L, F in specs:
            for nm, tys, B, fn in L:
                if B.bits < 64: ow, on = B.bits, 1
                else: ow, on = 64, B.n
                def spy(v, on=on, ow=ow): return [(v[0] >> (ow*i)) & ((1 << ow)-1) for i in range(on)]
                out.append(OpTask.make(u, nm, tys, on, spec_mod(B.bits, B.sg), None, spy, funcs=[fn], outw=ow))
            for i, l in enumerate(LITS):
                v = int(l, 16); n = (len(l) - 2 + 15)//16; n += (len(l)-2) % 16 == 0 and int(l[2], 16) >= 8
                out.append(OpTask.make(u, 'lit%d' % i, [T['u1']], n+1, (lambda v, n: lambda d, _, o, ex, st: d.rel('==', ival(d, o, True) - v - 8*n*2**(64*n)))(v, n), None, (lambda v, n: lambda _: words_of(v, n) + [8*n])(v, n), funcs=['literal %s' % l]))
            for nm, A, k in F: out.append(fl_task(u, nm, A, k))
            slow += [ar_task(u, 'ar_p', 1), ar_task(u, 'ar_m', -1)]
        return slow + group(out, 16)
    main('A06', [u for u, _, _ in specs], tasks, assumptions=['x86-64 little endian, 64-bit full_uint', 'hex literals: the digit strings listed in the check (the literal is computed at compile time)'])
