"""A03: shifts equal multiplication/floor division by a power of two, for every amount below the width."""
from li import *

COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
def check():
    specs = []
    for conf in CONFS:
        src = HEAD; L = []
        for a in COMP:
            A = T[a]; W = 64*A.n
            for nm, code in (('shr', 'auto r = shift_right(x,n);'), ('shl', 'auto r = shift_left(x,(unsigned char)n);'), ('opshr', 'auto r = x >> (unsigned char)n;'), ('opshl', 'auto r = x << (unsigned char)n;'),
                             ('asshr', 'auto &r = (x >>= (unsigned char)n);'), ('asshl', 'auto &r = (x <<= (unsigned char)n);')):
                f = '%s_%s' % (nm, a)
                src += 'extern "C" void %s(W*o,const W*a,const unsigned *pn){ auto x = in<%s>(a); unsigned n = *pn; %s outv(o,r); }\n' % (f, A.cpp, code)
                L.append((f, A, 'r' in nm[-1]))
        specs.append((Unit('A03', src, conf), L))
    def tasks():
        out = []
        for u, L in specs:
            for f, A, right in L:
                W = 64*A.n
                def sb(d, v, outw, ex, st, A=A, W=W, right=right):
                    x = bval(d, v[0], A.sg, W); n = bval(d, v[1], False, W)
                    if right: e = (x >> n) if A.sg else z3.LShR(x, n)
                    else: e = x << n
                    return d.cnd(bval(d, outw, False, W) == e)
                def sp(v, A=A, W=W, right=right):
                    return words_of(v[0] >> v[1] if right else v[0] << v[1], A.n)
                def g(rng, n, A=A, W=W):
                    for k in list(range(W)):
                        for w in ([M64]*A.n, [1] + [0]*(A.n-1), [0]*(A.n-1)+[1 << 63], [0x123456789abcdef]*A.n):
                            yield [w, [k]]
                    for _ in range(n): yield [gen_words(rng, A.n), [rng.randrange(W)]]
                out.append(OpTask.make(u, f, [A, T['n32']], A.n, None, sb, sp, pre_bv=lambda d, v, W=W: [d.cnd(z3.ULT(v[1][0].z, W))], pre_py=lambda v, W=W: v[1] < W,
                    funcs=['large_ints::%s<%s>' % (f[:-3], A.cpp)], dom='bv', gen=g))
        return group(out, 3)
    main('A03', [u for u, _ in specs], tasks, assumptions=['x86-64 little endian, 64-bit full_uint', 'shift amount below the width of the operand (precondition, as for built-in shifts)'])
