"""A04: multiplication is exact (full-width product) for every pair of widths and signs."""
from li import *
COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
BUILTIN = ['i8', 'i16', 'i32', 'i64', 'n32', 'n64', 'i128', 'n128']

def spec(d, v, out, ex, st):
    N = len(out)
    return d.rel('==', d.modu(v[0]*v[1] - ival(d, out, False), 1 << (64*N)))
def check():
    specs = []
    for conf in CONFS:
        src = HEAD; L = []
        builtin = [b for b in BUILTIN if not (conf == 'noext' and '128' in b)]
        lim = 6 if TIER == 'quick' else 8
        pairs = [(a, b) for a in COMP for b in COMP if T[a].n + T[b].n <= lim] + [(a, b) for a in COMP for b in builtin] + [(b, a) for a in ('s1', 's2', 'u2', 's3') for b in builtin] + [('i64', 'n64'), ('i64', 'i64'), ('n64', 'n64'), ('i32', 'i64')]
        for a, b in pairs:
            A, B = T[a], T[b]; sg = A.sg or B.sg; na, nb = A.count(sg), B.count(sg)
            N = max(na, nb) + min(na, nb)
            wide = B if nb > na else A
            if not wide.comp and max(na, nb) > 1 and min(na, nb) == 1: continue    # not instantiable at all (no matching helper): compile error for the user
            nm = 'mul_%s_%s' % (a, b)
            src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = mul(in<%s>(a),in<%s>(b)); outv(o,r); }\n' % (nm, A.cpp, B.cpp)
            src += 'extern "C" int %s_ty() { return tyinfo<decltype(mul(std::declval<%s>(),std::declval<%s>()))>::v; }\n' % (nm, A.cpp, B.cpp)
            L.append((nm, [A, B], N, 1000 + 2*N + sg, 'large_ints::mul<%s,%s>' % (A.cpp, B.cpp)))
            if (a, b) in (('s2', 's2'), ('s2', 'i64'), ('i64', 's2'), ('u2', 'u2'), ('s3', 's2'), ('u2', 'n64'), ('s1', 's1')):
                nm = 'op' + nm
                src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = in<%s>(a) * in<%s>(b); outv(o,r); }\n' % (nm, A.cpp, B.cpp)
                L.append((nm, [A, B], N, None, 'operator*(%s,%s)' % (A.cpp, B.cpp)))
        # products of built-ins narrower than a word: sized_int of the combined size
        for a, b, w in (('i8', 'i8', 2), ('i16', 'i16', 4), ('i32', 'i32', 8), ('i16', 'i32', 8), ('i8', 'i16', 4)):
            A, B = T[a], T[b]; nm = 'mul_%s_%s' % (a, b)
            src += 'extern "C" void %s(W*o,const W*a,const W*b){ std::int64_t r = mul(in<%s>(a),in<%s>(b)); outv(o,r); }\n' % (nm, A.cpp, B.cpp)
            L.append((nm, [A, B], 1, None, 'large_ints::mul<%s,%s>' % (A.cpp, B.cpp)))
        specs.append((Unit('A04', src, conf), L))
    def tasks():
        out = []
        for u, L in specs:
            for nm, tys, N, ti, fn in L:
                out.append(OpTask.make(u, nm, tys, N, spec, None, (lambda N: lambda v: words_of(v[0]*v[1], N))(N), funcs=[fn], tinfo=ti, timeout=60000, split=True, contracts=[MUL1X1] if u.conf == 'noext' and nm not in ('mul_s1_s1', 'mul_u1_u1') else []))   # those two prove the contract of mul1x1
        return group(out, 4)
    main('A04', [u for u, _ in specs], tasks, assumptions=['x86-64 little endian, 64-bit full_uint'])
