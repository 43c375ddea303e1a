"""A01: addition, subtraction and negation are exact modulo the result width."""
from li import *

def spec(sgn):
    def s(d, v, out, ex, st):
        N = len(out)
        e = v[0] + v[1] if sgn == '+' else v[0] - v[1] if sgn == '-' else -v[0]
        return d.rel('==', d.modu(e - ival(d, out, False), 1 << (64*N)))
    return s
def spy(sgn, N):
    def s(v):
        e = v[0] + v[1] if sgn == '+' else v[0] - v[1] if sgn == '-' else -v[0]
        return words_of(e, N)
    return s

COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
BUILTIN = ['i8', 'i16', 'i32', 'i64', 'n8', 'n32', 'n64', 'i128', 'n128']
def check():
    units = []; specs = []
    def make(conf):
        src = HEAD; L = []
        builtin = [b for b in BUILTIN if not (conf == 'noext' and '128' in b)]
        pairs = [(a, b) for a in COMP for b in COMP] + [(a, b) for a in COMP for b in builtin] + [(b, a) for a in ('s1', 's2', 'u2', 's3', 'u3') for b in builtin] + [('i64', 'n64'), ('i64', 'i64'), ('n64', 'n64')]
        for a, b in pairs:
            A, B = T[a], T[b]; sg = A.sg or B.sg; N = max(A.count(sg), B.count(sg))
            for op, fn in (('+', 'add'), ('-', 'sub')):
                nm = '%s_%s_%s' % (fn, a, b)
                src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = %s(in<%s>(a),in<%s>(b)); outv(o,r); }\n' % (nm, fn, A.cpp, B.cpp)
                src += 'extern "C" int %s_ty() { return tyinfo<decltype(%s(std::declval<%s>(),std::declval<%s>()))>::v; }\n' % (nm, fn, A.cpp, B.cpp)
                L.append((nm, [A, B], N, op, 1000 + 2*N + sg, 'large_ints::%s<%s,%s>' % (fn, A.cpp, B.cpp)))
                if (A.comp or B.comp) and (a[0] in 'su' and b[0] in 'su' and a == b or (a, b) in (('s2', 'i64'), ('i64', 's2'), ('s2', 'n64'), ('i32', 's2'), ('s2', 'i32'), ('u2', 's2'), ('i64', 'u2'), ('i32', 'u3'), ('u2', 'i64'), ('n64', 's2'), ('n8', 'u2'), ('i128', 'u2'), ('n128', 's3'), ('i128', 's3'), ('u3', 'i128'))):
                    nm2 = 'op' + nm
                    src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = in<%s>(a) %s in<%s>(b); outv(o,r); }\n' % (nm2, A.cpp, op, B.cpp)
                    src += 'extern "C" int %s_ty() { return tyinfo<decltype(std::declval<%s>() %s std::declval<%s>())>::v; }\n' % (nm2, A.cpp, op, B.cpp)
                    L.append((nm2, [A, B], N, op, 1000 + 2*N + sg, 'operator%s(%s,%s)' % (op, A.cpp, B.cpp)))
                # compound assignment (destination wide enough)
                if A.comp and B.count(A.sg) <= A.n and (A.sg or not B.sg):
                    nm3 = 'asg' + nm
                    src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = in<%s>(a); auto &q = (r %s= in<%s>(b)); outv(o,q); }\n' % (nm3, A.cpp, op, B.cpp)
                    L.append((nm3, [A, B], A.n, op, None, 'operator%s=(%s&,%s)' % (op, A.cpp, B.cpp)))
        for a in COMP:
            if a[0] == 's':
                nm = 'neg_' + a
                src += 'extern "C" void %s(W*o,const W*a){ auto r = -in<%s>(a); outv(o,r); }\nextern "C" int %s_ty() { return tyinfo<decltype(-std::declval<%s>())>::v; }\n' % (nm, T[a].cpp, nm, T[a].cpp)
                L.append((nm, [T[a]], T[a].n, 'n', 1000+2*T[a].n+1, '%s::operator-' % T[a].cpp))
        return Unit('A01', src, conf), L
    for conf in CONFS:
        u, L = make(conf); units.append(u); specs.append((u, L))
    def tasks():
        out = []
        for u, L in specs:
            # group the small functions: one task per 12 wrappers keeps process overhead low
            for nm, tys, N, op, ti, fn in L:
                pre = None
                if op == 'n' and tys[0].n == 1:    # -INT64_MIN is undefined for the built-in negation it uses
                    pre = 1
                out.append(OpTask.make(u, nm, tys, N, spec(op), None, spy(op, N), funcs=[fn], tinfo=ti))
        return group(out)
    main('A01', units, tasks, assumptions=['x86-64 little endian, 64-bit full_uint'], trusted=[])
