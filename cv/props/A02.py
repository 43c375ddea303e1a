"""A02: comparisons and sign/magnitude queries agree with the mathematical values."""
from li import *

COMP = ['s1', 's2', 's3', 's4', 'u1', 'u2', 'u3', 'u4']
BUILTIN = ['i8', 'i16', 'i32', 'i64', 'n8', 'n32', 'n64', 'i128', 'n128']

def s_cmp(d, v, out, ex, st):
    a, b = v; o = d.u(out[0])
    return [('ordering equals the order of the values', c_and(c_iff(d.eq(o, 0), d.lt(a, b)), c_iff(d.eq(o, 1), d.eq(a, b)), c_iff(d.eq(o, 2), d.gt(a, b))))]
def s_rel(op):
    f = {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[op]
    return lambda d, v, out, ex, st: c_and(c_iff(d.eq(d.u(out[0]), 1), getattr(d, f)(v[0], v[1])), d.le(d.u(out[0]), 1))
import operator
PYOP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}

def check():
    specs = []
    for conf in CONFS:
        src = HEAD; L = []
        builtin = [b for b in BUILTIN if not (conf == 'noext' and '128' in b)]
        pairs = [(a, b) for a in COMP for b in COMP] + [(a, b) for a in COMP for b in builtin] + [(b, a) for a in ('s1', 's2', 'u2', 's3') for b in builtin]
        for a, b in pairs:
            A, B = T[a], T[b]
            nm = 'cmp_%s_%s' % (a, b)
            src += 'extern "C" void %s(W*o,const W*a,const W*b){ auto r = cmp(in<%s>(a),in<%s>(b)); o[0] = r < 0 ? 0 : r > 0 ? 2 : 1; }\n' % (nm, A.cpp, B.cpp)
            L.append((nm, [A, B], 1, s_cmp, lambda v: [0 if v[0] < v[1] else 2 if v[0] > v[1] else 1], 'large_ints::cmp<%s,%s>' % (A.cpp, B.cpp)))
            nm = 'eq_%s_%s' % (a, b)
            src += 'extern "C" void %s(W*o,const W*a,const W*b){ o[0] = eq(in<%s>(a),in<%s>(b)); }\n' % (nm, A.cpp, B.cpp)
            L.append((nm, [A, B], 1, s_rel('=='), lambda v: [int(v[0] == v[1])], 'large_ints::eq<%s,%s>' % (A.cpp, B.cpp)))
            if (a, b) in (('s2', 's2'), ('s2', 'i64'), ('u2', 'u2'), ('s3', 's2'), ('s2', 'u2'), ('s2', 'i32'), ('u3', 'n64'), ('s1', 's1'), ('u1', 'u1'), ('s1', 'u1')):
                for op in PYOP:
                    nm = 'rel%d_%s_%s' % (list(PYOP).index(op), a, b)
                    src += 'extern "C" void %s(W*o,const W*a,const W*b){ o[0] = in<%s>(a) %s in<%s>(b); }\n' % (nm, A.cpp, op, B.cpp)
                    L.append((nm, [A, B], 1, s_rel(op), (lambda f: lambda v: [int(f(v[0], v[1]))])(PYOP[op]), 'operator%s(%s,%s)' % (op, A.cpp, B.cpp)))
        for a in COMP:
            A = T[a]; W = 64*A.n
            for nm, expr, si, sp in [
                ('bool', 'static_cast<bool>(x)', lambda d, v, out, ex, st: c_iff(d.eq(d.u(out[0]), 1), d.ne(v[0], 0)), lambda v: [int(v[0] != 0)]),
                ('neg', 'negative(x)', lambda d, v, out, ex, st: c_iff(d.eq(d.u(out[0]), 1), d.lt(v[0], 0)), lambda v: [int(v[0] < 0)]),
                ('negm', 'x.negative()', lambda d, v, out, ex, st: c_iff(d.eq(d.u(out[0]), 1), d.lt(v[0], 0)), lambda v: [int(v[0] < 0)]),
            ]:
                f = '%s_%s' % (nm, a)
                src += 'extern "C" void %s(W*o,const W*a){ auto x = in<%s>(a); o[0] = %s; }\n' % (f, A.cpp, expr)
                L.append((f, [A], 1, si, sp, '%s(%s)' % (expr, A.cpp)))
            if a[0] == 'u':
                def sclz(W):
                    def s(d, v, out, ex, st):
                        n = d.concrete(out[0])
                        if n is None: return False
                        if n == W: return d.eq(v[0], 0)
                        return c_and(d.ge(v[0], 1 << (W-1-n)), d.lt(v[0], 1 << (W-n)))
                    return s
                f = 'clz_%s' % a
                src += 'extern "C" void %s(W*o,const W*a){ auto x = in<%s>(a); o[0] = countl_zero(x); }\n' % (f, A.cpp)
                L.append((f, [A], 1, sclz(W), (lambda W: lambda v: [W - v[0].bit_length()])(W), 'large_ints::countl_zero<%s>' % A.cpp))
            def sabs(W, sg):
                def s(d, v, out, ex, st):
                    o = ival(d, out, False)
                    return c_and(c_imp(d.ge(v[0], 0), d.eq(o, v[0])), c_imp(d.lt(v[0], 0), d.eq(o, -v[0])))
                return s
            f = 'abs_%s' % a
            src += 'extern "C" void %s(W*o,const W*a){ auto r = abs(in<%s>(a)); outv(o,r); }\n' % (f, A.cpp)
            L.append((f, [A], A.n, sabs(W, A.sg), (lambda n: lambda v: words_of(abs(v[0]), n))(A.n), 'large_ints::abs<%s>' % A.cpp))
        specs.append((Unit('A02', src, conf), L))
    def tasks():
        out = []
        for u, L in specs:
            for nm, tys, N, si, sp, fn in L:
                pre = pyp = None
                if nm == 'abs_s1':     # |INT64_MIN| is not representable (std::abs on the single word)
                    pre = lambda d, v: [d.gt(v[0], -(1 << 63))]; pyp = lambda v: v[0] > -(1 << 63)
                out.append(OpTask.make(u, nm, tys, N, si, None, sp, pre_int=pre, pre_py=pyp, funcs=[fn]))
        return group(out)
    main('A02', [u for u, _ in specs], tasks, assumptions=['x86-64 little endian, 64-bit full_uint'])
