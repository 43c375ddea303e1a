"""B09: strided iterators: position arithmetic, differences and order of iterators over interleaved coordinates, both signs of the stride."""
from geo import *
from B03 import iff

def check():
    src = HEAD + '''#include <poly_ops/strided_itr.hpp>
typedef poly_ops::detail::strided_itr<char> It;
extern "C" void mv(i64 o,i64 s,i64 k,i64 n,i64 *base,i64 *out) { char *b = reinterpret_cast<char*>(base); It x{b+o,s}; It y = x; int i = 0; auto P = [&](It z) { out[i++] = *z - b; out[i++] = z.stride; };
  P(y + n); P(n + y); P(y - n); y += n; P(y); y = x; y -= n; P(y); y = x; P(++y); P(y); y = x; P(--y); P(y); y = x; P(y++); P(y); y = x; P(y--); P(y); out[i++] = x[n] - b; out[i++] = s; }
extern "C" i64 df(i64 o,i64 s,i64 k,i64 n,i64 *base) { char *b = reinterpret_cast<char*>(base); It x{b+(o+k*s),s}, y{b+(o+n*s),s}; return x - y; }
extern "C" int od(i64 o,i64 s,i64 k,i64 n,i64 *base) { char *b = reinterpret_cast<char*>(base); It x{b+(o+k*s),s}, y{b+(o+n*s),s}; return int(x < y) + 2*int(x > y) + 4*int(x == y) + 8*int(x <= y) + 16*int(x >= y) + 32*int(x != y); }
extern "C" void bl(i64 n,i64 m,i64 cs,i64 ps,i64 ls,i64 c0,i64 *out) {
  static short d[1 << 16]; for(int i=0; i<(1 << 16); ++i) d[i] = short(i*40503u >> 3);
  auto R = blob_to_point_range_range<int,short>(d + c0,cs*2,ps*2,ls*2,n,m); out[0] = 1; i64 j = 0;
  if(std::ptrdiff_t(R.end() - R.begin()) != m) out[0] = 0;
  for(auto &&l : R) { i64 i = 0; if(std::ptrdiff_t(l.end() - l.begin()) != n) out[0] = 0; for(auto p : l) { const short *q = d + c0 + j*ls + i*ps; if(p[0] != q[0] || p[1] != q[cs]) out[0] = 0; if(l[i][1] != q[cs]) out[0] = 0; ++i; } if(i != n) out[0] = 0; ++j; }
  if(j != m) out[0] = 0; }
'''
    u = Unit('B09', src)
    L = 1 << 30
    PP = [Par('o', 64, -(1 << 61), 1 << 61), Par('s', 64, -L, L), Par('k', 64, -L, L), Par('n', 64, -L, L)]
    BASE = ('base', 64, 1)
    def tasks():
        def mpost(D, v, r, o):
            P, M = v.o + v.n*v.s, v.o - v.n*v.s; I, X = v.o + v.s, v.o - v.s
            exp = [('it + n', P), ('n + it', P), ('it - n', M), ('+=', P), ('-=', M), ('++it', I), ('it after ++it', I), ('--it', X), ('it after --it', X), ('it++', v.o), ('it after it++', I), ('it--', v.o), ('it after it--', X), ('it[n]', P)]
            out = []
            for i, (nm, e) in enumerate(exp):
                out.append(('%s: position' % nm, D.eq(o.out[2*i], e))); out.append(('%s: stride' % nm, D.eq(o.out[2*i+1], v.s)))
            return out
        def dhint(D, v, r, o):
            out = []
            for k, qr in list(D.fd.items()):
                if isinstance(k, tuple) and k[0] == 'tdiv':
                    for S in (v.s, -v.s):
                        for e in (qr[0] - (v.k - v.n) - 1, v.k - v.n - qr[0] - 1): out.append(D.mul_lemma(e, S))
            return out
        def opost(D, v, r, o):
            bit = lambda k: D.ne(D.modu(D.fdiv(r, 1 << k), 2), 0)
            lt, gt, eq = D.lt(v.k, v.n), D.gt(v.k, v.n), D.eq(v.k, v.n)
            return [('%s orders by the number of steps' % nm, iff(bit(i), c)) for i, (nm, c) in enumerate([('<', lt), ('>', gt), ('==', eq), ('<=', c_or(lt, eq)), ('>=', c_or(gt, eq)), ('!=', c_or(lt, gt))])]
        def ohint(D, v, r, o):
            K = v.k - v.n
            return [D.mul_lemma(e, S) for S in (v.s - 1, -v.s - 1) for e in (K - 1, -K - 1)] + [D.mul_lemma(e, S) for S in (v.s, -v.s) for e in (K, -K)]
        nz = lambda D, v: [D.ne(v.s, 0)]
        out = [fn_task(u, 'mv', PP, None, [BASE, ('out', 64, 28)], mpost, funcs=['strided_itr +, -, +=, -=, ++, --, []']),
               fn_task(u, 'df', PP, ('i', 64), [BASE], lambda D, v, r, o: [('the difference is the number of steps', D.eq(r, v.k - v.n))], pre=nz, hint=dhint, funcs=['strided_itr operator-(strided_itr)']),
               fn_task(u, 'od', PP, ('i', 32), [BASE], opost, pre=nz, hint=ohint, setup=lambda ex, D, st, v: [st.add(c) for c in ohint(D, v, None, None)], funcs=['strided_itr operator<=>, ==']),
               fn_task(u, 'bl', [Par('n', 64, 0, 20), Par('m', 64, 0, 20), Par('cs', 64, -3, 3), Par('ps', 64, -5, 5), Par('ls', 64, -100, 100), Par('c0', 64, 16000, 40000)], None, [('out', 64, 1)], lambda D, v, r, o: [('every element of the blob is read from its place', D.eq(o.out, 1))], pre=lambda D, v: [D.ne(v.ps, 0), D.ne(v.ls, 0)],
                       bounded='random strides up to 5 (point) and 100 (loop), up to 20 x 20 points', funcs=['blob_to_point_range_range'])]
        return out
    main('B09', [u], tasks, assumptions=['all positions lie in one object (positions below 2^62)', 'a range with stride zero is outside of the contract of difference and order'])
