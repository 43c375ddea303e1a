"""Planted bugs (source of seeded/)."""
B = []
def bug(id, prop, edits, demo, needs, breaks, flags=''):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags))
L = 'large_ints.hpp'
H = '#include "poly_ops/large_ints.hpp"\n#include <cstdio>\nusing namespace poly_ops::large_ints;\n'

bug('a01_builtin_left', 'A01', [(L, '''operator+(const T &a,const compound_xint<N,Signed> &b) noexcept {
    return add(b,a);''', '''operator+(const T &a,const compound_xint<N,Signed> &b) noexcept {
    return add(b,static_cast<full_xint<Signed>>(a));''')],
    H + '''int main() { compound_uint<2> b(1,5u); auto r = -1 + b; auto q = b + -1;
  int bad = !(r == q) || decltype(r)(r).size() != decltype(q)(q).size() || (bool)(q - r);
  if(bad) std::puts("-1 + x differs from x + -1"); return bad; }''',
    'a built-in integer on the left of an unsigned wide integer, with a negative value', 'the sum of a signed built-in and an unsigned wide integer')
bug('a01_neg_carry', 'A01', [(L, '''            return full_uint(0) - *this;
        } else {''', '''            compound_xint r;
            unsigned int i = 0;
            for(; i<N; ++i) r._data[i] = ~_data[i];
            if(!++r._data[0]) ++r._data[1];
            return r;
        } else {''')],
    H + '''int main() { compound_int<3> x(0,compound_uint<2>(0,0u)); x[2] = 5; auto r = -x; auto z = r + x; if(z) { std::puts("x + -x != 0"); return 1; } return 0; }''',
    'negating a value of three or more words whose two lowest words are both zero', 'negation is not exact')
bug('a02_diff_overwrite', 'A02', [(L, '''        out |= x;
        return r;''', '''        if constexpr(N > 2) out = x;
        else out |= x;
        return r;''')],
    H + '''int main() { compound_int<4> a(0), b(0); a[2] = b[2] = 7; a[1] = b[1] = 3; a[0] = 9; b[0] = 1; if(!(a > b) || (a <= b)) { std::puts("a > b not seen"); return 1; } return 0; }''',
    'comparing values of four or more words that differ only in low words', 'ordering reports values as equal')
bug('a02_bool_words', 'A02', [(L, '''        for(auto i : *this) {
            if(i != 0) return true;
        }
        return false;''', '''        if constexpr(N > 2) {
            return (_data[0] | _data[1] | _data[N-1]) != 0;
        } else {
            for(auto i : *this) {
                if(i != 0) return true;
            }
            return false;
        }''')],
    H + '''int main() { compound_uint<4> a(0u); a[2] = 1; if(!a) { std::puts("2^128 is false"); return 1; } return 0; }''',
    'converting a four-word value with only its third word set to bool', 'the zero test')
bug('a03_inplace_order', 'A03', [(L, '''        unsigned int i=0;
        for(; i<(N-1-word); ++i) {
            r[i] = _ext_shift_right(a[i+word],a[i+1+word],bit);
        }''', '''        unsigned int i=0;
        if(word && N > 2) {
            for(unsigned int j=N-word; j<N; ++j) r[j] = extended_word<Signed>(a[N-1]);
        }
        for(; i<(N-1-word); ++i) {
            r[i] = _ext_shift_right(a[i+word],a[i+1+word],bit);
        }''')],
    H + '''int main() { compound_int<3> a(0); a[2] = 0x123; a[1] = 7; auto v = a >> 70; a >>= 70; if(!(a == v)) { std::puts("x >>= 70 differs from x >> 70"); return 1; } return 0; }''',
    'the in-place right shift by at least one word of a value of three or more words', 'the shifted value of the in-place form')
bug('a03_left_word', 'A03', [(L, '''        while(i > word+1) {
            --i;
            r[i] = _ext_shift_left(a[i-word],a[i-1-word],bit);
        }''', '''        if(!bit) {
            while(i > word+(word > 2)) {
                --i;
                r[i] = a[i-word];
            }
            while(i > 0) {
                --i;
                r[i] = 0;
            }
            return;
        }
        while(i > word+1) {
            --i;
            r[i] = _ext_shift_left(a[i-word],a[i-1-word],bit);
        }''')],
    H + '''int main() { compound_uint<4> a(0u); a[0] = 77; auto v = a << 192; if(v[3] != 77) { std::puts("77 << 192 lost its low word"); return 1; } return 0; }''',
    'a left shift by exactly three (or more) whole words', 'the lowest moved word is lost')
bug('a04_mixed_ext', 'A04', [(L, '''            compound_uint<Na+Nb> b_tmp{b};''', '''            compound_uint<Na+Nb> b_tmp{compound_xint<Nb,signed_type<T>>(b)};''')],
    H + '''int main() { compound_uint<2> a(0,3u); compound_int<2> b(-2); auto r = a * b; if(!(r == -6)) { std::puts("3u * -2 != -6"); return 1; } return 0; }''',
    'an unsigned times a negative signed wide integer, both of two or more words', 'the sign extension of the second factor')
bug('a04_top_word', 'A04', [(L, '''            if constexpr(Signed) {
                offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));''', '''            if constexpr(Signed) {
                if constexpr(Na < 4) offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                else r -= shift<1>(compound_uint<Na-2>(compi_lo<Na-1>(b < 0 ? compound_uint<Na-1>(compi_lo<Na>(a)) : compound_uint<Na-1>(0u))));''')],
    H + '''int main() { compound_int<4> a(0); a[2] = 5; auto r = a * -3; auto q = -(a * 3); if(!(r == q)) { std::puts("a * -3 != -(a * 3)"); return 1; } return 0; }''',
    'a value of four or more words times a negative one-word value', 'sign correction drops one word')
bug('a05_shift_neg', 'A05', [(L, '''                if(shift < 0) {
                    for(unsigned int i=0; i<N; ++i) quot[i] = 0;
                    return;
                }''', '''                if(shift <= 0 && cmp(compound_uint<1>(a_ref[N-1]),compound_uint<1>(b_ref[N-1])) < 0) {
                    for(unsigned int i=0; i<N; ++i) quot[i] = 0;
                    return;
                }
                if(shift < 0) shift = 0;''')],
    H + '''int main() { for(full_uint lo = 0; lo < 4; ++lo) { compound_uint<2> a(6,lo), b(7,9u); auto r = divmod(a,b); if(r.quot || !(r.rem == a)) return 1; }
  compound_uint<3> a(0u), b(0u); a[2] = 0; a[1] = 5; b[2] = 1; auto r = divmod(a,b); if(r.quot || !(r.rem == a)) { std::puts("small/large"); return 1; }
  compound_int<3> c(0), e(0); c[1] = 3; c[2] = 1; e[2] = 1; e[1] = 2; auto s = divmod(c,e); if(!(s.quot == 1)) return 1; return 0; }''',
    'none: equivalent change', 'none')
B.pop()   # no observable effect
bug('a05_euclid_rem', 'A05', [(L, '''                if(r.rem) {
                    r.rem = abs(b) - r.rem;
                    r.quot = -1 - r.quot;''', '''                if(r.rem) {
                    r.rem = (sb ? abs(compound_int<1>(compi_hi<1>(b))) : abs(b)) - r.rem;
                    r.quot = -1 - r.quot;''')],
    '', '', '')
B.pop()   # type dependent; does not compile for every pair
bug('a05_sub_equal', 'A05', [(L, '''                        compound_uint<N> tmp = a_ref;
                        if(!subborrow<N>(tmp,b_ref)) {''', '''                        compound_uint<N> tmp = a_ref;
                        bool top = N > 2 && a_ref[N-1] == b_ref[N-1] && a_ref[N-2] == b_ref[N-2];
                        if(!subborrow<N>(tmp,b_ref) && !(top && shift == 0 && tmp)) {''')],
    H + '''int main() { compound_uint<3> a(0u), b(0u); a[2] = b[2] = 5; a[1] = b[1] = 6; b[0] = 1; a[0] = 4; auto r = divmod(a,b); if(!(r.quot == 1u) || !(r.rem == 3u)) { std::puts("quotient digit lost"); return 1; } return 0; }''',
    'a division of three-word values whose last partial remainder shares its two top words with the divisor', 'the last quotient digit is lost and the remainder is not below the divisor')
bug('a05_unmul_euclid', 'A05', [(L, '''        auto tmp = divmod(a,b,modulo_t::type<Mod>{});
        r.quot = compound_xint<Nr,Signed>{tmp.quot};''', '''        auto tmp = divmod(a,b,modulo_t::type<Nr == 2 ? modulo_t::truncate_v : Mod>{});
        r.quot = compound_xint<Nr,Signed>{tmp.quot};''')],
    H + '''int main() { compound_int<3> a(-7); compound_int<2> b(2); auto r = unmul<2>(a,b,modulo_t::euclid); if(!(r.quot == -4) || !(r.rem == 1)) { std::puts("euclidean unmul<2> truncates"); return 1; } return 0; }''',
    'euclidean narrowing division to a two-word quotient with operands of opposite sign', 'the rounding rule of unmul')
bug('a06_setlit', 'A06', [(L, '''sizeof...(C) == 0 && Nybble+1 == sizeof(full_uint)*2 && digit_value<C1>::value >= 8) {''', '''sizeof...(C) == 0 && sizeof...(Vals) < 2 && Nybble+1 == sizeof(full_uint)*2 && digit_value<C1>::value >= 8) {''')],
    H + '''int main() { auto a = 0x800000000000000000000000000000000000000000000001_compi; if(a.negative()) { std::puts("negative literal"); return 1; } return 0; }''',
    'a literal whose highest digit fills the third (or later) word with its top bit set', 'the literal denotes a negative value')
bug('a06_assign_ext', 'A06', [(L, '''    template<typename T> _POLY_OPS_FORCE_INLINE''' if 0 else '''    constexpr auto r = detail::skip_0x<C...>();
    return r;''', '''    constexpr auto r = detail::skip_0x<C...>();
    return r; ''')], '', '', '')
B.pop()
bug('a06_arsub_break', 'A06', [(L, '''        carry = detail::_subborrow(a[i],b[i],out[i],carry);
    }''', '''        if(!carry && !b[i]) { out[i] = a[i]; continue; }
        if(!b[i] && a[i]) { out[i] = a[i] - carry; carry = 0; continue; }
        if(!b[i]) { out[i] = a[i] - carry; carry = i+2 < n; continue; }
        carry = detail::_subborrow(a[i],b[i],out[i],carry);
    }''')],
    H + '''int main() { full_uint a[3] = {0,0,9}, b[3] = {1,0,0}, o[3]; ar_sub(3,a,b,o); if(o[0] != ~0ul || o[1] != ~0ul || o[2] != 8) { std::puts("borrow lost"); return 1; } return 0; }''',
    'an array subtraction where a borrow passes through a zero word just below the top word', 'the borrow is lost')
bug('a06_float_lo', 'A06', [(L, '''                if(negative()) {
                    return -detail::unsigned_to_float<T,N>(-(*this));''', '''                if(negative()) {
                    if constexpr(N > 2) return std::ldexp(static_cast<T>(static_cast<full_int>(hi())),static_cast<int>(sizeof(full_uint)*8*(N-1))) + detail::unsigned_to_float<T,N-1>(lo());
                    return -detail::unsigned_to_float<T,N>(-(*this));''')],
    H + '''int main() { compound_int<3> a(-5); if(static_cast<double>(a) != -5.0) { std::printf("(double)-5 = %g\\n",static_cast<double>(a)); return 1; } return 0; }''',
    'converting a small negative value of three or more words to floating point', 'catastrophic cancellation in the conversion')

C = 'clip.hpp'; BB = 'base.hpp'
HC = '#include "poly_ops/poly_ops.hpp"\n#include <cstdio>\n#include <cstdint>\nusing namespace poly_ops; using namespace poly_ops::detail;\n'
bug('b01_tw_fast64', 'B01', [(BB, """    return coord_ops<Coord>::mul(p2[0]-p1[0],p3[1]-p1[1]) -
        coord_ops<Coord>::mul(p3[0]-p1[0],p2[1]-p1[1]);""", """    if constexpr(sizeof(Coord) == 8 && std::is_integral_v<Coord>) {
        // small triangles don't need wide arithmetic
        auto small = [](Coord x) { return x > -(Coord(1) << 31) && x < (Coord(1) << 32); };
        Coord ax = p2[0]-p1[0], ay = p2[1]-p1[1], bx = p3[0]-p1[0], by = p3[1]-p1[1];
        if(small(ax) && small(ay) && small(bx) && small(by)) return static_cast<long_coord_t<Coord>>(ax*by - bx*ay);
    }
    return coord_ops<Coord>::mul(p2[0]-p1[0],p3[1]-p1[1]) -
        coord_ops<Coord>::mul(p3[0]-p1[0],p2[1]-p1[1]);""")],
    HC + """int main() { std::int64_t b = 4000000000; auto r = triangle_winding<std::int64_t>({0,0},{b,0},{0,b}); if(!(r > 0)) { std::puts("wrong orientation"); return 1; } return 0; }""",
    '64-bit coordinates with differences between 2^31 and 2^32', 'the orientation of three points')
bug('b01_wd_first', 'B01', [(BB, """        r += coord_ops<Coord>::mul(prev[0]-p[0],prev[1]+p[1]);
        prev = p;""", """        // the contour so far is closed, nothing to add until it is left again
        if(prev[0] == first[0] && p[1] == first[1]) { prev = p; return; }
        r += coord_ops<Coord>::mul(prev[0]-p[0],prev[1]+p[1]);
        prev = p;""")],
    HC + """int main() { point_t<int> p[] = {{0,2},{4,2},{4,5},{0,5}}; auto r = winding_dir<int>(std::span<point_t<int>>(p)); if(r != 24) { std::printf("%lld\\n",(long long)r); return 1; } return 0; }""",
    'a polygon with a horizontal edge leaving its first vertex (or its abscissa) at a non-zero height', 'the shoelace sum')
bug('b02_antiparallel', 'B02', [(C, """                p = s1.pa;
                at_edge[0] = at_edge_t::start;
                at_edge[1] = at_edge_t::end;
                return true;
            } else if(s1.b != s2.a) {
                p = s1.pb;""", """                p = s1.pa;
                at_edge[0] = at_edge_t::start;
                at_edge[1] = at_edge_t::end;
                return s1.a != s2.a;
            } else if(s1.b != s2.a) {
                p = s1.pb;""")],
    HC + """int main() { cached_segment<unsigned,int> s(4,1,{0,0},{3,0}), t(1,4,{3,0},{0,0}), u(1,9,{3,0},{0,0}), w(4,1,{3,0},{0,0}); std::minstd_rand g; point_t<int> p; at_edge_t e[2];
  cached_segment<unsigned,int> a(4,5,{0,0},{3,0}), b(5,7,{3,0},{0,0}), c(4,5,{3,0},{0,0});
  int bad = !intersects(a,b,p,std::span<at_edge_t,2>(e),g) || p != point_t<int>(0,0);
  cached_segment<unsigned,int> d(6,5,{0,0},{3,0}), f(6,8,{3,0},{0,0});
  bad |= !intersects(d,f,p,std::span<at_edge_t,2>(e),g);
  // vertices 6 at both ends: one segment leaves it where the other arrives
  cached_segment<unsigned,int> h(6,5,{0,0},{3,0}), k(5,6,{3,0},{0,0}); bad |= intersects(h,k,p,std::span<at_edge_t,2>(e),g);
  cached_segment<unsigned,int> m(2,3,{0,0},{3,0}), n(3,2,{3,0},{0,0}); bad |= intersects(m,n,p,std::span<at_edge_t,2>(e),g);
  return bad; }""",
    '', '')
B.pop()
bug('b02_flag_half', 'B02', [(C, """        if(p[0] == x1 && p[1] == y1) at_edge[0] = at_edge_t::start;
        else if(p[0] == x2 && p[1] == y2) at_edge[0] = at_edge_t::end;""", """        if(t < real_coord_t<Coord>(0.5)) {
            if(p[0] == x1 && p[1] == y1) at_edge[0] = at_edge_t::start;
        } else if(p[0] == x2 && p[1] == y2) at_edge[0] = at_edge_t::end;""")],
    HC + """int main() { std::minstd_rand g; int bad = 0;
  for(int i=0; i<40; ++i) for(int x=-3; x<4; ++x) for(int y=-3; y<4; ++y) for(int z=-2; z<3; ++z) { cached_segment<unsigned,int> s(0,1,{0,0},{1,1}), t(2,3,{x,y},{z,1}); if(t.pa == t.pb || z-x == 1-y) continue; point_t<int> p; at_edge_t e[2];
      if(!intersects(s,t,p,std::span<at_edge_t,2>(e),g)) continue;
      bool a = p == s.pa, b = p == s.pb, c = p == t.pa, d = p == t.pb;
      if((e[0] == at_edge_t::start) != a || (e[0] == at_edge_t::end) != b || (e[1] == at_edge_t::start) != c || (e[1] == at_edge_t::end) != d) bad = 1; }
  if(bad) std::puts("end flags do not match the point"); return bad; }""",
    'a short segment crossed in its first half where the crossing is rounded onto its far end', 'the end flag of the first segment is not set')
bug('b02_collinear_share', 'B02', [(C, """    if(lo1 == lo2 && hi1 == hi2) {
        if(d1a == d2a) {
            if(s1.a != s2.a) {
                if(s1.b != s2.b) {""", """    if(lo1 == lo2 && hi1 == hi2) {
        if(d1a == d2a) {
            if(s1.a == s2.b || s1.b == s2.a) return false; // connected
            if(s1.a != s2.a) {
                if(s1.b != s2.b) {""")],
    HC + """int main() { std::minstd_rand g; point_t<int> p; at_edge_t e[2]; cached_segment<unsigned,int> s(0,1,{0,0},{3,3}), t(1,2,{0,0},{3,3});
  if(!intersects(s,t,p,std::span<at_edge_t,2>(e),g)) { std::puts("coincident segments not reported"); return 1; } return 0; }""",
    'coincident segments of the same direction where the end vertex of one is the start vertex of the other', 'coincident segments are not reported as intersecting')
bug('b03_diff_nested', 'B03', [(C, """            } else if(wc == 0) {
                if(ws > 0) return line_state::keep_rev;
                return line_state::discard_rev;""", """            } else if(wc == 0) {
                if((ws & 3) > 0) return line_state::keep_rev;
                return line_state::discard_rev;""")],
    HC + """int main() { // a subject nested four deep, minus a square inside
  point_t<int> in[4][4], s[4] = {{0,0},{100,0},{100,100},{0,100}}; clipper<int> c;
  for(int k=0; k<4; ++k) { point_t<int> l[4]; for(int i=0; i<4; ++i) l[i] = point_t<int>(s[i][0]*(10-k)/10 + 5*k,s[i][1]*(10-k)/10 + 5*k); c.add_loops_subject(std::span<point_t<int>>(l)); }
  point_t<int> q[4] = {{45,45},{55,45},{55,55},{45,55}}; c.add_loops_clip(std::span<point_t<int>>(q));
  long long area = 0; auto r = c.execute<false>(bool_op::difference); for(auto &&l : r) { area += winding_dir<int>(std::vector<point_t<int>>(l.begin(),l.end())); }
  if(area != 2*(10000-100)) { std::printf("area*2 = %lld\\n",area); return 1; } return 0; }""",
    'difference with a clip line inside a subject whose winding number is a multiple of four', 'lines of the clip polygon are dropped')
bug('b03_dual_tie', 'B03', [(C, """    if(t == u) {
        std::get<0>(r) = std::get<0>(r) && lower_angle(ds,dp1,tie_breaker1);
        std::get<1>(r) = std::get<1>(r) && lower_angle(ds,dp2,tie_breaker2);
    }""", """    if(t == u) {
        bool low = lower_angle(ds,dp1,tie_breaker1);
        std::get<0>(r) = std::get<0>(r) && low;
        // lines at the same point and with the same direction are on the same side
        std::get<1>(r) = std::get<1>(r) && (dp1[0] == dp2[0] && dp1[1] == dp2[1] ? low : lower_angle(ds,dp2,tie_breaker2));
    }""")],
    HC + """int main() { auto [a,b] = dual_line_segment_up_ray_intersection<int>({0,0},{4,4},{0,0},2,{2,2},true,2,{2,2},false); auto x = line_segment_up_ray_intersection<int>({0,0},{4,4},{0,0},2,{2,2},true), y = line_segment_up_ray_intersection<int>({0,0},{4,4},{0,0},2,{2,2},false);
  if(a != x || b != y) { std::puts("the dual test differs from the single test"); return 1; } return 0; }""",
    'three coincident lines at one point, tested with different tie breakers', 'the line balance of coincident lines')
bug('b04_cmp_tie', 'B04', [(C, """                if(r) return r > 0;
                r = triangle_winding(s2.pa,s2.pb,s1.pb);
                if(r) return r > 0;
            }
        }

        return s1.b == s2.b ? (s1.a > s2.a) : (s1.b > s2.b);""", """                if(r) return r > 0;
                r = triangle_winding(s2.pa,s2.pb,s1.pb);
                if(r) return r > 0;
            }
        }

        // coincident lines in opposite order of their vertices belong to different sides
        if(s1.a == s2.b || s1.b == s2.a) return s1.a < s2.a;
        return s1.b == s2.b ? (s1.a > s2.a) : (s1.b > s2.b);""")],
    HC + """int main() { cached_segment<unsigned,int> s(5,6,{4,2},{8,0}), t(6,7,{4,2},{8,0}), u(7,5,{4,2},{8,0}), w(5,9,{4,2},{8,0}), x(6,5,{4,2},{8,0}); sweep_cmp<unsigned,int> cmp; int bad = 0;
  cached_segment<unsigned,int> y(1,5,{4,2},{8,0}), z(5,9,{4,2},{8,0}), v(0,7,{4,2},{8,0}); cached_segment<unsigned,int> *a[] = {&s,&t,&u,&x,&y,&z,&v}; for(auto p : a) for(auto q : a) for(auto r : a) { if(cmp(*p,*q) && cmp(*q,*r) && !cmp(*p,*r)) bad = 1; if(p != q && cmp(*p,*q) == cmp(*q,*p)) bad = 1; }
  if(bad) std::puts("not a total order"); return bad; }""",
    'three or more coincident lines, two of which are connected', 'the order of coincident lines is not transitive')
bug('b04_event_tie', 'B04', [(C, """        if(l1.ab.a != l2.ab.a) return l1.ab.a < l2.ab.a;
        return l1.ab.b < l2.ab.b;
    }
};

template<typename Index,typename Coord> class events_t {""", """        if(l1.ab.a != l2.ab.a) return l1.ab.a < l2.ab.a;
        if(l1.type == event_type_t::vbackward) return l1.ab.b < l2.ab.a;
        return l1.ab.b < l2.ab.b;
    }
};

template<typename Index,typename Coord> class events_t {""")],
    HC + """int main() { std::pmr::vector<loop_point<unsigned,int>> p(4,loop_point<unsigned,int>({0,0},0,bool_set::subject)); event_cmp<unsigned,int> cmp{p}; event<unsigned> a(segment<unsigned>(2,1),0,event_type_t::vbackward), b(segment<unsigned>(2,0),0,event_type_t::vbackward);
  if(cmp(a,a) || cmp(a,b) == cmp(b,a)) { std::puts("not an order"); return 1; } return 0; }""",
    'two vertical lines ending at the same vertex', 'the event order is not asymmetric')

PO = '#include "poly_ops/poly_ops.hpp"\n#include "poly_ops/offset.hpp"\n#include "poly_ops/polydraw.hpp"\n#include <cstdio>\n#include <vector>\n#include <cmath>\nusing namespace poly_ops;\nusing Loop = std::vector<point_t<int>>; using Loops = std::vector<Loop>;\n' \
  + 'static Loop box(int a,int b,int c,int d) { return {{a,b},{c,b},{c,d},{a,d}}; }\nstatic double area(const auto &ls) { double r = 0; for(auto &&l : ls) { std::vector<point_t<int>> v; for(auto p : l) v.push_back(p); for(std::size_t i=0; i<v.size(); ++i) { auto p = v[i], q = v[(i+1) % v.size()]; r += double(p[0])*q[1] - double(p[1])*q[0]; } } return r/2; }\n'
CF, OFF, PDF = 'clip.hpp', 'offset.hpp', 'polydraw.hpp'
bug('e01_mixed_set', 'E01', [(CF, """            } else if(wc == 0) {
                if(ws > 0) return line_state::keep_rev;""", """            } else if(wc == 0) {
                if(w > 0 && ws < 2) return line_state::keep_rev;""")],
    PO + """int main() { clipper<int> c; c.add_loops(Loops{box(0,0,40,40),box(1,1,39,39)},bool_set::subject); c.add_loops(Loops{box(10,10,20,20)},bool_set::clip); double a = area(c.execute<false>(bool_op::difference)); if(std::abs(a) != 1500) { std::printf("area %g\\n",a); return 1; } return 0; }""",
    'difference where the subject covers the clip polygon twice', 'the region of difference')
bug('e03_intr_on_event', 'E03', [(PDF, """    detail::whole_and_frac<Coord,2> intr_y;
    if(intersects(sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y) && intr_y >= y) {
        POLY_OPS_DRAW_DEBUG_LOG("checking intersection of {} and {}: {}",sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y);
        events.add_swap_event""", """    detail::whole_and_frac<Coord,2> intr_y;
    if(intersects(sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y) && intr_y > y) {
        POLY_OPS_DRAW_DEBUG_LOG("checking intersection of {} and {}: {}",sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y);
        events.add_swap_event""")],
    PO + """int main() { draw::rasterizer<int> r; Loops s{{{0,0},{8,8},{0,8},{8,0}}}; s.push_back({{4,2},{4,4},{3,4},{3,2}}); s[1] = {{4,0},{4,4},{5,4},{5,0}}; r.add_loops(s); long n = 0; r.draw(10,10,[&](unsigned a,unsigned b,unsigned){ n += b-a; });
  draw::rasterizer<int> q; Loops t{s[1],s[0]}; q.add_loops(t); long m = 0; q.draw(10,10,[&](unsigned a,unsigned b,unsigned){ m += b-a; }); std::printf("%ld %ld\\n",n,m); return n != m || n != 32; }""",
    'lines that cross exactly where another line between them ends', 'spans after the crossing')
bug('e03_even_odd_neg', 'E03', [(PDF, '        return winding % 2;', '        return winding % 2 == 1;')],
    PO + """int main() { draw::rasterizer<int> r; Loop a = box(1,1,5,5), b{a.rbegin(),a.rend()}; long n[2] = {0,0}; for(int k=0; k<2; ++k) { r.add_loops(Loops{k ? a : b}); r.draw(10,10,[&](unsigned x,unsigned y,unsigned){ n[k] += y-x; },draw::fill_rule_t::even_odd); } if(!n[0] || n[0] != n[1]) { std::printf("%ld %ld\\n",n[0],n[1]); return 1; } return 0; }""",
    'the even-odd rule on a loop of negative winding', 'loops of one direction are not drawn')
bug('e03_start_row', 'E03', [(PDF, 'return {*this,width,height,events.at_end() ? static_cast<Coord>(0) : events.current().ab.a_y(lpoints)};', 'return {*this,width,height,events.at_end() ? static_cast<Coord>(0) : std::max(events.current().ab.a_y(lpoints),static_cast<Coord>(-static_cast<Coord>(height)))};')],
    PO + """int main() { draw::rasterizer<int> r; Loops s{{{0,-30},{8,-10},{0,-20},{8,-40},{9,9},{0,9}}}; s = {{{0,-40},{20,-20},{20,9},{0,9}},{{20,-40},{0,-20},{0,9},{10,9}}}; r.add_loops(s); long n = 0; r.draw(30,10,[&](unsigned a,unsigned b,unsigned y){ n += b-a; }); std::printf("%ld\\n",n); return n != 85; }""",
    'crossing lines far above of the raster', 'lines keep the wrong order')
bug('e04_merge_last', 'E04', [(CF, """    case line_state::discard:
        if(pt) pt->point_merge(prev,next);
        break;""", """    case line_state::discard:
        // an intersection without points after it has no origins
        if(pt && prev != intr) pt->point_merge(prev,next);
        break;""")],
    PO + """int main() { origin_tracked_clipper<int,unsigned> c; Loops s{{{0,0},{100,0},{100,100},{50,100},{0,100}}}, t{{{50,100},{150,50},{150,150}},}; t = {{{100,50},{200,50},{200,150},{50,100}}}; c.add_loops(s,bool_set::subject); c.add_loops(t,bool_set::clip); bool f[9] = {}; for(auto &&l : c.execute<false>(bool_op::union_)) for(auto p : l) for(auto i : p.original_points) f[i] = true; for(int i=0; i<9; ++i) if(!f[i]) { std::printf("origin %d is lost\\n",i); return 1; } return 0; }""",
    'a discarded line that starts at an input point and ends at the next intersection', 'origins are lost')

SIF = 'strided_itr.hpp'
SH = '#include "poly_ops/strided_itr.hpp"\n#include "poly_ops/polydraw.hpp"\n#include <cstdio>\nusing namespace poly_ops;\n'
bug('b09_sub_neg', 'B09', [(SIF, """    strided_itr &operator-=(std::ptrdiff_t n) {
        ptr -= n * stride;
        return *this;""", """    strided_itr &operator-=(std::ptrdiff_t n) {
        // only the magnitude of the step counts going backwards
        for(; n > 0; --n) ptr -= stride;
        return *this;""")],
    SH + """int main() { char d[100]; detail::strided_itr<char> i{d+50,4}; i -= 3; i -= -5; if(*i != d+58) { std::puts("it -= -5 does not move"); return 1; } return 0; }""",
    'it -= n with a negative n', 'the position of the iterator')
bug('b09_post_dec', 'B09', [(SIF, 'return new_ptr(std::exchange(ptr,ptr-stride));', 'return new_ptr(std::exchange(ptr,ptr-(stride < 0 ? -stride : stride)));')],
    SH + """int main() { char d[100]; detail::strided_itr<char> i{d+50,-4}; auto j = i--; if(*i != d+54 || *j != d+50) { std::puts("it-- goes the wrong way"); return 1; } return 0; }""",
    'it-- with a negative stride', 'the position of the iterator')
bug('b09_index_range', 'B09', [(SIF, """    T *operator[](std::ptrdiff_t i) const {
        return ptr+i*stride;""", """    T *operator[](std::ptrdiff_t i) const {
        return ptr+static_cast<unsigned int>(i)*stride;""")],
    SH + """int main() { char d[100]; detail::strided_itr<char> i{d+50,4}; if(i[2] != d+58 || i[-2] != d+42) { std::puts("it[-2]"); return 1; } return 0; }""",
    'it[n] with a negative n', 'the element read')
DH = SH + 'using namespace poly_ops::draw::detail;\n'
bug('b10_cmp_neg', 'B10', [(PDF, """        auto r = a.whole <=> b;
        if(r != 0) return r;
        return a.frac <=> 0;""", """        auto r = a.whole <=> b;
        if(r != 0 || b < 0) return r;
        return a.frac <=> 0;""")],
    DH + """int main() { whole_and_frac<int,2> a{-3,fraction<int,2>(1l,2l)}, b{3,fraction<int,2>(1l,2l)}; if(!(a > -3) || !(b > 3) || a < -3) { std::puts("-2.5 > -3 is not seen"); return 1; } return 0; }""",
    'a crossing between two rows above of the raster (negative y) compared with the row', 'the order of a crossing and a scan line')
bug('b10_touch', 'B10', [(PDF, '    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;', '    } else if(t_i > 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;')],
    DH + """int main() { int bad = 0; for(int k=0; k<2; ++k) { cached_segment<int> s(0,1,{0,4},{8,8}), t(2,3,{-4,0},{4,8}), u(2,3,{4,8},{-4,0}); whole_and_frac<int,2> r{0}; if(intersects(s,k ? t : u,r)) bad = 1; } if(bad) std::puts("a touching line is reported as crossing"); return bad; }""",
    'a line that starts exactly on the inside of another line, turned one way', 'a touching point is taken for a crossing')
bug('b10_event_frac', 'B10', [(PDF, '                ord = l1.intr_y <=> l2.intr_y;', '                ord = l1.intr_y.whole <=> l2.intr_y.whole;')],
    DH + """int main() { std::vector<draw::detail::loop_point<int>> p(9); event_cmp<int> cmp{p}; event<int> a(swap_type{},draw::detail::segment(5,6),whole_and_frac<int,2>(3,fraction<int,2>(1l,4l))), b(swap_type{},draw::detail::segment(1,2),whole_and_frac<int,2>(3,fraction<int,2>(3l,4l))); if(!cmp(a,b) || cmp(b,a)) { std::puts("crossings out of order"); return 1; } return 0; }""",
    'two crossings between the same two rows', 'the order of crossings')

bug('b06_short_loop', 'B06', [(CF, '            while(points_added-- > 0) n.lpoints.pop_back();', '            while(--points_added > 0) n.lpoints.pop_back();')],
    PO + """int main() { clipper<int> c; Loops s{{{50,50},{90,90}},box(0,0,10,10)}; c.add_loops(s,bool_set::subject); long n = 0; double a = 0; Loops o; for(auto &&l : c.execute<false>(bool_op::union_)) { o.emplace_back(); for(auto p : l) { o.back().push_back(p); ++n; } } for(auto &l : o) for(std::size_t i=0; i<l.size(); ++i) { auto p = l[i], q = l[(i+1)%l.size()]; a += double(p[0])*q[1]-double(q[0])*p[1]; } std::printf("%ld points, area %g\\n",n,a/2); return n != 4 || std::abs(a) != 200; }""",
    'a loop of one or two points before another loop', 'a point of a vanished loop stays')
bug('b06_second_origin', 'B06', [(CF, '            pt->point_added(second_orig_i);\n', '            pt->point_added(first_orig_i + 1);\n')],
    PO + """int main() { origin_tracked_clipper<int,unsigned> c; Loops s{{{0,0},{0,0},{0,0},{9,0},{9,9},{0,9}}}; c.add_loops(s,bool_set::subject); int bad = 0; for(auto &&l : c.execute<false>(bool_op::union_)) for(auto p : l) for(auto i : p.original_points) if(s[0][i] != p.p) { std::printf("%d,%d has origin %u\\n",p.p[0],p.p[1],i); bad = 1; } return bad; }""",
    'the first point of a tracked loop is repeated', 'the origin of the second point')
bug('b06_next_index', 'B06', [(CF, '    n._next_orig_i = orig_i + 1;\n    started = true;', '    n._next_orig_i += 1;\n    started = true;')],
    PO + """int main() { clipper<int> c; auto s = c.add_loop(bool_set::subject); s({0,0},5); if(s.next_orig_i() != 6) { std::printf("next %zu\\n",std::size_t(s.next_orig_i())); return 1; } return 0; }""",
    'points added with an explicit origin index', 'the index of the next point')
bug('e02_closed_last', 'E02', [(OFF, '                        prev1 == first ? second : first);', '                        prev1 == first ? prev2 : first);')],
    PO + '''int main() { Loops s{{{500,500},{0,500},{0,0},{1000,0},{1000,1000},{500,1000},{500,500}}}; double w = 1e9; for(int r=0; r<2; ++r) { for(auto &&l : offset<false,int>(s,-100,5)) { std::vector<point_t<int>> v; for(auto p : l) v.push_back(p); for(std::size_t i=0; i<v.size(); ++i) { auto p = v[i], q = v[(i+1)%v.size()]; for(int k=0; k<=100; ++k) w = std::min(w,std::hypot(p[0]+(q[0]-p[0])*k/100.-500,p[1]+(q[1]-p[1])*k/100.-500)); } } if(w < 1e9) break; std::reverse(s[0].begin(),s[0].end()); } std::printf("%g\\n",w); return w < 95; }''',
    'an explicitly closed loop (first point repeated at the end) whose first point is a reflex corner, and a negative magnitude', 'the corner at the first point is cut')

TRI = 'static Loops rnd(unsigned s,int m,int k) { unsigned x = s*2654435761u + 1; auto g = [&]{ x = x*1664525u + 1013904223u; return int(x >> 16); }; Loops r; for(int i=0; i<3; ++i) { Loop l; int n = 3 + g()%2; for(int j=0; j<n; ++j) { int a = g()%m, b = g()%m; l.push_back({a*k,b*k}); } r.push_back(l); } return r; }\n'
bug('b07_both_mark', 'B07', [(CF, '                lpoints[s2_seg.b].state() = line_state::check;\n', '')],
    PO + TRI + """int main() { for(unsigned s=0; s<3000; ++s) { auto l = rnd(s,4,1000); clipper<int> c; c.add_loops(Loops{l[0],l[1]},bool_set::subject); c.add_loops(Loops{l[2]},bool_set::clip); double u[2] = {area(c.execute<false>(bool_op::difference)),0}; Loops m{l[2],l[1],l[0]}; clipper<int> d; d.add_loops(Loops{l[1],l[0]},bool_set::subject); d.add_loops(Loops{l[2]},bool_set::clip); u[1] = area(d.execute<false>(bool_op::difference)); if(u[0] != u[1]) { /* rounding */ if(std::abs(u[0]-u[1]) > 20000) { std::printf("%u %g %g\\n",s,u[0],u[1]); return 1; } } } return 0; }""",
    'two coincident lines of which no vertex is shared, the second reached first from its right end', 'a line is not checked for its side')
bug('b07_anchor_tracker', 'B07', [(CF, """        if(pt) pt->new_point_between(i,lpoints[i].next);

        lpoints[i].next = new_i;""", """        lpoints[i].next = new_i;
        if(pt) pt->new_point_between(i,lpoints[i].next);""")],
    PO + """static unsigned n = 0, bad = 0; struct T : i_point_tracker<unsigned> { void new_point_between(unsigned a,unsigned b) override { if(a >= n || b >= n) ++bad; ++n; } void point_merge(unsigned,unsigned) override {} void point_added(unsigned) override { ++n; } void reset() override {}
  i_point_tracker<unsigned> *callbacks() { return this; } point_t<int> get_value(unsigned,const point_t<int> &p) const { return p; } };
int main() { tclipper<int,unsigned,T> c; c.add_loops(Loops{box(0,0,90,90),box(100,0,140,40)},bool_set::subject); c.add_loops(Loops{box(10,10,50,50),box(45,45,80,80)},bool_set::clip); auto r = c.execute<true>(bool_op::difference); std::printf("%u\\n",bad); return bad != 0; }""",
    'tree output with nested loops and a point tracker', 'the tracker hears of a point between a point and itself')
T8 = """#include <set>
static unsigned n = 0, bad = 0; static std::set<unsigned> gone; struct T : i_point_tracker<unsigned> { void new_point_between(unsigned,unsigned) override { ++n; } void point_merge(unsigned a,unsigned) override { if(!gone.insert(a).second) ++bad; } void point_added(unsigned) override { ++n; } void reset() override {}
  i_point_tracker<unsigned> *callbacks() { return this; } point_t<int> get_value(unsigned i,const point_t<int> &p) const { if(gone.count(i)) ++bad; seen.insert(i); return p; } static inline std::set<unsigned> seen; };
static int go(bool every) { for(unsigned s=0; s<400; ++s) for(bool_op o : {bool_op::intersection,bool_op::union_,bool_op::difference,bool_op::xor_}) { auto l = rnd(s,5,200); gone.clear(); T::seen.clear(); n = 0; tclipper<int,unsigned,T> c; c.add_loops(Loops{l[0],l[1]},bool_set::subject); c.add_loops(Loops{l[2]},bool_set::clip); { auto r = c.execute<false>(o); for(auto &&a : r) for(auto &&q : a) (void)q; } if(every && (o == bool_op::intersection || o == bool_op::union_)) { if(gone.size()+T::seen.size() != n) ++bad; } if(bad) { std::printf("%u %d %zu %zu %u\\n",s,int(o),gone.size(),T::seen.size(),n); return 1; } } return 0; }
"""
bug('b08_single_merge', 'B08', [(CF, """    case line_state::discard:
        if(pt) pt->point_merge(prev,next);""", """    case line_state::discard:
        if(pt && prev != intr) pt->point_merge(prev,next);""")],
    PO + TRI + T8 + "int main() { return go(true); }",
    'a discarded line of one segment, and a point tracker', 'a discarded point is never merged into another: its origins get lost')
bug('b08_single_dir', 'B08', [(CF, """    case line_state::discard:
        if(pt) pt->point_merge(prev,next);""", """    case line_state::discard:
        if(pt && prev != intr) pt->point_merge(prev,next);
        else if(pt) pt->point_merge(next,prev);""")],
    PO + TRI + T8 + "int main() { return go(false); }",
    'a discarded line of one segment, and a point tracker', 'a point that stays is merged away')
