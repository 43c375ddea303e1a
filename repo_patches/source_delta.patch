From 96ffe183aa69d24cc400db47cc9b76b671501dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 01/29] fix: carry and borrow lost in the portable add/subtract
 fallback

With a carry coming in, out+carry wraps exactly when the sum is below the
carry, not when it is below an operand (0 + max + 1); likewise a borrow
occurs when the difference is below the incoming borrow.
---
 include/poly_ops/large_ints.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..2ca1311 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -569,26 +569,28 @@ namespace detail {
         out = a + b;
         carry_t cr = out < a;
         out += carry;
-        return (out < a) | cr;
+        return (out < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         a = a + b;
         carry_t cr = a < b;
         a += carry;
-        return (a < b) | cr;
+        return (a < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
         out = a - b;
         carry_t cr = out > a;
+        cr |= out < carry;
         out -= carry;
-        return (out > a) | cr;
+        return cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         full_uint prev_a = a;
         a = a - b;
         carry_t cr = a > prev_a;
+        cr |= a < carry;
         a -= carry;
-        return (a > prev_a) | cr;
+        return cr;
     }
 #endif
 
-- 
2.43.0


From 7b281e162348e0ebd49c933e82dc371582bd1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 02/29] fix: missing return in mul for an unsigned compound
 times a one-word operand

---
 include/poly_ops/large_ints.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 2ca1311..facccb2 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1095,6 +1095,8 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
             if constexpr(Signed) {
                 offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                 return compound_int<Na+1>{r};
+            } else {
+                return r;
             }
         } else {
             compound_uint<Na+Nb> a_tmp{a};
-- 
2.43.0


From f373f5fc9b834b45555a23374df6f677fbe913dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 03/29] fix: assigning a narrower compound integer left the low
 words unset

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index facccb2..b582a36 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
-- 
2.43.0


From a9c7d03c886c514c0d53ffc4f14bc5a7a2d21ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 04/29] fix: divmod remainder sign-extended a magnitude when
 the divisor is unsigned

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b582a36..8d826db 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1339,7 +1339,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             udivmod_shift_sub<N>(a_tmp.data(),b_tmp.data(),r.quot.data());
         }
 
-        r.rem = compound_int<int_count<false,U>>(a_tmp);
+        r.rem = compound_int<int_count<signed_,U>>(a_tmp);
 
         if constexpr(Mod == modulo_t::truncate_v) {
             if(sa ^ sb) r.quot = -r.quot;
-- 
2.43.0


From 1045da851988c8ea49f4c591dcd02e73c8079de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 05/29] fix: euclidean divmod and unmul were off by one for
 exact quotients of operands with opposite signs

---
 include/poly_ops/large_ints.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 8d826db..b3aa0b2 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1185,7 +1185,7 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem) {
                 r.quot -= 1;
                 r.rem = abs(b) - r.rem;
             }
@@ -1315,7 +1315,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem) {
                 r.rem = abs(b_tmp) - r.rem;
                 r.quot -= 1;
             }
@@ -1346,8 +1346,12 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                if(r.rem) {
+                    r.rem = abs(b) - r.rem;
+                    r.quot = -1 - r.quot;
+                } else {
+                    r.quot = -r.quot;
+                }
             }
         }
     } else {
-- 
2.43.0


From bca86c0e23a2cb4cc9653bbbf4ff1a52c6d21784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 06/29] fix: converting a compound integer of three or more
 words to floating point scaled the high words wrongly

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b3aa0b2..1830224 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>(sizeof(full_uint)*8*(N-1))) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From 9e419b11a95017dd64cd47d948b2df902c69e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 07/29] fix: converting a compound integer to a 128-bit
 built-in shifted by bytes instead of bits and lost the sign of one-word
 values

---
 include/poly_ops/large_ints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 1830224..4d3444f 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -283,9 +283,9 @@ namespace detail {
     template<integral T,typename U> T cast(const U &x) noexcept {
         constexpr unsigned int N = int_count<false,U>;
         if constexpr(N == 1) {
-            return static_cast<T>(compi_hi<1>(x));
+            return static_cast<T>(compi_hi<1,signed_type<U>>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
-- 
2.43.0


From 323c2b6171e92f3350690a0e16c30af4e65964db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 08/29] fix: large_ints::copy recursed without end and
 ar_add/ar_sub were defined non-inline in a header

---
 include/poly_ops/large_ints.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 4d3444f..052004e 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -833,8 +833,8 @@ making inline assembly unnecessary */
 
 template<typename T,unsigned int N=detail::int_count<false,T>>
 void copy(full_uint to[],const T &from) noexcept {
-    copy(to,compi_lo<N>(from));
-    to[N-1] = compi_hi<N>(from);
+    if constexpr(N > 1) copy(to,detail::compi_lo<N>(from));
+    to[N-1] = detail::compi_hi<N>(from);
 }
 
 template<typename T,typename U> auto add(const T &a,const U &b) noexcept {
@@ -869,13 +869,13 @@ template<typename T> auto abs(const T &x) noexcept {
     }
 }
 
-void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_add(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_addcarry(a[i],b[i],out[i],carry);
     }
 }
-void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
+inline void ar_sub(unsigned int n,const full_uint *a,const full_uint *b,full_uint *out) noexcept {
     detail::carry_t carry = 0;
     for(unsigned int i=0; i<n; ++i) {
         carry = detail::_subborrow(a[i],b[i],out[i],carry);
-- 
2.43.0


From cadced744899ecbcf600325e9494f23f9c216267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 09/29] fix: sized_int<1> did not compile

---
 include/poly_ops/large_ints.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 052004e..7d63e7b 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -193,7 +193,7 @@ namespace detail {
     template<typename T> struct type_val { using type=T; };
     template<std::size_t Size> auto _bltin_sized_int() noexcept {
         if constexpr(Size <= 1) { return type_val<std::int8_t>{}; }
-        if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
+        else if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
         else if constexpr(Size <= 4) { return type_val<std::int32_t>{}; }
         else if constexpr(Size <= 8) { return type_val<std::int64_t>{}; }
         else { return type_val<void>{}; }
-- 
2.43.0


From 47e1dddf6429e626d5b93f4da329c899885c58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 10/29] fix: the first point of a loop was dropped when equal
 to the last point of the previous loop

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..f4d6aa1 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2027,7 +2027,7 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
+    if(n.lpoints.size() > std::size_t(first_i) && prev == n.lpoints.back().data) return;
 
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
-- 
2.43.0


From 4eaedc8b7a85b4096754a5592f4c244f42acb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 11/29] fix: adding a loop of a single point read out of bounds

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index f4d6aa1..d34d90b 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2064,7 +2064,7 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        if(n.lpoints.size() == std::size_t(first_i) || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From 39f191349e247f5dcbed7b8cad1e1f03c9dfef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 12/29] fix: a loop explicitly closed by a repeated first point
 kept a zero-length line

---
 include/poly_ops/clip.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d34d90b..632cca5 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2051,9 +2051,11 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
-    prev = p;
-    prev_orig_i = orig_i;
+    if(!started || p != prev) {
+        if(started) finalize_prev();
+        prev = p;
+        prev_orig_i = orig_i;
+    }
     n._next_orig_i = orig_i + 1;
     started = true;
 }
-- 
2.43.0


From 2f61a02740453f8c5a9bcab8ce28fbfb9c4f5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 13/29] fix: postfix increment of proto_loop_iterator did not
 compile

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 632cca5..1dcc85d 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1611,7 +1611,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
-- 
2.43.0


From 7bfb7b5caa0f8cd2f8c07c3d4f28cf622202f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 14/29] fix: mini_flat_set::empty was inverted

---
 include/poly_ops/mini_flat_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..9f56511 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
-- 
2.43.0


From aef6503742c0829231f70c5c53634fbeab9ada12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 15/29] fix: inserting a second item into a mini_flat_set left
 its size at one

---
 include/poly_ops/mini_flat_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 9f56511..981194b 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -178,6 +178,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From b371026f93dfb94bc1d7ec524a296487aeeff4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 16/29] fix: rand_bool was defined non-inline in a header

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 1dcc85d..3a361a7 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -434,7 +434,7 @@ using rand_generator = std::minstd_rand;
 
 /* std::uniform_int_distribution(0,1) appears to behave differently between
 GCC's and MSVC's libraries, so it isn't used */
-bool rand_bool(rand_generator &rgen) {
+inline bool rand_bool(rand_generator &rgen) {
     constexpr auto mid = rand_generator::min() + (rand_generator::max() - rand_generator::min()) / 2;
     return rgen() > mid;
 }
-- 
2.43.0


From 86d1d854d12f68cbb3027bdce131eb1082d1cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 17/29] fix: should_fill was defined non-inline in a header

---
 include/poly_ops/polydraw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..ae60085 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -406,7 +406,7 @@ template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(cons
     return clamp(static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot),lo,hi);
 }
 
-bool should_fill(fill_rule_t rule,long winding) {
+inline bool should_fill(fill_rule_t rule,long winding) {
     switch(rule) {
     case fill_rule_t::non_zero:
         return winding != 0;
-- 
2.43.0


From aa8ea5ebeec628e96b3d3603b27d42d4c7bc32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 18/29] fix: the difference of strided iterators was not in
 units of the stride

---
 include/poly_ops/strided_itr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..951f443 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -75,7 +75,7 @@ struct strided_itr {
     }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return a.stride ? (a.ptr - b.ptr) / a.stride : 0;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From a6a18f1b669950a2b120d88fcfb74eccd8773b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 19/29] fix: strided iterators with a negative stride compared
 backwards

---
 include/poly_ops/strided_itr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 951f443..12d3338 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -79,7 +79,7 @@ struct strided_itr {
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.stride < 0 ? b.ptr <=> a.ptr : a.ptr <=> b.ptr;
     }
 
     friend auto operator==(const strided_itr &a,const strided_itr &b) {
-- 
2.43.0


From f5f3dcc2fdebe6df28330cf27091dbe6525d49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:11 +0000
Subject: [PATCH 20/29] fix: comparing a fraction with an integer for equality
 returned an ordering

---
 include/poly_ops/polydraw.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index ae60085..c03a9cd 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -63,7 +63,7 @@ struct fraction {
     }
     friend auto operator==(const fraction &a,T b) noexcept {
         assert(a.denom > 0);
-        return a.num <=> large_ints::mul(b,a.denom);
+        return a.num == large_ints::mul(b,a.denom);
     }
 };
 
-- 
2.43.0


From bb131cddc373af8bbdc61dd3a056371e4311aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 21/29] fix: tclipper::add_loops_subject and add_loops_clip did
 not compile

---
 include/poly_ops/clip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 3a361a7..c16a3bb 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2526,7 +2526,7 @@ public:
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::subject);
     }
 
     /**
@@ -2534,7 +2534,7 @@ public:
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::clip);
     }
 
     /**
-- 
2.43.0


From 56d32127a9e32892036818fd0a0a457247056192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 22/29] fix: the circle around a lone point lacked a vertex and
 was not a number for large arc steps

---
 include/poly_ops/offset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..3542730 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -153,12 +153,12 @@ Index offset_lone_point(
     // use at least 3 points to make a circle
     long lsteps = std::max(static_cast<long>(steps),3L);
 
-    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
-    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
+    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));
+    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(lsteps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
+    for(long i=0; i<lsteps; ++i) {
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
         sink(p + vround<Coord>(offset),next_orig_i);
     }
-- 
2.43.0


From 9dbb06d96d0e3d06027e054b25dfefb9c33bccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 23/29] fix: the rasterizer used references to events after
 adding events

---
 include/poly_ops/polydraw.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index c03a9cd..e66b34c 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -639,7 +639,8 @@ public:
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
                     && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
+                // this is a copy because adding events can invalidate references
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "SWAP {} and {} at {}",
@@ -652,7 +653,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                // this is a copy because adding events can invalidate references
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "BACKWARD {} at {}",
@@ -668,7 +670,8 @@ public:
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                // this is a copy because adding events can invalidate references
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "FORWARD {} at {}",
-- 
2.43.0


From 97ae8f8a93487c8830198bd5bc20346885b03f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:48 +0000
Subject: [PATCH 24/29] fix: lines crossing at an integer Y coordinate were not
 swapped until the next scan line

---
 include/poly_ops/polydraw.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index e66b34c..51cf758 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -218,7 +218,10 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* When events have the same Y coordinate, the lines that end there must be
+removed before the lines that cross there are swapped, and both must happen
+before new lines are inserted. */
+enum class event_type_t {backward,swap,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -669,6 +672,24 @@ public:
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
+            // lines that cross at exactly "y"
+            for(; !rast.events.at_end()
+                    && less_than_or_equal(rast.lpoints,rast.events.current(),y)
+                    && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
+            {
+                // this is a copy because adding events can invalidate references
+                auto e = rast.events.current();
+
+                POLY_OPS_DRAW_DEBUG_LOG(
+                    "SWAP {} and {} at {}",
+                    rast.sweep_nodes[e.ab.a].value,
+                    rast.sweep_nodes[e.ab.b].value,
+                    e.intr_y);
+
+                rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+
+                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
+            }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
                 // this is a copy because adding events can invalidate references
                 auto e = rast.events.current();
-- 
2.43.0


From f307f566afe8ac2895008d306bb26068373cedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:30 +0000
Subject: [PATCH 25/29] fix: three lines crossing at one point made the
 rasterizer swap them without end

---
 include/poly_ops/polydraw.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 51cf758..f6e0ddd 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -574,6 +574,14 @@ void rasterizer<Coord>::check_intersection_after_swap(
     if(intersects(sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y) && intr_y >= y) {
         POLY_OPS_DRAW_DEBUG_LOG("checking intersection of {} and {}: {}",sweep_nodes[s1].value,sweep_nodes[s2].value,intr_y);
         if(intr_y == y) {
+            /* when more than two lines cross at the same point, s1 and s2 may
+            have been swapped already, in which case s2 was in front of s1
+            before this point */
+            const auto &l1 = sweep_nodes[s1].value;
+            const auto &l2 = sweep_nodes[s2].value;
+            if(large_ints::mul<Coord,Coord>(l1.pb.x()-l1.pa.x(),l2.pb.y()-l2.pa.y())
+                > large_ints::mul<Coord,Coord>(l2.pb.x()-l2.pa.x(),l1.pb.y()-l1.pa.y())) return;
+
             POLY_OPS_DRAW_DEBUG_LOG(
                 "IMMEDIATE SWAP {} and {}",
                 sweep_nodes[s1].value,
-- 
2.43.0


From 7ba2b9f93c4db443ca7c131bbf18918ed52e09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 26/29] fix: points added for tree output were not reported to
 the point tracker

---
 include/poly_ops/clip.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index c16a3bb..67a18bf 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1827,7 +1827,7 @@ template<coordinate Coord,std::integral Index=std::size_t> class clipper {
         Index s2,
         i_point_tracker<Index> *pt);
     void add_fb_events(Index sa,Index sb);
-    Index insert_anchor_point(Index i);
+    Index insert_anchor_point(Index i,i_point_tracker<Index> *pt);
     void do_op(bool_op op,i_point_tracker<Index> *pt,bool TreeOut);
 
     template<point_range<Coord> R> void _add_loop(R &&loop,bool_set cat,i_point_tracker<Index> *pt) {
@@ -2316,11 +2316,15 @@ void clipper<Coord,Index>::calc_line_bal(bool_op op) {
 }
 
 template<coordinate Coord,std::integral Index>
-Index clipper<Coord,Index>::insert_anchor_point(Index i) {
+Index clipper<Coord,Index>::insert_anchor_point(Index i,i_point_tracker<Index> *pt) {
     if(!(lpoints[lpoints[i].next].state() & detail::line_state::anchor)) {
         Index new_i = Index(lpoints.size());
         lpoints.push_back(lpoints[i]);
         lpoints.back().state() = detail::line_state::anchor_undef;
+
+        // the point tracker needs to know about every element of "lpoints"
+        if(pt) pt->new_point_between(i,lpoints[i].next);
+
         lpoints[i].next = new_i;
 
         POLY_OPS_DEBUG_LOG("Adding anchor point {} after {}",new_i,i);
@@ -2346,12 +2350,12 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
 
     if(tree_out) {
         for(auto &intr : samples) {
-            for(Index &i : intr.hits) i = insert_anchor_point(i);
+            for(Index &i : intr.hits) i = insert_anchor_point(i,pt);
         }
         for(auto &intr : samples) {
             follow_balance<Index,Coord>(
                 lpoints,
-                std::exchange(intr.p,insert_anchor_point(intr.p)),
+                std::exchange(intr.p,insert_anchor_point(intr.p,pt)),
                 breaks,pt);
         }
     } else {
-- 
2.43.0


From 78b8683ad936a979e07770278c0e39e544a19516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 27/29] fix: the origins of discarded points were moved away
 from points that are kept (difference)

---
 include/poly_ops/clip.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 67a18bf..01bf768 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1212,7 +1212,12 @@ void follow_balance(
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
         if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
+            /* when reversed, the loop goes from "next" to "intr" and "intr" can
+            still become part of the output */
+            if(pt) {
+                if(points[intr].state() & line_state::reverse) pt->point_merge(next,intr);
+                else pt->point_merge(prev,next);
+            }
         } else if(points[intr].state() & line_state::reverse) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
-- 
2.43.0


From 8a9d1d252f83680902f92aef09f1614c5761d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:42 +0000
Subject: [PATCH 28/29] fix: the origins of points after the offset of an open
 line were off by one

---
 include/poly_ops/offset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index 3542730..bd45143 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -261,6 +261,9 @@ void _add_offset_open(
                     -1,
                     prev1b,
                     prev2b);
+
+                // up to here, this was the index of the last point
+                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From 7eb5e731861b26d22f981079cdad9ee1f0f42588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:04 +0000
Subject: [PATCH 29/29] fix: a point without offset did not count for the
 origins of the points after it

---
 include/poly_ops/offset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index bd45143..76bc02f 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -143,7 +143,7 @@ Index offset_lone_point(
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return next_orig_i + 1;
 
     // we need to approximate a circle
 
-- 
2.43.0

