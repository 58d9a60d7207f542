From e6c20dc7ee8fb3188623e664186a85b555bf005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 01/24] fix: bits::cnt32 returned a wrong count for words with
 many set bits

The nibble sums were added up in four bits, so that e.g.
cnt32(0xffffffff) was 1 instead of 32.
---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..00d4b6e 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0f0f0f0f;
+    return (0x01010101*x >> 24);
 }
 
 
-- 
2.43.0


From e6d95ec34c38af6937747bfaeb560a3fb18e261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 02/24] fix: int_vector kept an allocation without padding word
 when resized to a multiple of 64 bits

memory_manager::resize allocates one word more than the vector needs if its
size is a multiple of 64 (rank structures read it), but reallocated only if
the number of needed words changed: bit_vector v(100); v.resize(128) left the
padding word outside the allocation.
---
 include/sdsl/memory_management.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..46178cb 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -345,7 +345,8 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            // one word more than needed is allocated if the size is a multiple of 64
+            bool do_realloc = ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
-- 
2.43.0


From d8060cff311906dc162c388c715f1c69c3c93b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 03/24] fix: int_vector::operator== ignored the width

Vectors of the same bit size but different widths (hence different lengths)
compared equal, contrary to the documentation of the operator.
---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..9d8de37 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1452,6 +1452,8 @@ bool int_vector<t_width>::operator==(const int_vector& v)const
         return false;
     if (bit_size() != v.bit_size())
         return false;
+    if (width() != v.width())
+        return false;
     if (empty())
         return true;
     const uint64_t* data1 = v.data();
-- 
2.43.0


From 3762b1277a878029564695bc8493e2ceb3dbe25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 04/24] fix: util::set_to_value shifted by 64 bits for 64-bit
 integers

---
 include/sdsl/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..633bd92 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -496,8 +496,8 @@ void util::set_to_value(t_int_vec& v, uint64_t k)
         vals++;
         if (offset >= 64) {
             vec[n+1] = 0;
-            vec[++n] = k >> (int_width-(offset-64));
             offset -= 64;
+            vec[++n] = offset ? k >> (int_width-offset) : 0;
         }
     } while (offset != 0);
 
-- 
2.43.0


From 6fdd40f791e8f86dd8879186a61f0e5209f7d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 05/24] fix: Fibonacci code of numbers whose lowest summand
 lies beyond the 64th position

The high word was shifted by a negative distance when the remainder became
zero before position 64.
---
 include/sdsl/coder_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1b4256f..9c0845a 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -211,7 +211,7 @@ inline bool fibonacci::encode(const int_vector1& v, int_vector2& z)
                         fibword_high <<= 1;
                         --j;
                     } else {
-                        fibword_high <<= (64-j);
+                        fibword_high <<= (j-64);
                         break;
                     }
                 }
@@ -272,7 +272,7 @@ inline void fibonacci::encode(uint64_t x, uint64_t*& z, uint8_t& offset)
                     fibword_high <<= 1;
                     --j;
                 } else {
-                    fibword_high <<= (64-j);
+                    fibword_high <<= (j-64);
                     break;
                 }
             }
-- 
2.43.0


From 167e3bdc5379b3e32bae74dc8a0a99f9175d00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/24] fix: elias_gamma::decode_prefix_sum with end index for
 values of 2^63 and more

The unary part of such a value fills the whole 64-bit buffer: the shift by
64 and the second refill of a full buffer were undefined.
---
 lib/coder_elias_gamma.cpp | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..c9beec9 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -72,32 +72,25 @@ fill_buffer:
 begin_decode:
             uint32_t psum = elias_gamma::data.prefixsum[w&0x0000FFFF];
             if (!psum or i+((psum>>16)&0x00FF) > n) {
-                if (w==0) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
+                uint16_t len_1 = 0;
+                if (w==0) {// all buffered bits belong to the unary part
+                    len_1 = buffered;
+                    w = (*d)>>read;
+                    buffered = 64-read;
+                    read = 0;
+                    ++d;
                     if (!w) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
+                        len_1 += buffered;
+                        w = *d;
+                        buffered = 64;
+                        ++d;
                     }
                 }
 //				assert(w>0);
-                uint16_t len_1 = bits::lo(w); // read length of length
-                buffered -= (len_1+1);
-                w >>= (len_1+1);
+                uint16_t zeros = bits::lo(w);
+                len_1 += zeros; // read length of length
+                buffered -= (zeros+1);
+                w = (zeros < 63) ? w >> (zeros+1) : 0;
                 if (len_1 > buffered) {// buffer is not full
                     w |= (((*d)>>read)<<buffered);
                     if (read >= buffered) {
-- 
2.43.0


From baee8c0e3fcef9b7b2d6a105b7e143ffae692642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 07/24] fix: uint256_t shift to the left by 0 bits with native
 128-bit integers

---
 include/sdsl/uint256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..07e9b59 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,7 +157,7 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x)) >> 1);
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-- 
2.43.0


From 46293ff5f8e4c0a6cbd9941a216c968d3da0052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 08/24] fix: copies of louds_node referred to the number and
 position of the original

---
 include/sdsl/louds_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..62d69de 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From 875cfef5235b884b383440d992b3d241ca6429ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 09/24] fix: nn_dict_dynamic::next and prev shifted by 64 bits
 when the upper part of a node was empty

---
 include/sdsl/nn_dict_dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/nn_dict_dynamic.hpp b/include/sdsl/nn_dict_dynamic.hpp
index b3474e3..a6cab76 100644
--- a/include/sdsl/nn_dict_dynamic.hpp
+++ b/include/sdsl/nn_dict_dynamic.hpp
@@ -200,7 +200,7 @@ class nn_dict_dynamic
                     --v_node_position;
                     off = (v_node_position&0x3F)+1;
                     v_node_position >>= 6;
-                    node = m_tree[ v_node_position-m_offset[dep] ]>>off;
+                    node = off < 64 ? m_tree[ v_node_position-m_offset[dep] ]>>off : 0;
                 } else {
                     return size();
                 }
@@ -248,7 +248,7 @@ class nn_dict_dynamic
                     off = ((uint8_t)(v_node_position&0x3F))-1;
                     v_node_position >>= 6;
 
-                    node = m_tree[ v_node_position-m_offset[dep] ]<<(63-off);
+                    node = off < 64 ? m_tree[ v_node_position-m_offset[dep] ]<<(63-off) : 0;
                 } else {
                     return size();
                 }
-- 
2.43.0


From 679edcb58b8f1bd0ee8abdd67194566d66fa728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 10/24] fix: rmq_support_sparse_table wrote to a missing table
 for containers of two elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 9ae37dd4d49b6516f9226c495541268cfe92253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 11/24] fix: move constructors of succinct_byte_alphabet and
 int_alphabet did not compile (references left uninitialised)

---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 3722f0ea4a5d6d82ef5b56faf1d45b8c38c05939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 12/24] fix: wt_int, wm_int and symbol_lte/gte shifted by 64
 bits for symbols of 2^63 and above

---
 include/sdsl/wm_int.hpp       | 2 +-
 include/sdsl/wt_algorithm.hpp | 4 ++--
 include/sdsl/wt_int.hpp       | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..cceead5 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,7 +325,7 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (bits::lo_set[m_max_level] < c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..e193000 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,7 +325,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (sdsl::bits::lo_set[wt.max_level] < c) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
@@ -375,7 +375,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (sdsl::bits::lo_set[wt.max_level] < c) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..f87c1c9 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = m_max_level < 64 ? 1ULL<<(m_max_level) : 0;
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,7 +355,7 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (bits::lo_set[m_max_level] < c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
@@ -524,7 +524,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (bits::lo_set[m_max_level] < c) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
@@ -568,7 +568,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (bits::lo_set[m_max_level] < c) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
-- 
2.43.0


From b2c6909797f3963c1ca4d9b9f34417c4696826de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 13/24] fix: the inverse permutation of a copied wt_gmr
 referred to the original

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..a4d96f1 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 86f29976abef1e941fb8899552d4bb79f0889bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 14/24] fix: default constructed wt_gmr and wt_gmr_rs had an
 arbitrary size

---
 include/sdsl/wt_gmr.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index a4d96f1..660bc1a 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From 5d9645c506b3b4abffb7af18daacb3dc4084561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 15/24] fix: range_search_2d reported points below the value
 range and shifted by 64 bits for the largest symbols

---
 include/sdsl/wm_int.hpp | 7 +++----
 include/sdsl/wt_int.hpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cceead5..80b8731 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level]; // largest symbol of max_level bits
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index f87c1c9..0f933ae 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level]; // largest symbol of max_level bits
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From dba4a0f8cb0996e668c18f3ecad171421f1464c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 16/24] fix: wt_pc::path shifted by 64 bits when the tree has
 only one symbol

---
 include/sdsl/wt_pc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/wt_pc.hpp b/include/sdsl/wt_pc.hpp
index 9d8fb13..7a48f1b 100644
--- a/include/sdsl/wt_pc.hpp
+++ b/include/sdsl/wt_pc.hpp
@@ -842,7 +842,7 @@ class wt_pc
             uint64_t path_len = path >> 56;
             // reverse the path till we fix the ordering
             path = bits::rev(path);
-            path = path >> (64-path_len); // remove the length
+            path = path_len ? path >> (64-path_len) : 0; // remove the length
             return {path_len,path};
         }
 
-- 
2.43.0


From 7a206549c8b7019a8374e764609f05b529e16da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 17/24] fix: bwt.select of csa_wt called a missing member,
 traverse_csa_saisa::empty called itself

---
 include/sdsl/suffix_array_helper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From aad82e1f2adc7405664a790caacee7f519998259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 18/24] fix: moved csa_wt and csa_sada kept ISA samples that
 referred to the samples of the original

---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From 90a3b337c549781abe8ea8357092f79213950bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 19/24] fix: sa_bwt_sampling multiplied its samples, which are
 suffix array values, by the sampling density

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From 537c62fe3fe8c4f9713dd93df5e7f982d65cedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 20/24] fix: csa_sada with fuzzy ISA sampling looped nearly
 forever for text positions before the first sample

---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..5095ec2 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) { // sample wraps around
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From 27e978ac16f9b6959535ed6dba3de5b257ba8b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 21/24] fix: near_bwd_excess scanned one position twice and
 left one out at block borders that are no multiple of 8

---
 lib/bp_support_algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bp_support_algorithm.cpp b/lib/bp_support_algorithm.cpp
index 40a9a0c..e45ce26 100644
--- a/lib/bp_support_algorithm.cpp
+++ b/lib/bp_support_algorithm.cpp
@@ -281,7 +281,7 @@ near_bwd_excess(const bit_vector& bp, uint64_t i, bit_vector::difference_type re
         excess += excess::data.word_sum[((*(b+(j>>6)))>>(j&0x3F))&0xFF];
     }
     excess -= 8;
-    for (difference_type j=std::min(l, r); j > begin; --j) {
+    for (difference_type j=std::min(l, r)-1; j >= begin; --j) {
         if (bp[j])
             ++excess;
         else
-- 
2.43.0


From 811da03af5b48c674feb1073d7730d789be5368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 22/24] fix: bp_support_g::rmq and rmq_open for a closing right
 border returned wrong positions

---
 include/sdsl/bp_support_g.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..54ea547 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r) + 2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -543,16 +543,13 @@ class bp_support_g
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size()) // every opening parenthesis in [l..r] is closed in [l..r]
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
-- 
2.43.0


From 30da85e7d33aa6786066c3fc36ecfc7d7975dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 23/24] fix: bp_support_sada::bwd_excess(0, rel) (level_anc of
 the first node) reported no answer

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..b47e637 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return rel == -1 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From f86d0fe058810ebb688077b870f5b14ca9ceed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:59 +0000
Subject: [PATCH 24/24] fix: near_fwd_excess and near_bwd_excess read behind
 their look-up table for an excess difference of 8

---
 include/sdsl/bp_support_algorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/bp_support_algorithm.hpp b/include/sdsl/bp_support_algorithm.hpp
index b1cc13b..e065284 100644
--- a/include/sdsl/bp_support_algorithm.hpp
+++ b/include/sdsl/bp_support_algorithm.hpp
@@ -38,14 +38,14 @@ struct excess {
         // near_fwd_pos[(x+8)<<8 | w] contains the minimal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_fwd_pos[(8-(-8))*256];
+        uint8_t near_fwd_pos[(8-(-8)+1)*256];
 
         // Given an excess value of x in [-8,8] and a 8-bit
         // word w interpreted as parentheses sequence.
         // near_bwd_pos[(x+8)<<8 | w] contains the maximal position
         // p in [0..7] where the excess value x is reached, or 8
         // if x is not reached in w.
-        uint8_t near_bwd_pos[(8-(-8))*256];
+        uint8_t near_bwd_pos[(8-(-8)+1)*256];
 
         // Given a 8-bit word w. word_sum[w] contains the
         // excess value of w.
@@ -83,7 +83,7 @@ struct excess {
         uint16_t min_open_excess_info[256];
 
         impl() {
-            for (int32_t x = -8; x < 8; ++x) {
+            for (int32_t x = -8; x <= 8; ++x) {
                 for (uint16_t w=0; w < 256; ++w) {
                     uint16_t i = (x+8)<<8|w;
                     near_fwd_pos[i] = 8;
-- 
2.43.0

