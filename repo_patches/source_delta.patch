From b60b88de31e620979127d77f0e1076fc18476ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 01/12] fix: isMexp: add the missing Mersenne exponent 24036583

---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From a1243753cf00ba1af26da2fbdbaf9dde75b536a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 02/12] fix: RMT64Search::setOneBit: shift a 64-bit one

---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From 1d2b755239026124fa38289eca3958f87f5a2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 03/12] fix: mtgp32::isZero: mask the oldest word with
 param.mask

---
 samples/MTGPDC/MTGP32search.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..c4da9af 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,10 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +305,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From c7e24084bb667e63b1694d6a432b5a837dac6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 04/12] fix: MTDC isZero: the partial word is the oldest one

---
 samples/MTDC/mt1.cpp | 4 ++--
 samples/MTDC/mt2.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..4d89817 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..d779b68 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
-- 
2.43.0


From 56f88ee6de0f92c81b77c6a1555a1c3bf6007aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 05/12] fix: tinymt32 copy constructor: keep the reverse output
 flag

---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From ed0ce4e7e51aecc6c0c2d2c2c8f34f7eb3d40d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 06/12] fix: calc_1pos: do not negate the minimum signed
 integer

---
 include/MTToolBox/util.hpp |  8 +++-----
 samples/dSFMTdc/w128.hpp   | 10 ++++------
 samples/sfmtdc/w128.hpp    | 10 ++++------
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 1e42906..e4dc1e3 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -316,8 +316,7 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int32_t y = (int32_t)x;
-        y = count_bit((uint32_t)(y & -y) - 1);
+        int y = count_bit((x & (~x + 1)) - 1);
         return 31 - y;
     }
 
@@ -350,9 +349,8 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int64_t y = (int64_t)x;
-        y = count_bit((uint64_t)(y & -y) - 1);
-        return 63 - static_cast<int>(y);
+        int y = count_bit((x & (~x + 1)) - 1);
+        return 63 - y;
     }
 
     /**
diff --git a/samples/dSFMTdc/w128.hpp b/samples/dSFMTdc/w128.hpp
index b419cca..42403ef 100644
--- a/samples/dSFMTdc/w128.hpp
+++ b/samples/dSFMTdc/w128.hpp
@@ -211,13 +211,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = static_cast<int64_t>(x.u64[1]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            int y = count_bit((x.u64[1] & (~x.u64[1] + 1)) - 1);
+            return 63 - y;
         } else {
-            int64_t y = static_cast<int64_t>(x.u64[0]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            int y = count_bit((x.u64[0] & (~x.u64[0] + 1)) - 1);
+            return 63 - y + 64;
         }
     }
 
diff --git a/samples/sfmtdc/w128.hpp b/samples/sfmtdc/w128.hpp
index d9cc2af..b336f4d 100644
--- a/samples/sfmtdc/w128.hpp
+++ b/samples/sfmtdc/w128.hpp
@@ -212,13 +212,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = (int64_t)x.u64[1];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            int y = count_bit((x.u64[1] & (~x.u64[1] + 1)) - 1);
+            return 63 - y;
         } else {
-            int64_t y = (int64_t)x.u64[0];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            int y = count_bit((x.u64[0] & (~x.u64[0] + 1)) - 1);
+            return 63 - y + 64;
         }
     }
 
-- 
2.43.0


From f3ba7411c32e9331acf35128f3570255100df772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 07/12] fix: fromGF2Vec, parity search: no shift by bit
 position -1

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 6 ++----
 include/MTToolBox/util.hpp                     | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..39a448f 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -398,10 +398,10 @@ namespace MTToolBox {
             mx.SetDims(word_width, size);
             U mask;
             int pos = bit_size<U>() - 1;
-            setZero(mask);
-            setBitOfPos(&mask, pos, 1);
             for (int i = 0; i < word_width; i++) {
                 int cnt = 0;
+                setZero(mask);
+                setBitOfPos(&mask, pos, 1);
                 for (int j = 0; j < word_width; j++) {
                     if (isZero(base[j].next)) {
                         continue;
@@ -414,8 +414,6 @@ namespace MTToolBox {
                     cnt++;
                 }
                 pos--;
-                setZero(mask);
-                setBitOfPos(&mask, pos, 1);
             }
             kernel(my, mx);
             if (my.NumRows() == 0) {
diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index e4dc1e3..0bfe0cd 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -655,17 +655,15 @@ namespace MTToolBox {
         U result;
         setZero(result);
         U mask;
-        setZero(mask);
         int bitSize = bit_size<U>();
         int pos = bitSize - 1;
-        setBitOfPos(&mask, pos, 1);
         for (int i = 0; i < bitSize; i++) {
+            setZero(mask);
+            setBitOfPos(&mask, pos, 1);
             if (!IsZero(value[i])) {
                 result |= mask;
             }
             pos--;
-            setZero(mask);
-            setBitOfPos(&mask, pos, 1);
         }
         return result;
     }
-- 
2.43.0


From 383ebdebe5ab9cc014c986d71739c28630c6f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 08/12] fix: xorshift128_init_by_array: store the computed
 state

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From a95ed4e12d2e15eb4a355ddc4af360c28c01fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 09/12] fix: dSFMT::isZero: test the 64-bit word that is output

---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From cacec0d7adc14478a2f9160008a089bda777f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 10/12] fix: mtgp_param: initialise the digest and copy its
 terminator

---
 samples/MTGPDC/mtgp_param.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..1673a91 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -37,6 +37,7 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            sha1[0] = 0;
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -58,7 +59,7 @@ namespace mtgp {
                 tp[i] = that.tp[i];
             }
 #if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
+            for (int i = 0; i <= SHA_DIGEST_LENGTH * 2; i++) {
                 sha1[i] = that.sha1[i];
             }
             sha1[0] = that.sha1[0];
-- 
2.43.0


From d741746eb2664a77084a4adbc09e509044043dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 11/12] fix: mtgp_param copies the digest string without
 USE_SHA as well

---
 samples/MTGPDC/mtgp_param.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 1673a91..c24562b 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -62,8 +62,8 @@ namespace mtgp {
             for (int i = 0; i <= SHA_DIGEST_LENGTH * 2; i++) {
                 sha1[i] = that.sha1[i];
             }
-            sha1[0] = that.sha1[0];
 #endif
+            sha1[0] = that.sha1[0];
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From ff3aebcd635d2bed38ed362e82d40c1c9274b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:58 +0000
Subject: [PATCH 12/12] fix: prepare tempering before evaluating a candidate in
 AlgorithmBestBits

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0

