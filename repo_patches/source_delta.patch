From 4e00f9bc89c687f1dd78486f104cf87ff50c8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:15 +0000
Subject: [PATCH 01/61] fix: modulo_normalize of the minimal value of a signed
 type (infinite recursion)

---
 include/altruct/structure/math/modulo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..ef85b20 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -132,8 +132,10 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using U = typename std::make_unsigned<S>::type;
+    // negate as unsigned; `-v` would overflow for the minimal value of S
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(U(0) - U(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From 3cc785d99168e15d5f7eae910d9c728174c13c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:28 +0000
Subject: [PATCH 02/61] fix: garner with a remainder or an earlier modulus
 larger than the current modulus

---
 include/altruct/algorithm/math/modulos.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..c0f7b50 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -61,8 +61,8 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= castOf(y, vx[j].v);
+            y /= castOf(y, vap[j].M());
         }
         vx[i] = y;
     }
-- 
2.43.0


From 819711ac43274d58f0ad108fe1872151503ed357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 03/61] fix: primes() wrote, and prime_pi() read, one element
 past the documented pi(n) primes

---
 src/algorithm/math/primes.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..9f0918a 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -28,13 +28,12 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From b39211581b263eec0e91cedfa1f0b0d7b4990bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 04/61] fix: out of bounds accesses of the sieves for empty and
 one-element ranges

---
 src/algorithm/math/primes.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index 9f0918a..ba6d9f6 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -47,7 +47,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
+    if (n > 0) mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
     for (int i = 2; i * i < n; i++) {
@@ -76,8 +76,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -90,7 +90,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -107,7 +107,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
@@ -157,7 +157,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2;) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -166,7 +166,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From 90db18651cdb2afe69c4b68a36b0ef8275af8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:25 +0000
Subject: [PATCH 05/61] fix: bit_vector shifts by whole words, past the size,
 and bits shifted past the end

---
 include/altruct/structure/container/bit_vector.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..1447ed8 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -87,7 +87,7 @@ public:
 
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -99,14 +99,15 @@ public:
 
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
+        for (size_t i = wsz; i-- > q + 1; ) { // right to left, so that no source word gets overwritten
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
-        words[q] = (words[0] << r); // words[-1] is considered to be 0
+        if (q < wsz) words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        words[sz / L] &= first_bits(sz % L); // bits past the end are lost
         return *this;
     }
 
-- 
2.43.0


From 8d10babee61a949c90352941dafe43b509ca62a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 06/61] fix: binary_search_tree::clear leaked all nodes but the
 root, and freed the sentinel of an empty tree

---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From a1da1308eacf310767aaa08e71a69367533b5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:14 +0000
Subject: [PATCH 07/61] fix: lohi_map and sqrt_map [] returned the erased value
 instead of the default

---
 include/altruct/structure/container/lohi_map.h | 1 +
 include/altruct/structure/container/sqrt_map.h | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..4c89bf7 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -65,6 +65,7 @@ public:
     }
 
     int erase(const I& k) {
+        if (k <= max_lo_key) tbl_lo[k] = T(); // so that the default gets created upon the next access
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
     }
 };
diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..2259a87 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -60,7 +60,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,6 +160,7 @@ public:
     }
 
     int erase(const I& k) {
+        el(k) = T(); // so that the default gets created upon the next access
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
     }
 };
-- 
2.43.0


From ded694c710fc864b002e856f256cd1897dc2c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:51 +0000
Subject: [PATCH 08/61] fix: suffix_array read one letter past the string, and
 dereferenced the end of an empty one

---
 .../include/altruct/structure/container/suffix_array.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..75885f7 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,7 +45,7 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
+        alpha_t max_elem = (begin != end) ? *std::max_element(begin, end) : alpha_t(0);
         build_suffix_array(begin, end, (index_t)max_elem + 1);
     }
 
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From 0735a63b155acb278f4bd3a1ea47859a8163ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 09/61] fix: prim_spanning_tree re-parented vertices already in
 the tree

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..b2f09c5 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -24,14 +24,16 @@ template<typename E, typename W>
 std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
     res[root] = { root, 0 };
+    std::vector<char> done(g.size());
     std::set<std::pair<W, int>> q{ { 0, root } };
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        done[u] = 1;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (d_new < res[v].w && !done[v]) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From 3d76cffaf8dc542db0727d8cd34da4aec3004d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 10/61] fix: hungarian did not compile (unqualified min and
 max)

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From 98fe502417f150ebbb540b812896647745f36398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 11/61] fix: heavy_light_decomposition moved the vertices of
 edges but not their weights

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From e2c89b317d2c55823678c5e3d7d732c27566d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:48 +0000
Subject: [PATCH 12/61] fix: treap changed the priority of an existing node
 when a duplicate was inserted

---
 include/altruct/structure/container/treap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index 954ac88..d0896b7 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -265,6 +265,9 @@ public: // query & update
 protected:
     typename bst_t::iterator retrace_up(typename bst_t::iterator it) {
         if (it == tree.end()) return it;
+        // only a leaf can be a new node; changing the priority of an existing
+        // inner node (insertion of a duplicate) would violate the heap order
+        if (it.left() != tree.end() || it.right() != tree.end()) return it;
         it.balance() = rnd();
         while (it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
-- 
2.43.0


From 7980e4b995c1991dd056225f4f87a50ce7652710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 13/61] fix: treap moved a node down when only part of its
 multiplicity was erased

---
 include/altruct/structure/container/treap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/structure/container/treap.h b/include/altruct/structure/container/treap.h
index d0896b7..0e61958 100644
--- a/include/altruct/structure/container/treap.h
+++ b/include/altruct/structure/container/treap.h
@@ -259,6 +259,8 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        // a node that only loses some of its multiplicity stays where it is
+        if (DUP == bst_duplicate_handling::COUNT && cnt < it.count()) return tree.erase(it.it, cnt);
         return tree.erase(retrace_down(it.it), cnt);
     }
 
-- 
2.43.0


From e37ac40aa3c5dc76917633a1e1f710eb7d5ce7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 14/61] fix: series shift beyond the number of terms, powers of
 series with zero constant term

---
 include/altruct/structure/math/series.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..bf66b5e 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,6 +140,7 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
+        l = std::max(-this->N(), std::min(l, this->N()));
         if (l < 0) {
             polynom<T> t(p.c.begin() - l, p.c.end());
             t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
@@ -324,7 +325,8 @@ public:
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
             int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            if (a > 0 && (l == 0 || a > this->N())) return series(polynom<T>{ p.ZERO_COEFF }, this->N());
+            return shift(-l).pow(a).shift(l * int(a));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From cd226a2f0d40e4beb61590816ce829fdae74eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 15/61] fix: inverses table of length zero

---
 include/altruct/algorithm/math/ranges.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..b176e94 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -98,6 +98,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
-- 
2.43.0


From 5aee7e81433389146ab7cf311183d67b73c6c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:14 +0000
Subject: [PATCH 16/61] fix: Gaussian elimination of a singular matrix keeps
 the pivot rows together, so its rank is right

---
 include/altruct/structure/math/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..26ce173 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -173,26 +173,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            int r = rank++;
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From c2ebfc2fa91ad0a921f56bfa009bba0bd69139ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 17/61] fix: scaling in place by an own element or coefficient
 uses its old value throughout

---
 include/altruct/structure/math/clifford3.h | 12 ++++++------
 include/altruct/structure/math/matrix.h    |  4 ++--
 include/altruct/structure/math/pga.h       |  4 ++--
 include/altruct/structure/math/polynom.h   |  4 ++--
 include/altruct/structure/math/quadratic.h |  4 ++--
 include/altruct/structure/math/vector2d.h  |  4 ++--
 include/altruct/structure/math/vector3d.h  |  4 ++--
 include/altruct/structure/math/vectorNd.h  | 10 +++++-----
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..8523826 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -44,8 +44,8 @@ public:
     rotor& operator *= (const rotor& r) { return *this = *this * r; }
     rotor& operator /= (const rotor& r) { return *this = *this / r; }
 
-    rotor& operator *= (const T& t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
-    rotor& operator /= (const T& t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
+    rotor& operator *= (T t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
+    rotor& operator /= (T t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
 
     rotor  operator +  (const rotor& r) const { return rotor(s + r.s, yz + r.yz, zx + r.zx, xy + r.xy); }
     rotor  operator -  (const rotor& r) const { return rotor(s - r.s, yz - r.yz, zx - r.zx, xy - r.xy); }
@@ -141,8 +141,8 @@ public:
     vector& operator *= (const rotor<T>& r) { return *this = *this * r; }
     vector& operator /= (const rotor<T>& r) { return *this = *this / r; }
 
-    vector& operator *= (const T& t) { x *= t; y *= t; z *= t; w *= t; return *this; }
-    vector& operator /= (const T& t) { x /= t; y /= t; z /= t; w /= t; return *this; }
+    vector& operator *= (T t) { x *= t; y *= t; z *= t; w *= t; return *this; }
+    vector& operator /= (T t) { x /= t; y /= t; z /= t; w /= t; return *this; }
 
     vector   operator +  (const vector& v) const { return vector(x + v.x, y + v.y, z + v.z, w + v.w); }
     vector   operator -  (const vector& v) const { return vector(x - v.x, y - v.y, z - v.z, w - v.w); }
@@ -280,8 +280,8 @@ public:
     multivector& operator *= (const multivector& m) { return *this = *this * m; }
     multivector& operator /= (const multivector& m) { return *this = *this / m; }
 
-    multivector& operator *= (const T& t) { r *= t; v *= t; return *this; }
-    multivector& operator /= (const T& t) { r /= t; v /= t; return *this; }
+    multivector& operator *= (T t) { r *= t; v *= t; return *this; }
+    multivector& operator /= (T t) { r /= t; v /= t; return *this; }
 
     multivector  operator +  (const rotor<T>& r2) const { return multivector(r + r2, v); }
     multivector  operator -  (const rotor<T>& r2) const { return multivector(r - r2, v); }
diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index 26ce173..20a5dcf 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -117,7 +117,7 @@ public:
         return matrix(*this) *= rhs;
     }
 
-    matrix& operator *= (const T& s) {
+    matrix& operator *= (T s) {
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -137,7 +137,7 @@ public:
         return matrix(*this) *= rhs.inverse();
     }
 
-    matrix& operator /= (const T& s) {
+    matrix& operator /= (T s) {
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..35d04e3 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -91,8 +91,8 @@ vector3d<T> make_zero_vec(const T& v) { return vector3d<T>(zeroOf(v), zeroOf(v),
 #define PGA_CLOSED_OPERATORS_2(B, T, pl, pr)                                      \
     B& operator += (const B& rhs) { pl += rhs.pl; pr += rhs.pr; return *this; }   \
     B& operator -= (const B& rhs) { pl -= rhs.pl; pr -= rhs.pr; return *this; }   \
-    B& operator *= (const T& rhs) { pl *= rhs; pr *= rhs; return *this; }         \
-    B& operator /= (const T& rhs) { pl /= rhs; pr /= rhs; return *this; }         \
+    B& operator *= (T rhs) { pl *= rhs; pr *= rhs; return *this; }                \
+    B& operator /= (T rhs) { pl /= rhs; pr /= rhs; return *this; }                \
                                                                                   \
     B  operator +  ()             const { return B(+pl, +pr); }                   \
     B  operator -  ()             const { return B(-pl, -pr); }                   \
diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index 3d4b5ed..e71ec28 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -274,7 +274,7 @@ public:
 
     // pr = p1 * s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void mul(polynom &pr, const polynom &p1, const T &s) {
+    static void mul(polynom &pr, const polynom &p1, T s) {
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
@@ -284,7 +284,7 @@ public:
 
     // pr = p1 / s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void div(polynom &pr, const polynom &p1, const T &s) {
+    static void div(polynom &pr, const polynom &p1, T s) {
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
diff --git a/include/altruct/structure/math/quadratic.h b/include/altruct/structure/math/quadratic.h
index 2f49b94..92122fa 100644
--- a/include/altruct/structure/math/quadratic.h
+++ b/include/altruct/structure/math/quadratic.h
@@ -81,8 +81,8 @@ public:
     quadratic& operator /= (const quadratic& rhs) { return *this = *this * rhs.conjugate() / rhs.norm(); }
     quadratic& operator %= (const quadratic& rhs) { return *this = *this - rhs * (*this / rhs); }
 
-    quadratic& operator *= (const T& rhs) { a *= rhs; b *= rhs; return *this; }
-    quadratic& operator /= (const T& rhs) { a /= rhs; b /= rhs; return *this; }
+    quadratic& operator *= (T rhs) { a *= rhs; b *= rhs; return *this; }
+    quadratic& operator /= (T rhs) { a /= rhs; b /= rhs; return *this; }
 
     quadratic conjugate() const { return quadratic(a, -b, this->D()); }
     T norm() const { return a * a - b * b * this->D(); }
diff --git a/include/altruct/structure/math/vector2d.h b/include/altruct/structure/math/vector2d.h
index fa2ccd6..dd74606 100644
--- a/include/altruct/structure/math/vector2d.h
+++ b/include/altruct/structure/math/vector2d.h
@@ -29,8 +29,8 @@ public:
     vector2d& operator *= (const vector2d& v) { x *= v.x; y *= v.y; return *this; } // (element by element)
     vector2d& operator /= (const vector2d& v) { x /= v.x; y /= v.y; return *this; } // (element by element)
 
-    vector2d& operator *= (const T& t) { x *= t; y *= t; return (*this); }
-    vector2d& operator /= (const T& t) { x /= t; y /= t; return (*this); }
+    vector2d& operator *= (T t) { x *= t; y *= t; return (*this); }
+    vector2d& operator /= (T t) { x /= t; y /= t; return (*this); }
 
     vector2d  operator +  (const vector2d& v) const { return vector2d(x + v.x, y + v.y); }
     vector2d  operator -  (const vector2d& v) const { return vector2d(x - v.x, y - v.y); }
diff --git a/include/altruct/structure/math/vector3d.h b/include/altruct/structure/math/vector3d.h
index 0b88d2d..c61ced9 100644
--- a/include/altruct/structure/math/vector3d.h
+++ b/include/altruct/structure/math/vector3d.h
@@ -29,8 +29,8 @@ public:
     vector3d& operator *= (const vector3d& v) { x *= v.x; y *= v.y; z *= v.z; return *this; } // element by element
     vector3d& operator /= (const vector3d& v) { x /= v.x; y /= v.y; z /= v.z; return *this; } // element by element
 
-    vector3d& operator *= (const T& t) { x *= t; y *= t; z *= t; return *this; }
-    vector3d& operator /= (const T& t) { x /= t; y /= t; z /= t; return *this; }
+    vector3d& operator *= (T t) { x *= t; y *= t; z *= t; return *this; }
+    vector3d& operator /= (T t) { x /= t; y /= t; z /= t; return *this; }
 
     vector3d  operator +  ()                  const { return vector3d(+x, +y, +z); }
     vector3d  operator -  ()                  const { return vector3d(-x, -y, -z); }
diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 2219482..0937aa7 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -68,11 +68,11 @@ public:
     vectorNd& operator /= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs.a[i]; return *this; }
     vectorNd& operator %= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs.a[i]; return *this; }
 
-    vectorNd& operator += (const T& rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
-    vectorNd& operator -= (const T& rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
-    vectorNd& operator *= (const T& rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
-    vectorNd& operator /= (const T& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
-    vectorNd& operator %= (const T& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
+    vectorNd& operator += (T rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
+    vectorNd& operator -= (T rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
+    vectorNd& operator *= (T rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
+    vectorNd& operator /= (T rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
+    vectorNd& operator %= (T rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
 
     T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
-- 
2.43.0


From 1460fefb19ff7bd029ab46533e1ac158ed459c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:30 +0000
Subject: [PATCH 18/61] fix: negating the point at infinity keeps it infinite

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From d83a39641c136915f0be3ea7e0012a06978d7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:33 +0000
Subject: [PATCH 19/61] fix: plane-based difference with an absent part no
 longer refers to a dead temporary

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 35d04e3..b2e0f25 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From 19e43b61ab53d0fd5b61c1dfbaca6ead5f5957b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:33 +0000
Subject: [PATCH 20/61] fix: multiplying a multivector in place by its own
 rotor part uses the old rotor throughout

---
 include/altruct/structure/math/clifford3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 8523826..a48a383 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (const rotor<T>& r2) { v *= r2; r *= r2; return *this; }
+    multivector& operator /= (const rotor<T>& r2) { v /= r2; r /= r2; return *this; } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
-- 
2.43.0


From c41668a60bfb9408b83eaa6c278ecb60db2e5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:14 +0000
Subject: [PATCH 21/61] fix: Dirichlet division with a (completely)
 multiplicative result divides by g(1)

---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..9e90a6c 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -218,6 +218,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
+    auto ig1 = e1 / castOf(e1, g(1));
     int q[32]; T gq[32], hq[32];
     for (int i = 0; i < m && pa[i] < n; i++) {
         int m = 0;
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From b498cd584710a23ca077b38f9e666cf2a10128d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:13 +0000
Subject: [PATCH 22/61] fix: sum_multiplicative accepts exactly the primes up
 to sqrt(n) for every n

---
 include/altruct/algorithm/math/divisor_sums.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 9e90a6c..583add9 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -967,7 +967,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
     int64_t nd = n / d; // ~ n^(2/3)
-    int h = int(nd / pa1[psz]) + 1; // h <= n^(1/6)
+    int h = int(psz > 0 ? nd / pa1[psz] : nd) + 1; // h <= n^(1/6)
     int nq = int(n / (q + 1));      // ~ n^(1/2)
     int tsz = q + 1 + nq;           // ~ n^(1/2) * 2
 
@@ -987,17 +987,17 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // no primes in (c, q] if k > psz
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
-        for (int m = 1; m < p_k; m++) {
+        for (int m = 1; m < p_k && m <= q; m++) {
             F_k[m] = id;
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
@@ -1032,7 +1032,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From de259d5f10203eb9a646cca718e7b413f24aa558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 23/61] fix: sum_pow does not reuse Bernoulli numbers of
 another modulus

---
 include/altruct/algorithm/math/sums.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..5000a6e 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,11 +85,9 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
+    // not cached; `id` determines the parameters of the field (e.g. the modulus)
+    std::vector<T> B{ id };
+    if (p > 3) B = bernoulli_b<T>(p, id);
     return sum_pow(p, n, B);
 }
 
-- 
2.43.0


From d638ee9ee5838d35065c45dbe10aa0388d6bc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 24/61] fix: reduce_max of unsigned elements starts from the
 lowest value

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..2c1de39 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -64,7 +64,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
-- 
2.43.0


From e5f2eacf7189ecbd5a212b7cc807b9c387950b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:28 +0000
Subject: [PATCH 25/61] fix: reduce_mex ignores repeated elements and elements
 below the start

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index 2c1de39..eecfa97 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeri
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return (r < e || e < r) ? r : r + 1; }, id);
 }
 
 } // math
-- 
2.43.0


From c63de1748f93305503c0d95988bdc2e1a7752c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:47 +0000
Subject: [PATCH 26/61] fix: mertens_even evaluates its right-hand side at
 64-bit arguments

---
 include/altruct/algorithm/math/mertens.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/mertens.h b/include/altruct/algorithm/math/mertens.h
index 135b6b2..f84bc94 100644
--- a/include/altruct/algorithm/math/mertens.h
+++ b/include/altruct/algorithm/math/mertens.h
@@ -145,7 +145,7 @@ altruct::container::sqrt_map<int64_t, T> mertens_odd(int64_t n, PI_TBL& pi_tbl,
 template<typename T, typename I, typename TBL>
 T mertens_even(I n, TBL& tbl, T id = T(1)) {
     auto zero = zeroOf(id);
-    auto t = [&](int k) { return (k > 1) ? -id : zero; };
+    auto t = [&](I k) { return (k > 1) ? -id : zero; };
     auto s = [&](I k) { return castOf<T>(id, (k + 1) / 2); };
     return sum_m<T>(t, s, n, tbl, id);
 }
-- 
2.43.0


From fc500e71656b934b1984514cf13eee3080ab551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 27/61] fix: next_combination does not skip selections with
 equal elements

---
 include/altruct/algorithm/math/combinatorics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..64ae04f 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -15,7 +15,7 @@ bool next_combination(BidIt begin, BidIt mid, BidIt end) {
     BidIt rd, wr;
     for (BidIt cur = mid; cur != begin;) {
         for (BidIt cmp = wr = --cur; wr != mid; cmp = wr, ++wr) {
-            for (rd = wr; rd != end && !(*cmp < *rd); ++rd);
+            for (rd = wr; rd != end && ((wr == cur) ? !(*cmp < *rd) : (*rd < *cmp)); ++rd);
             if (rd != end) {
                 std::swap(*wr, *rd);
                 // bubble(wr, rd, end)
-- 
2.43.0


From e6c27f29a26968d29062595ff64c4b5b471d25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 28/61] fix: next_partition of an empty range does not write to
 it

---
 include/altruct/algorithm/math/combinatorics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 64ae04f..db517ac 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -39,6 +39,7 @@ bool next_combination(BidIt begin, BidIt mid, BidIt end) {
 template<typename BidIt>
 bool next_partition(BidIt begin, BidIt end) {
     typedef typename std::iterator_traits<BidIt>::value_type I;
+    if (begin == end) return false;
     I l = 0, x = 0;
     for (BidIt it = end; it != begin;) {
         --it; l = l + 1;
-- 
2.43.0


From 58e1b0a9b078c7d441bcc5640051eb3c43955d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 29/61] fix: nth_permutation does not overflow when d! exceeds
 the index type

---
 include/altruct/algorithm/math/combinatorics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index db517ac..4d906b7 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -67,10 +67,10 @@ template<typename It, typename I>
 void nth_permutation(It begin, It end, I o) {
     auto d = std::distance(begin, end);
     int i = 0; I f = 1;
-    while (i < d && f <= o) f *= ++i;
-    while (i > 1) {
-        o %= f;
-        while (i > 1 && f > o) f /= i--;
+    while (i < d && f <= o / (i + 1)) f *= ++i; // largest factorial up to `o`
+    if (i == d) o %= f;
+    for (; o > 0; o %= f) {
+        while (f > o) f /= i--;
         It it = end - i - 1;
         for (int k = int(o / f); k > 0; k--) {
             std::swap(*(it + k), *(it + k - 1));
-- 
2.43.0


From 854475666a47142844e672fdfa2b53df9d233d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 30/61] fix: partition and Euler function tables of size 0 do
 not write out of bounds

---
 include/altruct/algorithm/math/counting.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/counting.h b/include/altruct/algorithm/math/counting.h
index 30c79db..b2778ef 100644
--- a/include/altruct/algorithm/math/counting.h
+++ b/include/altruct/algorithm/math/counting.h
@@ -168,7 +168,7 @@ std::vector<T> euler_function(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> e(n, e0);
-    e[0] = id;
+    if (n > 0) e[0] = id;
     for (int k = 4, m = 1; m < n; m += k, k += 3) {
         e[m] = (k % 2 == 0) ? -id : id;
     }
@@ -191,7 +191,7 @@ std::vector<T> partitions_p_slow(int n, T id = T(1)) {
     // See https://en.wikipedia.org/wiki/Pentagonal_number_theorem
     T e0 = zeroT<T>::of(id);
     std::vector<T> p(n, e0);
-    p[0] = id;
+    if (n > 0) p[0] = id;
     for (int i = 1; i < n; i++) {
         for (int k = 4, m = 1; m <= i; m += k, k += 3) {
             p[i] += (k % 2 == 0) ? p[i - m] : -p[i - m];
-- 
2.43.0


From c01151ac2e5ae2d068f7d0a0cba308352fba15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:19 +0000
Subject: [PATCH 31/61] fix: permutations compare equal in whichever cycle
 notation they were given

---
 include/altruct/structure/math/permutation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..7af6eea 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -49,9 +49,9 @@ public:
     transpositions_t to_transpositions() const { return cycles_to_transpositions(cycles); }
 
     // comparison operators; note: size `n` of the list matters for the comparison
-    bool operator == (const permutation& p2) const { return n == p2.n && cycles == p2.cycles; }
+    bool operator == (const permutation& p2) const { return n == p2.n && to_line() == p2.to_line(); }
     bool operator != (const permutation& p2) const { return !(*this == p2); }
-    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (cycles < p2.cycles); }
+    bool operator <  (const permutation& p2) const { return (n != p2.n) ? (n < p2.n) : (line_to_cycles(to_line()) < line_to_cycles(p2.to_line())); }
     bool operator >  (const permutation& p2) const { return (p2 < *this); }
     bool operator <= (const permutation& p2) const { return !(p2 < *this); }
     bool operator >= (const permutation& p2) const { return !(*this < p2); }
-- 
2.43.0


From 2164c63312b8547412ea8e931b1d9021039d17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:37 +0000
Subject: [PATCH 32/61] fix: permutation powers do not overflow for exponents
 near the 64-bit limits

---
 include/altruct/structure/math/permutation.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 7af6eea..2147eda 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -69,14 +69,13 @@ public:
 
     // this permutation applied `T` times
     permutation pow(int64_t T) const {
-        if (T < 0) return inv().pow(-T);
         cycles_t vc;
         std::vector<bool> u(n);
         for (const auto& cycle : cycles) {
             I L = (I)cycle.size();
             for (I i = 0; i < L; i++) {
                 cycle_t c;
-                for (I j = i; !u[cycle[j]]; j = I((j + T) % L)) {
+                for (I j = i; !u[cycle[j]]; j = I((j + T % L + L) % L)) {
                     c.push_back(cycle[j]);
                     u[cycle[j]] = true;
                 }
-- 
2.43.0


From 5416fb6e9181677db050723ae983642386b6f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 33/61] fix: pell does not stop while some class has no
 positive member yet

---
 include/altruct/algorithm/math/pell.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..083fb9b 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -271,17 +271,17 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
     if (pell1<I>(D, 1, s1.a, s1.b)) {
         auto vs = pell<I>(D, N, fN);
         while (true) {
-            auto size0 = size;
+            auto size0 = size; bool pending = false;
             for (auto& s : vs) {
                 auto t = s; s *= s1;
                 if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
+                if (t.a < 0 || t.b < 0) { pending = true; continue; } // not positive yet
                 if (x_max > 0 && t.a > x_max) continue;
                 if (y_max > 0 && t.b > y_max) continue;
                 if (count > 0 && size >= count) continue;
                 visitor(t); size++;
             }
-            if (size == size0) break;
+            if (size == size0 && !pending) break;
         }
     }
 }
-- 
2.43.0


From d412544de04e506e4f5dcad5472fcf9f32acb3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 34/61] fix: pythagorean_triples_generators compiles for any
 integer type

---
 include/altruct/algorithm/math/triples.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/triples.h b/include/altruct/algorithm/math/triples.h
index bc7b866..07ecf23 100644
--- a/include/altruct/algorithm/math/triples.h
+++ b/include/altruct/algorithm/math/triples.h
@@ -92,7 +92,7 @@ bool is_pythagorean_triple_generator(const triple<I>& t) {
  */
 template<typename I>
 std::vector<triple<I>> pythagorean_triples_generators(I k) {
-    std::vector<triple<int>> vg;
+    std::vector<triple<I>> vg;
     if (k == 0) {
         vg.push_back({ 3, 4, 5 });
     }
@@ -106,7 +106,7 @@ std::vector<triple<I>> pythagorean_triples_generators(I k) {
             for (int b = a; b <= b_max; b++) {
                 int64_t c2 = isq(a) + isq(b) + k; // TODO: isq, isqrt
                 int c = isqrt(c2);
-                triple<int> t{ a, b, c };
+                triple<I> t{ a, b, c };
                 if (isq(c) == c2 && is_pythagorean_triple_generator(t)) vg.push_back(t);
             }
         }
-- 
2.43.0


From f2b2a78da6f5cf447328118b4083866dc6484a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:55 +0000
Subject: [PATCH 35/61] fix: pell_mz keeps looking when only the pre-period has
 the wrong sign

---
 include/altruct/algorithm/math/pell.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index 083fb9b..c5f13e4 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -165,18 +165,16 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     I zh = (z <= mh) ? z : z - mm;
     std::vector<I> P{ zh }, Q{ mm }, a, A, B, G;
     int l = pell_PQa<I>(D, P, Q, a, A, B, G);
-    int i = 1; while (i < (int)Q.size() && Q[i] != +1 && Q[i] != -1) i++;
-    if (i >= (int)Q.size()) return 0;
-    // check for solution by testing Q[i] == (-1)^i sign(m)
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // do another period to get +m
+    // search for solution by testing Q[i] == (-1)^i sign(m)
+    // (an unsuitable `Q[i] = +/-1` may belong to the pre-period, so keep looking)
+    int i = 1; while (i < (int)Q.size() && Q[i] != ((i % 2 == 1) ? -ms : +ms)) i++;
+    if (i >= (int)Q.size()) {
+        // do another period, to cover both parities of each term
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
+        while (i < (int)Q.size() && Q[i] != ((i % 2 == 1) ? -ms : +ms)) i++;
     }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // -m again, +m will never happen
+    if (i >= (int)Q.size()) {
+        // +m will never happen
         return 0;
     }
     else {
-- 
2.43.0


From 137d3c789700d7b647c1f4cfa8c5af334066cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:13 +0000
Subject: [PATCH 36/61] fix: convergents keeps the convergent of a negative
 term

---
 include/altruct/algorithm/math/convergents.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/convergents.h b/include/altruct/algorithm/math/convergents.h
index 8e7bdf9..e94dc42 100644
--- a/include/altruct/algorithm/math/convergents.h
+++ b/include/altruct/algorithm/math/convergents.h
@@ -66,7 +66,7 @@ std::vector<std::pair<I, I>> convergents(const std::vector<I> &va, I semi_conver
         // Technically, if a_i is even, a_i / 2 is admissible only if the
         // corresponding semiconvergent is better than the previous convergent.
         // We do not check for it here however.
-        I a0 = a_i - std::min<I>(semi_convergents, a_i / 2);
+        I a0 = a_i - std::min<I>(semi_convergents, std::max<I>(a_i / 2, 0));
         for (I a = a0; a <= a_i; a++) {
             p = a * p1 + p2;
             q = a * q1 + q2;
-- 
2.43.0


From 34c850649e2d5776ac1665b31c71bde0955ff652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 37/61] fix: polynomial hash sums do not overflow for moduli
 above 2^30

---
 .../altruct/algorithm/hash/polynomial_hash.h   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..41e1264 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -48,14 +48,14 @@ public:
     polynomial_hash1 operator >> (int cnt) const { return clone() >>= cnt; } // divide by B^cnt
     polynomial_hash1 operator << (int cnt) const { return clone() <<= cnt; } // multiply by B^cnt
     polynomial_hash1& operator *= (const polynomial_hash1& rhs) { h = (h * IT(rhs.h)) % M; return *this; }
-    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = (h + rhs.h) % M; return *this; }
-    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = (h + M - rhs.h) % M; return *this; }
+    polynomial_hash1& operator += (const polynomial_hash1& rhs) { h = (h + IT(rhs.h)) % M; return *this; }
+    polynomial_hash1& operator -= (const polynomial_hash1& rhs) { h = (h + IT(M) - rhs.h) % M; return *this; }
     polynomial_hash1& operator >>= (int cnt) { ensure(cnt + 1); h = (h * IT(WI[cnt])) % M; return *this; }
     polynomial_hash1& operator <<= (int cnt) { ensure(cnt + 1); h = (h * IT(W[cnt])) % M; return *this; }
     // H = H + (RHS << pos)
     polynomial_hash1& add(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = (h + rhs.h * IT(W[pos])) % M; return *this; }
     // H = (H - RHS) >> pos
-    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = ((h + M - rhs.h) * IT(WI[pos])) % M; return *this; }
+    polynomial_hash1& sub_shr(const polynomial_hash1& rhs, size_t pos) { ensure(pos + 1); h = (((h + IT(M) - rhs.h) % M) * WI[pos]) % M; return *this; }
 
     int32_t hash() const { return h; }
 };
@@ -154,7 +154,7 @@ public:
     polynomial_hash operator + (I rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs) % M[k];
+            h[k] = (I)((h[k] + (IT)rhs) % M[k]);
         }
         return *this;
     }
@@ -162,7 +162,7 @@ public:
     polynomial_hash operator + (const polynomial_hash& rhs) const { return clone() += rhs; }
     polynomial_hash& operator += (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + rhs.h[k]) % M[k];
+            h[k] = (I)((h[k] + (IT)rhs.h[k]) % M[k]);
         }
         return *this;
     }
@@ -170,7 +170,7 @@ public:
     polynomial_hash operator - (I rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (I rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs) % M[k];
+            h[k] = (I)((h[k] + (IT)M[k] - rhs) % M[k]);
         }
         return *this;
     }
@@ -178,7 +178,7 @@ public:
     polynomial_hash operator - (const polynomial_hash& rhs) const { return clone() -= rhs; }
     polynomial_hash& operator -= (const polynomial_hash& rhs) {
         for (int k = 0; k < K; k++) {
-            h[k] = (h[k] + M[k] - rhs.h[k]) % M[k];
+            h[k] = (I)((h[k] + (IT)M[k] - rhs.h[k]) % M[k]);
         }
         return *this;
     }
@@ -226,7 +226,7 @@ public:
     polynomial_hash& sub_shr(I rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs, WI[k][pos], M[k]);
+            h[k] = mul((I)((h[k] + (IT)M[k] - rhs) % M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
@@ -235,7 +235,7 @@ public:
     polynomial_hash& sub_shr(const polynomial_hash& rhs, size_t pos) {
         ensure(pos + 1);
         for (int k = 0; k < K; k++) {
-            h[k] = mul(h[k] + M[k] - rhs.h[k], WI[k][pos], M[k]);
+            h[k] = mul((I)((h[k] + (IT)M[k] - rhs.h[k]) % M[k]), WI[k][pos], M[k]);
         }
         return *this;
     }
-- 
2.43.0


From f328fc2f810ce007125abb5888de43531987adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 38/61] fix: a prefix operator does not pop operators that
 still wait for their operand

---
 include/altruct/algorithm/parser/shunting_yard.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..90d0088 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -93,7 +93,10 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                // a prefix operator has no left operand, so nothing can be applied before it
+                if (operators[t.id].arity != operator_desc::arity_t::UNARY || operators[t.id].associativity != operator_desc::assoc_t::RIGHT) {
+                    pop_operators(t.id);
+                }
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
-- 
2.43.0


From 8742bd4211f72de8bfb54cb1b3dd6a23c300ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 39/61] fix: functions without arguments take no operand

---
 include/altruct/algorithm/parser/shunting_yard.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 90d0088..35a1752 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -87,6 +87,7 @@ std::vector<postfix_token> infix_to_postfix(
             stk.pop_back();
         }
     };
+    const infix_token* prev = nullptr;
     for (const auto& t : infix_tokens) {
         switch (t.type) {
             case infix_token::type_t::OPERAND:
@@ -104,7 +105,8 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                // `f()` has no arguments
+                num_args = (prev && prev->type == infix_token::type_t::LEFT_PARENTHESIS) ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -124,6 +126,7 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        prev = &t;
     }
     pop_operators(-1);
     return res;
-- 
2.43.0


From c0cdb2f5bb28cce456b76e0599f35d19556d97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 40/61] fix: read_char distinguishes bytes above 127 from the
 end of input

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/reader.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..c513919 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..3042c9c 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != -1 && (char)c != delimiter) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From 17ae5d357d8ebda243b4323784c050836fb5ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 41/61] fix: writing the minimal integer

---
 include/altruct/io/fast_io.h | 6 +++---
 include/altruct/io/writer.h  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index c513919..4ecce62 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -329,11 +329,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // not negating `d` as that may overflow
+            tc[i] = ((r < 0) ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..9ac0473 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -247,11 +247,11 @@ public:
         int i;
         static char tc[50];
         if (d < 0) {
-            d = -d;
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // not negating `d` as that may overflow
+            tc[i] = ((r < 0) ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From d3d7d54214df146203ab0a156d072c904b650a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 42/61] fix: reading the minimal integer does not overflow

---
 include/altruct/io/fast_io.h | 9 ++++-----
 include/altruct/io/reader.h  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 4ecce62..8466dd0 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -150,13 +150,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits. Subtracts them if `sign` is negative.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, int sign = +1) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = d * 10 + sign * (c - '0');
             l++;
             c = read_char();
         }
@@ -170,8 +170,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s);
     }
 
     // Reads a single signed decimal floating-point number of type F.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 3042c9c..742bbde 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -307,13 +307,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits. Subtracts them if `sign` is negative.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, int sign = +1) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = d * 10 + sign * (c - '0');
             l++;
             c = read_char();
         }
@@ -327,8 +327,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s);
     }
 
     // Reads a single signed decimal floating-point number of type F.
-- 
2.43.0


From 80240ae95b5f460c671ac6d565d8188365121485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:34 +0000
Subject: [PATCH 43/61] fix: fast_read terminates its buffer and does not skip
 past it; fast_write writes whole strings

---
 include/altruct/io/fast_io.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 8466dd0..77324f8 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -60,6 +60,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
@@ -98,7 +99,7 @@ public:
 
     // Skips `count` characters.
     void skip(size_t count) {
-        ptr += count;
+        ptr += std::min(count, available());
     }
 
     // Unreads the last read character.
@@ -320,7 +321,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0


From 4d5f5dc9dd6229919f997dec8e2518f06ba350b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:02 +0000
Subject: [PATCH 44/61] fix: numbers that round up to the next power of 10 are
 written correctly

---
 include/altruct/io/fast_io.h | 8 ++++++--
 include/altruct/io/writer.h  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 77324f8..71c762e 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -354,10 +354,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
-        } else {
-            e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (!scientific) {
+            e = std::max(exponent(f), 0) + 1;
+        } else if (f >= 10) {
+            f /= 10; // rounded up to the next power of 10
+            g++;
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 9ac0473..232810f 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -269,10 +269,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
-        } else {
-            e = std::max(g, 0) + 1;
         }
         f += pow(F(10), -precision) / 2; // round
+        if (!scientific) {
+            e = std::max(exponent(f), 0) + 1;
+        } else if (f >= 10) {
+            f /= 10; // rounded up to the next power of 10
+            g++;
+        }
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
-- 
2.43.0


From a7e360bd67d3b17c0b5d130401d1993906f06e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:00 +0000
Subject: [PATCH 45/61] fix: integer_to_range does not overflow for ranges
 wider than half of the type

---
 include/altruct/algorithm/random/random.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/random/random.h b/include/altruct/algorithm/random/random.h
index 784e16d..bddf9ab 100644
--- a/include/altruct/algorithm/random/random.h
+++ b/include/altruct/algorithm/random/random.h
@@ -3,6 +3,7 @@
 #include <cstdint>
 #include <limits>
 #include <functional>
+#include <type_traits>
 
 namespace altruct {
 namespace random {
@@ -26,8 +27,9 @@ double integer_to_double_0_1(U val) {
  */
 template<typename U, typename V>
 V integer_to_range(U val, V min, V max) {
-    V width = max - min + 1;
-    return (width == 0) ? V(val) : min + val % width;
+    typedef typename std::make_unsigned<V>::type W; // `max - min` may overflow in `V`
+    W width = W(max) - W(min) + 1;
+    return (width == 0) ? V(val) : V(W(min) + W(val % width));
 }
 
 /**
-- 
2.43.0


From 80ed0d49552e6d15c69800507ccab9a77e6dba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:06 +0000
Subject: [PATCH 46/61] fix: a copied mtrand continues from its own state

---
 .../altruct/algorithm/random/mersenne_twister.h    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/altruct/algorithm/random/mersenne_twister.h b/include/altruct/algorithm/random/mersenne_twister.h
index 878fedd..925b82c 100644
--- a/include/altruct/algorithm/random/mersenne_twister.h
+++ b/include/altruct/algorithm/random/mersenne_twister.h
@@ -94,6 +94,8 @@ public:
     mtrand(const uint32& oneSeed);  // initialize with a simple uint32
     mtrand(uint32 *const bigSeed, uint32 const seedLength = N);  // or an array
     mtrand();  // auto-initialize with /dev/urandom or time() and clock()
+    mtrand(const mtrand& rhs);  // copies continue independently
+    mtrand& operator = (const mtrand& rhs);
 
     // Access to 32-bit random numbers
     double rand();                          // real number in [0,1]
@@ -157,6 +159,18 @@ inline mtrand::mtrand() {
     seed();
 }
 
+inline mtrand::mtrand(const mtrand& rhs) {
+    *this = rhs;
+}
+
+inline mtrand& mtrand::operator = (const mtrand& rhs) {
+    // `pNext` must point to the own state
+    uint32 saved[SAVE];
+    rhs.save(saved);
+    load(saved);
+    return *this;
+}
+
 inline double mtrand::rand() {
     return double(randInt()) * (1.0 / 4294967295.0);
 }
-- 
2.43.0


From 26dc46f124b0cf2553e0ad4e62028a0bf7053d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 47/61] fix: range_job_provider does not step past the end of
 the range near the limits of the type

---
 include/altruct/concurrency/concurrency.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..52027a9 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -99,7 +99,13 @@ struct range_job_provider {
     I begin, end, len;
     range_job_provider(I begin, I end, I len) : begin(begin), end(end), len(len) {}
     bool has_next_job() { return begin < end; }
-    std::pair<I, I> next_job() { begin += len; return{ begin - len, std::min(begin, end) }; }
+    std::pair<I, I> next_job() {
+        // avoids overflow near the limits of the type
+        bool is_last = (begin < I(0)) ? (end <= begin + len) : (end - begin <= len);
+        I job_begin = begin;
+        begin = is_last ? end : begin + len;
+        return{ job_begin, begin };
+    }
 };
 
 
-- 
2.43.0


From ba1f8f5eba05523627fde20eb7acd01241db82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 48/61] fix: leaving a LOCK block with break does not run the
 block again

---
 include/altruct/concurrency/concurrency.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index 52027a9..ca0a16a 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -18,7 +18,7 @@ namespace concurrency {
  *   }
  */
 #define LOCK(_mutex) \
-    for (bool first = true; first;) \
+    for (bool first = true; first; first = false) \
         for (std::lock_guard<std::mutex> lock(_mutex); first; first = false)
             // { /* locked */  }
 
-- 
2.43.0


From 28d157176a8eae09bebebe1b5d6bc0ccdc658073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 49/61] fix: parallel_execute synchronizes create_worker, as
 documented

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index ca0a16a..cfd4eb4 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -53,8 +53,11 @@ template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVI
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
+    std::mutex worker_provider_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From 8898bab024e83ddfc1d2ada092a10457822a3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:34 +0000
Subject: [PATCH 50/61] fix: bipartite_matching selects only one of several
 parallel edges

---
 .../include/altruct/algorithm/graph/bipartite_matching.h     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..4eb1645 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,10 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (d.flow[e.u][e.v]) {
+            selected.push_back(e);
+            d.flow[e.u][e.v] = 0; // select only one of the parallel edges
+        }
     }
     return selected;
 }
-- 
2.43.0


From 55f4489a56baa582824dbfafb77da629cd000f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:34 +0000
Subject: [PATCH 51/61] fix: bounded_contiguous_allocator storage is not shared
 by copies and follows moves and swaps

---
 .../container/bounded_contiguous_allocator.h  | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..f9b2e50 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstdlib>
 #include <memory>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -35,6 +37,35 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    // storage is owned by a single allocator: copies only take over the capacity
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        swap(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        if (this == &allocator) return *this;
+        clear();
+        available_ = capacity_ = allocator.capacity();
+        return *this;
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        swap(allocator);
+        return *this;
+    }
+
+    void swap(bounded_contiguous_allocator& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
-- 
2.43.0


From 502476358178f4e3af52189247a861af6a46a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:22 +0000
Subject: [PATCH 52/61] fix: alphanum_p accepts any char value

---
 include/altruct/io/stream_tokenizer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/stream_tokenizer.h b/include/altruct/io/stream_tokenizer.h
index 2bdd4e5..49b04f9 100644
--- a/include/altruct/io/stream_tokenizer.h
+++ b/include/altruct/io/stream_tokenizer.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cctype>
 #include <string>
 #include <iostream>
 #include <sstream>
@@ -50,7 +51,7 @@ struct not_p {
 };
 
 struct alphanum_p {
-    static bool eval(char c) { return std::isalnum(c); }
+    static bool eval(char c) { return std::isalnum(static_cast<unsigned char>(c)) != 0; }
 };
 
 template<typename P>
-- 
2.43.0


From c576bfc562b42f551f39a102b396216c36870a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:36 +0000
Subject: [PATCH 53/61] fix: double_int left shift compiles

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..af06b0b 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -181,7 +181,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
-- 
2.43.0


From bb0971e88226cfd8f9889c6dcef3a2e70e0b1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:36 +0000
Subject: [PATCH 54/61] fix: double_int postfix increment and decrement change
 the object and return the old value

---
 experimental/include/altruct/structure/math/double_int.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index af06b0b..aecd5e0 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
-- 
2.43.0


From 1416b46c16196eb819b6f26213e73e9ead002a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 55/61] fix: double_int division returns the quotient and the
 remainder

---
 .../altruct/structure/math/double_int.h       | 32 +++++++------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index aecd5e0..28e38f0 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -121,27 +121,17 @@ public:
 
     // DIVISION
     static double_int unsigned_div(const double_int& a0, const double_int& b0, double_int *r = 0) {
-        if (a0.unsigned_lt(b0)) return 0;
+        // binary long division; TODO: do half machine-word divisions
         double_int q = 0, a = a0, b = b0;
-
-        // TODO: do half machine-word divisions, not half double-int divisions !!
-
-        //int r_shift = 0;
-        //while (a.unsigned_gte(b)) {
-        //  // shifting both a and b by the same amount doesn't affect the quotient
-        //    int a_lzc = a.leading_zeros_count(); a <<= a_lzc;
-        //    int b_lzc = b.leading_zeros_count(); b <<= a_lzc;
-        //    r_shift += a_lzc;
-        //    if (b_lzc == a_lzc) { a -= b; q += 1; continue; }
-        //  // shifting b left so that (b << k).hi >= 2^(T::type_bits/2-1)
-        //    int k = max(0, b_lzc - a_lzc - T::type_bits / 2);
-        //    double_int c = b << k;
-        //    double_int t = T::unsigned_div(a.get_hi(), c.get_hi() + 1);
-        //    t <<= k; // correcting the quotient because shifting b left shifted the quotient right
-        //    a -= b * t;
-        //    q += t;
-        //}
-        //if (r) *r = a >> r_shift;
+        if (a.unsigned_gte(b)) {
+            int k = b.leading_zeros_count() - a.leading_zeros_count();
+            for (b <<= k; k >= 0; k--) {
+                q <<= 1;
+                if (a.unsigned_gte(b)) a -= b, q |= 1;
+                b.assign_unsigned_shr(1);
+            }
+        }
+        if (r) *r = a;
         return q;
     }
 
@@ -377,7 +367,7 @@ public:
     prim_int& operator /= (const prim_int& rhs) { v /= rhs.v; return *this; }
     prim_int& operator %= (const prim_int& rhs) { v %= rhs.v; return *this; }
 
-    prim_int& negate() { return prim_int(-v); }
+    prim_int& negate() { v = -v; return *this; }
 
     prim_int& operator &= (const prim_int& rhs) { v &= rhs.v; return *this; }
     prim_int& operator |= (const prim_int& rhs) { v |= rhs.v; return *this; }
-- 
2.43.0


From b8eea63e60d766a799c3e6967906f3dadb2b505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:16 +0000
Subject: [PATCH 56/61] fix: monotonic_search compares with the value searched
 for

---
 include/altruct/algorithm/math/polynoms.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/polynoms.h b/include/altruct/algorithm/math/polynoms.h
index 61720fd..a630274 100644
--- a/include/altruct/algorithm/math/polynoms.h
+++ b/include/altruct/algorithm/math/polynoms.h
@@ -23,14 +23,14 @@ template<typename P, typename F>
 F monotonic_search(const P &p, const F &b, const F& e, const F& y, const F& epsy = 0, const F& epsx = 0, int max_iter = 200) {
     F lo = b, hi = e, mid = e;
     F val_b = p(b), val_e = p(e);
-    if (-epsy <= val_b && val_b <= epsy) return b;
-    if (-epsy <= val_e && val_e <= epsy) return e;
+    if (-epsy <= val_b - y && val_b - y <= epsy) return b;
+    if (-epsy <= val_e - y && val_e - y <= epsy) return e;
     int s = (val_b > val_e) ? -1 : +1;
     while (hi - lo > epsx && max_iter-- > 0) {
         mid = (lo + hi) / 2;
         if (mid == lo || mid == hi) return mid;
         F val = p(mid);
-        if (-epsy <= val && val <= epsy) return mid;
+        if (-epsy <= val - y && val - y <= epsy) return mid;
         if ((s > 0) ? (val < y) : (val > y)) {
             lo = mid;
         }
-- 
2.43.0


From 6472dc352fe29a0e4aab81550aa5a785eaf6ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 57/61] fix: lazy_treap::get compiles

---
 include/altruct/structure/container/lazy_treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..4b7ec5a 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -301,7 +301,7 @@ public: // query & update
         }
         T re = id;
         for (bool was_right = true; e != a; e = e.parent()) {
-            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left(), dummy)); // aggregate e and its left child
+            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left()), dummy); // aggregate e and its left child
             was_right = (e == e.parent().right());
         }
         T r = *a; f_up(r, rb, re); // aggregate a
-- 
2.43.0


From 1d440dff3e62110bb652b0cdfaad2865d7b9fc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 58/61] fix: lazy_treap re-aggregates the nodes it rotates down
 on insertion

---
 include/altruct/structure/container/lazy_treap.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 4b7ec5a..578c3b7 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -362,11 +362,13 @@ protected: // balancing
         if (it == tree.end()) return it;
         it.balance() = rnd();
         while (it.balance() < it.parent().balance()) {
-            if (it.parent().left() == it) {
-                tree.rotate_right(it.parent());
+            auto par = it.parent();
+            if (par.left() == it) {
+                tree.rotate_right(par);
             } else {
-                tree.rotate_left(it.parent());
+                tree.rotate_left(par);
             }
+            aggregate(par);
         }
         return it;
     }
@@ -391,7 +393,7 @@ public: // aggregation
     iterator propagate_up(const_iterator _it) {
         auto it = remove_const(_it);
         for (auto it2 = it; it2 != tree.end(); it2 = it2.parent()) {
-            f_up(*it2, _val_or_id(it2.left()), _val_or_id(it2.right()));
+            aggregate(it2);
         }
         return it;
     }
@@ -404,6 +406,10 @@ public: // aggregation
     }
 
 private:
+    void aggregate(iterator it) {
+        f_up(*it, _val_or_id(it.left()), _val_or_id(it.right()));
+    }
+
     const T& _val_or_id(iterator it) {
         return (it != tree.end()) ? *it : id;
     }
-- 
2.43.0


From f873e29dd486c3a5e2bdbc2a427cccf1b03e0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 59/61] fix: lazy_treap::update re-aggregates the ancestors of
 the updated range

---
 include/altruct/structure/container/lazy_treap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 578c3b7..d937dd0 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -312,7 +312,9 @@ public: // query & update
     void update(const_iterator _b, const_iterator _e, const F_UPDATE& f) {
         auto b = remove_const(_b), e = remove_const(_e);
         if (b == e--) return;
+        propagate_down_to(b), propagate_down_to(e);
         auto a = remove_const(lowest_common_ancestor(b, e));
+        auto b0 = b, e0 = e;
         for (bool was_left = true; b != a; b = b.parent()) {
             if (was_left) f(*b), f_down(*b, dummy, _val_or_dummy(b.right())); // update b and its right child
             was_left = (b == b.parent().left());
@@ -322,6 +324,7 @@ public: // query & update
             was_right = (e == e.parent().right());
         }
         f(*a), f_down(*a, dummy, dummy); // update a
+        propagate_up(b0), propagate_up(e0);
     }
 
     void propagate_down_to(const_iterator it) {
-- 
2.43.0


From f74b9c9c255295114570c60dd2b817999ffb8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 60/61] fix: lazy_treap pushes pending updates down before get,
 insert_before and erase

---
 include/altruct/structure/container/lazy_treap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index d937dd0..2b0a031 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -273,6 +273,8 @@ public: // query & update
     }
 
     iterator insert_before(const_iterator it, const value_type& val, int cnt = 1) {
+        const_iterator prev = it;
+        propagate_down_to(it), propagate_down_to(--prev);
         return propagate_up(retrace_up(tree.insert_before(it.it, val, cnt)));
     }
 
@@ -287,12 +289,14 @@ public: // query & update
     }
 
     iterator erase(const_iterator it, int cnt = std::numeric_limits<int>::max()) {
+        propagate_down_to(it);
         return propagate_up(tree.erase(retrace_down(it).it, cnt));
     }
 
     T get(const_iterator _b, const_iterator _e) {
         auto b = remove_const(_b), e = remove_const(_e);
         if (b == e--) return id;
+        propagate_down_to(b), propagate_down_to(e);
         auto a = remove_const(lowest_common_ancestor(b, e));
         T rb = id;
         for (bool was_left = true; b != a; b = b.parent()) {
-- 
2.43.0


From 978d6e07daafa92b868a58a3dbdd56edd7119978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:41 +0000
Subject: [PATCH 61/61] fix: lazy_treap::swap exchanges the functors along with
 the elements

---
 include/altruct/structure/container/lazy_treap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2b0a031..dcd8597 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -154,6 +154,8 @@ public:
     void swap(lazy_treap& rhs) {
         tree.swap(rhs.tree);
         std::swap(rnd, rhs.rnd);
+        std::swap(f_up, rhs.f_up);
+        std::swap(f_down, rhs.f_down);
     }
 
     void clear() {
-- 
2.43.0

