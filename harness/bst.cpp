// binary_search_tree, treap, rope: any history of operations against an ordered sequence; keys, counts and the treap priorities are symbolic
#include "sv.h"
#include <limits>
#include <functional>
#include "altruct/structure/container/treap.h"
#include "altruct/structure/container/rope.h"
using namespace altruct::container;
namespace dup = bst_duplicate_handling;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
struct Lt { bool operator()(int a, int b) const { return sv_concretize(a < b) != 0; } };
typedef std::pair<const int, int> kv_t;
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() const { return (int)sv_choose("priority", 3); } };
static int valOf(int v) { return v; } static int keyOf(int v) { return v; }
static int valOf(const kv_t& v) { return v.second; } static int keyOf(const kv_t& v) { return v.first; }
static bool lt(int a, int b) { return sv_concretize(a < b) != 0; }
template<typename T> T mkv(int k, int v); template<> int mkv<int>(int k, int) { return k; } template<> kv_t mkv<kv_t>(int k, int v) { return kv_t(k, v); }
struct Ent { int key, val, cnt; };
struct Model { Ent e[16]; int n = 0;
    int total() const { int t = 0; for (int i = 0; i < n; i++) t += e[i].cnt; return t; }
    int lo(int k) const { int i = 0; while (i < n && lt(e[i].key, k)) i++; return i; }
    int up(int k) const { int i = 0; while (i < n && !lt(k, e[i].key)) i++; return i; }
    void put(int at, Ent x) { for (int j = n; j > at; j--) e[j] = e[j - 1]; e[at] = x; n++; }
    void cut(int b, int c) { for (int j = c; j < n; j++) e[b + j - c] = e[j]; n -= c - b; } };
// every order type of a new key relative to the present ones: equal to one of them, or inside one of the gaps
static int rankKey(const Model& m, bool sym) { if (sym) return SI("key", -50, 50); int d[16], n = 0; for (int i = 0; i < m.n; i++) if (!n || d[n - 1] != m.e[i].key) d[n++] = m.e[i].key; int c = (int)sv_choose("rank", 2 * n + 1), g = c / 2; if (c & 1) return d[g]; int lo = g ? d[g - 1] : -(1 << 20), hi = g < n ? d[g] : 1 << 20; return (lo + hi) / 2; }
template<typename IT> int shape(IT x, int depth) { if (x.size() == 0) return 0; CHECK(depth < 16, "no cycle"); int l = shape(x.left(), depth + 1), r = shape(x.right(), depth + 1); if (l) CHECK(x.left().parent() == x, "parent link"); if (r) CHECK(x.right().parent() == x, "parent link"); CHECK(x.size() == l + r + x.count() && x.count() >= 1, "subtree sizes"); return x.size(); }
template<typename IT> void heapOrder(IT x) { if (x.size() == 0) return; if (x.left().size()) { CHECK(x.left().it.balance() >= x.it.balance(), "heap order of priorities"); heapOrder(x.left()); } if (x.right().size()) { CHECK(x.right().it.balance() >= x.it.balance(), "heap order of priorities"); heapOrder(x.right()); } }
template<typename TR> void heapIf(const TR&) {}
template<typename K, typename T, int D, typename C, typename R, typename A> void heapIf(const treap<K, T, D, C, R, A>& t) { heapOrder(t.root()); }
template<int DUP, typename TR> void verify(TR& t, const Model& m, int probe, bool deep) {
    const TR& c = t; CHECK(c.size() == m.total() && c.empty() == (m.n == 0), "size"); int i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) { CHECK(i < m.n, "no extra element"); CHECK(keyOf(*it) == m.e[i].key && valOf(*it) == m.e[i].val && it.count() == m.e[i].cnt, "in-order element"); } CHECK(i == m.n, "no missing element");
    shape(c.root(), 0); heapIf(c); if (!deep) return;
    i = m.n; for (auto it = t.end(); it != t.begin();) { --it; --i; CHECK(keyOf(*it) == m.e[i].key && valOf(*it) == m.e[i].val, "reverse order"); } i = m.n; for (auto it = t.rbegin(); it != t.rend(); ++it) { --i; CHECK(keyOf(*it) == m.e[i].key, "reverse iterator"); } CHECK(i == 0, "reverse count");
    int l = m.lo(probe), u = m.up(probe); int cl = 0, cu = 0; for (int j = 0; j < u; j++) { cu += m.e[j].cnt; if (j < l) cl += m.e[j].cnt; }
    CHECK(c.count_less(probe) == cl && c.count_less_or_equal(probe) == cu && c.count(probe) == cu - cl, "counts"); int k = 0; for (int j = 0; j < m.n; j++) for (int q = 0; q < m.e[j].cnt; q++, k++) { auto it = c.find_kth(k); CHECK(it != c.end() && keyOf(*it) == m.e[j].key && valOf(*it) == m.e[j].val, "find_kth"); } CHECK(c.find_kth(k) == c.end(), "find_kth past the end");
    auto at = [&](int j) { auto it = c.begin(); while (j-- > 0) ++it; return it; }; CHECK(c.lower_bound(probe) == at(l) && c.upper_bound(probe) == at(u) && c.find(probe) == (l < u ? at(l) : c.end()), "bounds and find"); auto er = t.equal_range(probe); CHECK(er.first == t.lower_bound(probe) && er.second == t.upper_bound(probe), "equal_range");
    if (DUP != dup::COUNT) { auto it = c.begin(); for (int j = 0; j <= m.n; j++, ++it) { CHECK(it.pos() == j, "pos"); for (int q = 0; q <= m.n; q++) CHECK(it.add(q - j) == at(q), "add"); } } }
template<int DUP, typename T, typename TR> void step(TR& t, Model& m, int op, int next, bool sym) {
    int key = op == 2 || op == 3 ? 0 : rankKey(m, sym); const int big = std::numeric_limits<int>::max();
    switch (op) {
    case 0: { int cnt = DUP == dup::COUNT ? 1 + (int)sv_choose("cnt", 2) : 1; T v = mkv<T>(key, next); auto it = t.insert(v, cnt); int l = m.lo(key), u = m.up(key); 
        if (DUP == dup::STORE || l == u) m.put(u, {key, valOf(v), cnt}); else if (DUP == dup::COUNT) m.e[l].cnt += cnt; int at = DUP == dup::STORE || l == u ? u : l; auto jt = t.begin(); for (int j = 0; j < at; j++) ++jt; CHECK(it == jt, "insert returns the position of the element"); break; }
    case 1: { int cnt = DUP == dup::COUNT ? (sv_choose("all", 2) ? big : 1 + (int)sv_choose("cnt", 2)) : big; t.erase(key, cnt); int l = m.lo(key), u = m.up(key); if (DUP == dup::COUNT && l < u && cnt < m.e[l].cnt) m.e[l].cnt -= cnt; else m.cut(l, u); break; }
    case 2: { if (!m.n) break; int i = (int)sv_choose("at", m.n); auto it = t.begin(); for (int j = 0; j < i; j++) ++it; t.erase(it); m.cut(i, i + 1); break; }
    case 3: { int b = (int)sv_choose("b", m.n + 1), e = b + (int)sv_choose("l", m.n + 1 - b); auto ib = t.begin(); for (int j = 0; j < b; j++) ++ib; auto ie = ib; for (int j = b; j < e; j++) ++ie; t.erase(ib, ie); m.cut(b, e); break; }
    default: { int u = m.up(key), l = m.lo(key); if (DUP != dup::STORE && l < u) break; int p = l + (int)sv_choose("hint", u - l + 1); auto it = t.begin(); for (int j = 0; j < p; j++) ++it; T v = mkv<T>(key, next); t.insert_before(it, v); m.put(p, {key, valOf(v), 1}); break; } } }
template<int DUP, typename T, typename TR> void hist(int I, int K, bool sym) {
    uint64_t live = sv_heap_live(); { TR t; Model m; for (int k = 0; k < I; k++) step<DUP, T>(t, m, 0, k, sym); for (int k = 0; k < K; k++) step<DUP, T>(t, m, (int)sv_choose("op", 5), I + k, sym); verify<DUP>(t, m, rankKey(m, sym), true); } CHECK(sv_heap_live() == live, "everything released"); }
typedef binary_search_tree<int, int, dup::IGNORE, Lt> set_t; typedef binary_search_tree<int, int, dup::COUNT, Lt> cset_t; typedef binary_search_tree<int, kv_t, dup::STORE, Lt> mm_t; typedef binary_search_tree<int, kv_t, dup::IGNORE, Lt> map_t;
typedef treap<int, int, dup::IGNORE, Lt, Rnd> tset_t; typedef treap<int, kv_t, dup::STORE, Lt, Rnd> tmm_t; typedef treap<int, int, dup::COUNT, Lt, Rnd> tcset_t;
//@ D04 bst_sym t=80 -- set with fully symbolic keys: I inserts, one more operation, any probe
ENTRY bst_sym() { hist<dup::IGNORE, int, set_t>(2, 1, true); }
//@ D04 bst_ignore t=80 I=3 K=2 Q:I=4 Q:K=3 -- set, duplicates ignored: insert/erase by key, iterator, range, hint
ENTRY bst_ignore() { hist<dup::IGNORE, int, set_t>(sv_param("I", 3), sv_param("K", 2), false); }
//@ D04 bst_count t=80 I=2 K=2 Q:I=3 Q:K=3 -- multiset with counted duplicates
ENTRY bst_count() { hist<dup::COUNT, int, cset_t>(sv_param("I", 2), sv_param("K", 2), false); }
//@ D04 bst_store t=80 I=3 K=2 Q:I=4 Q:K=3 -- multimap with stored duplicates in insertion order
ENTRY bst_store() { hist<dup::STORE, kv_t, mm_t>(sv_param("I", 3), sv_param("K", 2), false); }
//@ D04 treap_ignore t=80 I=3 K=1 Q:K=2 -- treap set, every priority sequence
ENTRY treap_ignore() { hist<dup::IGNORE, int, tset_t>(sv_param("I", 3), sv_param("K", 1), false); }
//@ D04 treap_count t=80 I=2 K=1 Q:K=2 -- treap multiset with counted duplicates, every priority sequence
ENTRY treap_count() { hist<dup::COUNT, int, tcset_t>(sv_param("I", 2), sv_param("K", 2), false); }
//@ D04 treap_store t=80 I=3 K=1 Q:K=2 -- treap multimap, every priority sequence
ENTRY treap_store() { hist<dup::STORE, kv_t, tmm_t>(sv_param("I", 3), sv_param("K", 1), false); }
template<typename TR> void eqSeq(const TR& t, const int* a, int n) { int i = 0; for (auto it = t.begin(); it != t.end(); ++it, i++) { CHECK(i < n && keyOf(*it) == a[i], "content"); } CHECK(i == n && t.size() == n, "length"); heapIf(t); }
static int lexi(const int* a, int n, const int* b, int m) { for (int i = 0; i < n && i < m; i++) { if (a[i] < b[i]) return -1; if (b[i] < a[i]) return 1; } return n < m ? -1 : n > m; }
template<typename TR> void whole() { // copy, move, assignment, swap, clear, comparison of two trees over {1..4}
    uint64_t live = sv_heap_live(); { int a[4], b[4], n = 0, m = 0; TR s, t; int x = (int)sv_choose("s", 16), y = (int)sv_choose("t", 16); for (int k = 0; k < 4; k++) { if (x >> k & 1) a[n++] = k + 1; if (y >> k & 1) b[m++] = k + 1; } int o = (int)sv_choose("order", 2); for (int i = 0; i < n; i++) s.insert(a[o ? n - 1 - i : (i + n / 2) % n]); for (int i = 0; i < m; i++) t.insert(b[(i + m / 2) % m]);
        int r = lexi(a, n, b, m); CHECK((s < t) == (r < 0) && (s > t) == (r > 0) && (s == t) == (r == 0) && (s != t) == (r != 0) && (s <= t) == (r <= 0) && (s >= t) == (r >= 0), "comparison");
        switch (sv_choose("op", 7)) {
        case 0: { TR c(s); eqSeq(c, a, n); c.clear(); eqSeq(c, a, 0); eqSeq(s, a, n); c.insert(7); int z[1] = {7}; eqSeq(c, z, 1); break; }
        case 1: { t = s; eqSeq(t, a, n); s.clear(); eqSeq(t, a, n); eqSeq(s, a, 0); break; }
        case 2: { TR c(std::move(s)); eqSeq(c, a, n); break; }
        case 3: { t = std::move(s); eqSeq(t, a, n); break; }
        case 4: { s.swap(t); eqSeq(s, b, m); eqSeq(t, a, n); break; }
        case 5: { s.clear(); CHECK(s.empty() && s.begin() == s.end(), "clear"); for (int i = 0; i < m; i++) s.insert(b[i]); eqSeq(s, b, m); s.clear(); s.clear(); CHECK(s.size() == 0, "clear twice"); break; }
        default: { TR c(a, a + n); eqSeq(c, a, n); TR d{3, 1, 2}; int z[3] = {1, 2, 3}; eqSeq(d, z, 3); c = c; eqSeq(c, a, n); break; } } } CHECK(sv_heap_live() == live, "everything released"); }
struct R1 { R1() {} R1(int (*)()) {} unsigned s = 7; int operator()() { s = s * 1103515245u + 12345u; return (int)(s >> 16 & 3); } };
//@ D04 bst_whole t=60 -- copy, move, assignment, swap, clear and comparison of binary search trees, no leak
ENTRY bst_whole() { whole<set_t>(); }
//@ D04 treap_whole t=60 -- the same for treaps
ENTRY treap_whole() { whole<treap<int, int, dup::IGNORE, Lt, R1>>(); }
//@ D04 treap_order t=60 N=5 Q:N=6 -- distinct keys inserted in any order with any priorities, one erased: the tree is heap ordered by priority (its depth is what the priorities dictate)
ENTRY treap_order() { tset_t t; Model m; int n = sv_param("N", 5); for (int k = 0; k < n; k++) { int g = (int)sv_choose("gap", m.n + 1), lo = g ? m.e[g - 1].key : -(1 << 20), hi = g < m.n ? m.e[g].key : 1 << 20; int key = (lo + hi) / 2; t.insert(key); m.put(g, {key, key, 1}); } heapOrder(t.root()); int i = (int)sv_choose("at", n); t.erase(m.e[i].key); m.cut(i, i + 1); heapOrder(t.root()); verify<dup::IGNORE>(t, m, 0, false); }
//@ D04 treap_part t=60 N=3 Q:N=4 -- counted treap: any insertion order and priorities, one element partially erased or inserted again: priorities stay heap ordered
ENTRY treap_part() { tcset_t t; Model m; int n = sv_param("N", 3); for (int k = 0; k < n; k++) { int g = (int)sv_choose("gap", m.n + 1), lo = g ? m.e[g - 1].key : -(1 << 20), hi = g < m.n ? m.e[g].key : 1 << 20; int key = (lo + hi) / 2; t.insert(key, 2); m.put(g, {key, key, 2}); } int i = (int)sv_choose("at", n), c = 1 + (int)sv_choose("cnt", 3); if (sv_choose("erase", 2)) { t.erase(m.e[i].key, c); if (c < 2) m.e[i].cnt -= c; else m.cut(i, i + 1); } else { t.insert(m.e[i].key, c); m.e[i].cnt += c; } verify<dup::COUNT>(t, m, 0, true); }
typedef rope<int, Rnd> rope_t;
static void eqRope(rope_t& r, const int* a, int n, bool deep) { const rope_t& c = r; CHECK(c.size() == n && c.empty() == (n == 0), "size"); for (int i = 0; i < n; i++) CHECK(c[i] == a[i] && r.at(i) == a[i], "element"); int i = 0; for (auto it = c.begin(); it != c.end(); ++it, i++) CHECK(i < n && *it == a[i], "iteration"); CHECK(i == n, "length"); if (!deep) return;
    auto b = r.begin(), e = r.end(); CHECK(e - b == n, "distance"); for (i = 0; i <= n; i++) { auto it = b + i; CHECK(it.pos() == i && it == e - (n - i) && it - b == i, "random access"); for (int j = 0; j <= n; j++) { auto jt = b; jt += j; CHECK((it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j) && (it == jt) == (i == j), "iterator order"); jt -= j; CHECK(jt == b, "-="); if (j < n) CHECK(it[j - i] == a[j], "iterator []"); } } i = n; for (auto it = r.rbegin(); it != r.rend(); ++it) CHECK(*it == a[--i], "reverse"); CHECK(i == 0, "reverse length"); }
//@ D04 rope_ops t=80 I=2 K=2 Q:I=3 Q:K=3 -- rope: insert/erase by position, iterator or range, element writes; symbolic elements and priorities
ENTRY rope_ops() { uint64_t live = sv_heap_live(); { rope_t r; int a[16], n = 0; int I = sv_param("I", 2), K = sv_param("K", 3); for (int i = 0; i < I; i++) { a[n] = SI("v", -1000, 1000); r.push_back(a[n]); n++; }
    for (int k = 0; k < K; k++) { int v = SI("v", -1000, 1000); switch (sv_choose("op", 5)) {
        case 0: { int p = (int)sv_choose("p", n + 1); if (sv_choose("it", 2)) r.insert(r.begin() + p, v); else r.insert(p, v); for (int j = n; j > p; j--) a[j] = a[j - 1]; a[p] = v; n++; break; }
        case 1: { if (!n) break; int p = (int)sv_choose("p", n); r.erase(p); for (int j = p + 1; j < n; j++) a[j - 1] = a[j]; n--; break; }
        case 2: { int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("l", n + 1 - b); r.erase(b, e); for (int j = e; j < n; j++) a[b + j - e] = a[j]; n -= e - b; break; }
        case 3: { if (!n) break; int p = (int)sv_choose("p", n); r[p] = v; a[p] = v; break; }
        default: r.push_back(v); a[n++] = v; break; } }
    eqRope(r, a, n, true); } CHECK(sv_heap_live() == live, "everything released"); }
//@ D04 rope_whole t=60 -- rope copy, move, swap, clear, comparison
ENTRY rope_whole() { uint64_t live = sv_heap_live(); { typedef rope<int, R1> rp; int a[3], b[3]; int n = (int)sv_choose("n", 4), m = (int)sv_choose("m", 4); for (int i = 0; i < n; i++) a[i] = (int)sv_choose("a", 3); for (int i = 0; i < m; i++) b[i] = (int)sv_choose("b", 3); rp r(a, a + n), s(b, b + m); int c = lexi(a, n, b, m); CHECK((r < s) == (c < 0) && (r > s) == (c > 0) && (r == s) == (c == 0) && (r != s) == (c != 0) && (r <= s) == (c <= 0) && (r >= s) == (c >= 0), "comparison");
    switch (sv_choose("op", 5)) { case 0: { rp q(r); eqSeq(q, a, n); q.clear(); eqSeq(q, a, 0); eqSeq(r, a, n); break; } case 1: { s = r; eqSeq(s, a, n); break; } case 2: { rp q(std::move(r)); eqSeq(q, a, n); s = std::move(q); eqSeq(s, a, n); break; } case 3: r.swap(s); eqSeq(r, b, m); eqSeq(s, a, n); break; default: r.clear(); r.clear(); CHECK(r.empty(), "clear"); for (int i = 0; i < m; i++) r.push_back(b[i]); eqSeq(r, b, m); break; } } CHECK(sv_heap_live() == live, "everything released"); }
//@ D04 bst_erase t=60 N=6 Q:N=7 -- distinct keys inserted in any order (every tree shape), two erased in any order, rotations in between
ENTRY bst_erase() { uint64_t live = sv_heap_live(); { set_t t; Model m; int n = sv_param("N", 6); for (int k = 0; k < n; k++) { int g = (int)sv_choose("gap", m.n + 1), lo = g ? m.e[g - 1].key : -(1 << 20), hi = g < m.n ? m.e[g].key : 1 << 20; int key = (lo + hi) / 2; t.insert(key); m.put(g, {key, key, 1}); }
    int i = (int)sv_choose("at", n); t.erase(m.e[i].key); m.cut(i, i + 1); verify<dup::IGNORE>(t, m, 0, false); switch (sv_choose("rot", 3)) { case 0: break; case 1: if (t.root().left() != t.end()) t.rotate_right(t.root()); break; default: if (t.root().right() != t.end()) t.rotate_left(t.root()); break; } verify<dup::IGNORE>(t, m, 0, false); i = (int)sv_choose("at", n - 1); t.erase(t.find_kth(i)); m.cut(i, i + 1); verify<dup::IGNORE>(t, m, 0, false); } CHECK(sv_heap_live() == live, "everything released"); }
