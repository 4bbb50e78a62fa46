// prefix_tree, aho_corasick_trie, suffix_array, palindrome_tree, direct_rmq
#include "sv.h"
#include <string>
#include <algorithm>
#include "altruct/structure/container/prefix_tree.h"
#include "altruct/structure/container/aho_corasick_trie.h"
#include "altruct/structure/container/suffix_array.h"
#include "altruct/structure/container/palindrome_tree.h"
#include "altruct/structure/container/range_minimum_query.h"
using namespace altruct::container;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
struct Str { int n = 0; char c[20]; bool operator==(const Str& o) const { if (n != o.n) return false; for (int i = 0; i < n; i++) if (c[i] != o.c[i]) return false; return true; } };
static Str word(int maxLen, int alpha) { Str s; s.n = (int)sv_choose("len", maxLen + 1); for (int i = 0; i < s.n; i++) s.c[i] = 'a' + (char)sv_choose("letter", alpha); return s; }
static Str fixed(int len, int alpha) { Str s; s.n = len; for (int i = 0; i < s.n; i++) s.c[i] = 'a' + (char)sv_choose("letter", alpha); return s; }
typedef prefix_tree<2> pt_t;
static int ordL(char c) { return c - 'a'; } static char letL(int o) { return char('a' + o); }
static int cmpS(const Str& a, const Str& b) { for (int i = 0; i < a.n && i < b.n; i++) if (a.c[i] != b.c[i]) return a.c[i] < b.c[i] ? -1 : 1; return a.n < b.n ? -1 : a.n > b.n; }
struct PM { Str w[8]; int n = 0; int find(const Str& s) const { for (int i = 0; i < n; i++) if (w[i] == s) return i + 1; return 0; } };
static void ptCheck(pt_t& t, const PM& m) {
    CHECK(t.num_words() == m.n, "number of words"); Str pre[40]; int np = 0; for (int i = 0; i < m.n; i++) for (int l = 1; l <= m.w[i].n; l++) { Str p = m.w[i]; p.n = l; bool dup = false; for (int j = 0; j < np; j++) dup = dup || pre[j] == p; if (!dup) pre[np++] = p; } CHECK(t.num_letters() == np, "shared prefixes are stored once");
    for (int i = 0; i < m.n; i++) { std::string s = t.get(i + 1, letL); CHECK((int)s.size() == m.w[i].n, "get length"); for (int j = 0; j < m.w[i].n; j++) CHECK(s[j] == m.w[i].c[j], "get letters"); CHECK(t.find(m.w[i].c, m.w[i].c + m.w[i].n, ordL) == i + 1, "find of a present word"); }
    int cnt = 0; Str last; unsigned seen = 0; t.for_each([&](const std::string& s, int id) { Str q; q.n = (int)s.size(); for (int j = 0; j < q.n; j++) q.c[j] = s[j]; CHECK(id >= 1 && id <= m.n && m.w[id - 1] == q, "for_each word"); if (cnt) CHECK(cmpS(last, q) < 0, "for_each order"); last = q; cnt++; seen |= 1u << id; }, letL); CHECK(cnt == m.n && __builtin_popcount(seen) == cnt, "for_each visits every word once"); }
//@ D06 trie_ops t=60 K=3 L=2 Q:L=3 -- prefix_tree: any history of add/append/erase (by id, by word) over binary words; last word takes the erased index
ENTRY trie_ops() { uint64_t live = sv_heap_live(); { pt_t t; PM m; int K = sv_param("K", 3), L = sv_param("L", 3); for (int k = 0; k < K; k++) switch (sv_choose("op", k ? 3 : 1)) {
    case 0: { Str s = word(L, 2); int r = t.add(s.c, s.c + s.n, ordL); int e = m.find(s); if (!s.n) { CHECK(r == 0, "the empty word is not stored"); break; } if (!e) m.w[m.n++] = s, e = m.n; CHECK(r == e, "add returns the index"); break; }
    case 1: { int id = (int)sv_choose("id", m.n + 1); Str s = word(2, 2); Str f; if (id) f = m.w[id - 1]; for (int i = 0; i < s.n; i++) f.c[f.n++] = s.c[i]; int r = t.append(id, s.c, s.c + s.n, ordL); int e = m.find(f); if (f.n && !e) m.w[m.n++] = f, e = m.n; CHECK(r == e, "append returns the index"); break; }
    default: { int id; if (sv_choose("by", 2)) { Str s = word(L, 2); id = m.find(s); CHECK(t.erase(s.c, s.c + s.n, ordL) == id, "erase by word"); } else { id = (int)sv_choose("id", m.n + 1); CHECK(t.erase(id) == id, "erase by index"); } if (id) { m.w[id - 1] = m.w[m.n - 1]; m.n--; } break; } }
    ptCheck(t, m); Str s = word(L, 2); CHECK(t.find(s.c, s.c + s.n, ordL) == m.find(s), "find"); if (m.n) { int id = (int)sv_choose("id", m.n) + 1; int c = 0, w = 0; t.for_each(id, [&](const std::string&, int) { c++; }, letL); for (int i = 0; i < m.n; i++) { Str p = m.w[i]; if (p.n >= m.w[id - 1].n) { p.n = m.w[id - 1].n; w += p == m.w[id - 1]; } } CHECK(c == w, "for_each of a prefix"); } t.clear(); PM z; ptCheck(t, z); } CHECK(sv_heap_live() == live, "everything released"); }
//@ D06 aho_match t=60 L=5 Q:L=7 -- aho_corasick_trie: occurrences of every set of up to three binary words in every text; automaton states follow the longest suffix
ENTRY aho_match() { int L = sv_param("L", 4); aho_corasick_trie<2> t; Str w[3]; int n = 1 + (int)sv_choose("n", 3); for (int i = 0; i < n; i++) { w[i] = fixed(1 + (int)sv_choose("len", 3), 2); t.insert(w[i].c, w[i].c + w[i].n, [](char c) { return c - 'a'; }); } t.build(); Str x = fixed(L, 2); int64_t r = 0; for (int i = 0; i < n; i++) for (int p = 0; p + w[i].n <= L; p++) { bool eq = true; for (int j = 0; j < w[i].n; j++) eq = eq && x.c[p + j] == w[i].c[j]; r += eq; } CHECK(t.count_matches(x.c, x.c + L, [](char c) { return c - 'a'; }) == r, "count_matches"); 
    CHECK(t.count_matches(x.c, x.c + L, [](char c) { return c - 'a'; }) == r, "second scan"); }
//@ D06 aho_long t=60 -- one long and one short word, a longer text
ENTRY aho_long() { aho_corasick_trie<2> t; Str w[2] = {fixed(5, 2), fixed(2, 2)}; for (auto& s : w) t.insert(s.c, s.c + s.n, [](char c) { return c - 'a'; }); t.build(); Str x = fixed(8, 2); int64_t r = 0; for (int i = 0; i < 2; i++) for (int p = 0; p + w[i].n <= 8; p++) { bool eq = true; for (int j = 0; j < w[i].n; j++) eq = eq && x.c[p + j] == w[i].c[j]; r += eq; } CHECK(t.count_matches(x.c, x.c + 8, [](char c) { return c - 'a'; }) == r, "count_matches"); }
typedef suffix_array<char, int> sa_t;
static int cmpSuf(const Str& s, int i, int j) { while (i < s.n && j < s.n) { if (s.c[i] != s.c[j]) return s.c[i] < s.c[j] ? -1 : 1; i++, j++; } return i == s.n ? (j == s.n ? 0 : -1) : 1; }
static void saCheck(const Str& s) { sa_t a(s.c, s.c + s.n); int n = s.n; CHECK(a.size() == n, "size"); unsigned seen = 0; for (int k = 0; k <= n; k++) { int p = a.get_kth_suffix(k); CHECK(p >= 0 && p <= n, "position"); seen |= 1u << p; CHECK(a.get_suffix_order(p) == k, "inverse"); if (k) CHECK(cmpSuf(s, a.get_kth_suffix(k - 1), p) < 0, "suffixes in increasing order"); } CHECK(seen == (2u << n) - 1, "permutation");
    int i = (int)sv_choose("i", n + 1), j = (int)sv_choose("j", n + 1); int l = 0; while (i + l < n && j + l < n && s.c[i + l] == s.c[j + l]) l++; CHECK(a.get_lcp(i, j) == l, "lcp"); int e1 = i + (int)sv_choose("e1", n - i + 1), e2 = j + (int)sv_choose("e2", n - j + 1); Str x, y; for (int q = i; q < e1; q++) x.c[x.n++] = s.c[q]; for (int q = j; q < e2; q++) y.c[y.n++] = s.c[q]; CHECK(a.compare_substrings(i, e1, j, e2) == cmpS(x, y), "compare_substrings"); }
//@ D06 sa_binary t=80 N=6 Q:N=9 -- suffix_array of every binary string: order, inverse, lcp of every pair, comparison of every pair of substrings
ENTRY sa_binary() { saCheck(fixed((int)sv_choose("n", sv_param("N", 6) + 1), 2)); }
//@ D06 sa_ternary t=80 N=5 Q:N=6 -- the same over three letters
ENTRY sa_ternary() { saCheck(fixed((int)sv_choose("n", sv_param("N", 5)) + 1, 3)); }
//@ D06 sa_order t=80 N=13 Q:N=16 -- order and inverse for longer binary strings (SA-IS recursion several levels deep)
ENTRY sa_order() { Str s = fixed(sv_param("N", 12), 2); int n = s.n; std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(s.c[i] - 'a'); suffix_array<int, int> a(v.begin(), v.end()); unsigned seen = 0; for (int k = 0; k <= n; k++) { int p = a.get_kth_suffix(k); seen |= 1u << p; if (k) CHECK(cmpSuf(s, a.get_kth_suffix(k - 1), p) < 0, "suffixes in increasing order"); } CHECK(seen == (2u << n) - 1, "permutation"); }
typedef palindrome_tree<3> pal_t;
//@ D06 pal_tree t=60 N=6 Q:N=8 -- palindrome_tree: every ternary string, after each letter: distinct, total, longest suffix; then multiplicities, positions, suffix chains
ENTRY pal_tree() { Str s = fixed(sv_param("N", 6), 3); pal_t t; int n = 0; auto isp = [&](int b, int e) { while (b < --e) if (s.c[b++] != s.c[e]) return false; return true; }; auto same = [&](int p, int q, int l) { for (int i = 0; i < l; i++) if (s.c[p + i] != s.c[q + i]) return false; return true; };
    int total = 0, distinct = 0; for (; n < s.n; n++) { int add = t.add(s.c[n], pal_t::ordinal_lower_alpha); int e = n + 1; int fresh = 0, longest = 0; for (int b = 0; b <= n; b++) if (isp(b, e)) { total++; if (!longest) longest = e - b; bool seen = false; for (int p = 0; p + (e - b) < e && !seen; p++) seen = same(p, b, e - b); if (!seen) fresh++; } distinct += fresh; CHECK(add == fresh, "add reports a new palindrome"); CHECK(t.total() == total && t.distinct() == distinct, "total and distinct"); CHECK(t[t.longest_suffix()].len == longest, "longest palindromic suffix"); }
    { pal_t u; std::string w; for (int i = 0; i < s.n; i++) w += (char)s.c[i]; CHECK(u.add_all(w.begin(), w.end(), pal_t::ordinal_lower_alpha) == distinct && u.total() == total && u.distinct() == distinct && u.size() == t.size(), "adding a whole string"); }
    t.propagate(); CHECK(t.size() == distinct + t.first(), "size"); for (int i = t.first(); i < t.size(); i++) { auto& v = t[i]; CHECK(v.len > 0 && v.pos >= 0 && v.pos + v.len <= s.n && isp(v.pos, v.pos + v.len), "node is a palindrome"); int c = 0, first = -1; for (int p = 0; p + v.len <= s.n; p++) if (same(p, v.pos, v.len)) { c++; if (first < 0) first = p; } CHECK(v.cnt == c && v.pos == first, "multiplicity and first occurrence"); int d = 0, best = 0; for (int l = 1; l <= v.len; l++) if (isp(v.pos + v.len - l, v.pos + v.len)) { d++; if (l < v.len) best = l; } CHECK(v.depth == d && t[v.suff].len == best, "suffix chain"); for (int j = t.first(); j < i; j++) CHECK(t[j].len != v.len || !same(t[j].pos, v.pos, v.len), "distinct nodes"); }
    std::vector<char> sv(s.c, s.c + s.n); pal_t u(sv.begin(), sv.end(), pal_t::ordinal_lower_alpha); CHECK(u.total() == total && u.distinct() == distinct, "range constructor"); }
struct Lt { bool operator()(int a, int b) const { return sv_concretize(a < b) != 0; } };
template<int B> void rmq(int N, int w) { int n = 1 + (int)sv_choose("n", N); std::vector<int> a; for (int i = 0; i < n; i++) a.push_back((int)sv_choose("a", w)); direct_rmq<int, std::less<int>, int, B> r; r.build(a.begin(), a.end()); for (int b = 0; b < n; b++) for (int e = b + 1; e <= n; e++) { int m = a[b]; for (int i = b; i < e; i++) m = a[i] < m ? a[i] : m; int x = r.get_index(b, e); CHECK(x >= b && x < e && a[x] == m && r.get_value(b, e) == m, "range minimum"); } }
//@ D06 rmq_b2 t=60 -- direct_rmq, blocks of 2: every array over 3 values up to length 8
ENTRY rmq_b2() { rmq<2>(8, 3); }
//@ D06 rmq_b1 t=60 -- blocks of 1: every binary array up to length 12
ENTRY rmq_b1() { rmq<1>(12, 2); }
//@ D06 rmq_b3 t=60 -- blocks of 3: every array over 4 values up to length 6
ENTRY rmq_b3() { rmq<3>(6, 4); }
//@ D06 rmq_sym t=60 N=4 Q:N=5 -- symbolic values, blocks of 4: every order type of N values inside one block, sparse levels with 19 elements
ENTRY rmq_sym() { int k = sv_param("N", 4); int at = (int)sv_choose("at", 16); std::vector<int> a; for (int i = 0; i < 19; i++) a.push_back(100 + i % 5); for (int i = 0; i < k && at + i < 19; i++) a[at + i] = SI("v", 0, 200); direct_rmq<int, Lt, int, 4> r; r.build(a.begin(), a.end()); int b = (int)sv_choose("b", 3) * 3, e = 19 - (int)sv_choose("e", 4) * 2; int x = r.get_index(b, e); CHECK(x >= b && x < e, "index in range"); bool ok = true; for (int i = b; i < e; i++) ok = ok && !(a[i] < a[x]); CHECK(ok, "range minimum"); }
//@ D06 rmq_len t=60 -- sparse table coverage: every length to 40 with blocks of 1, one minimum anywhere
ENTRY rmq_len() { int n = 1 + (int)sv_choose("n", 40); int p = (int)sv_choose("p", n); std::vector<int> a(n, 1); a[p] = 0; direct_rmq<int, std::less<int>, int, 1> r; r.build(a.begin(), a.end()); for (int b = 0; b < n; b++) for (int e = b + 1; e <= n; e++) { int x = r.get_index(b, e); CHECK(x >= b && x < e && a[x] == !(b <= p && p < e), "range minimum"); } }
