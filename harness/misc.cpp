// hashes, searches, collection helpers, shunting yard, symbolic strings
#include "field.h"
#include <algorithm>
#include <string>
#include <list>
#include <cmath>
#include "altruct/algorithm/hash/polynomial_hash.h"
#include "altruct/algorithm/hash/std_tuple_hash.h"
#include "altruct/algorithm/search/kmp_search.h"
#include "altruct/algorithm/search/binary_search.h"
#include "altruct/algorithm/collections/collections.h"
#include "altruct/algorithm/parser/shunting_yard.h"
#include "altruct/structure/math/symbolic.h"
using namespace altruct;
using namespace altruct::hash;
// ---------------------------------------------------------------- polynomial hashes
typedef polynomial_hash1<101, 31, 88> pa; typedef polynomial_hash1<2147483647, 31, 2078209981> pb; typedef polynomial_hash<2> pc; typedef polynomial_hash<3, int64_t, int64_t> pd;
namespace altruct { namespace hash { template<> int32_t pc::M[2] = {101, 10007}; template<> int32_t pc::B[2] = {31, 31}; template<> int32_t pc::BI[2] = {88, 8393};
template<> int64_t pd::M[3] = {7, 1000000007, 101}; template<> int64_t pd::B[3] = {3, 5, 31}; template<> int64_t pd::BI[3] = {5, 400000003, 88}; } }
template<typename P> struct Sp;
template<> struct Sp<pa> { static const int K = 1; static int64_t m(int) { return 101; } static int64_t b(int) { return 31; } static int64_t h(const pa& p, int) { return p.h; } static pa of(int64_t x, int64_t, int64_t) { return pa((int)x); } };
template<> struct Sp<pb> { static const int K = 1; static int64_t m(int) { return 2147483647; } static int64_t b(int) { return 31; } static int64_t h(const pb& p, int) { return p.h; } static pb of(int64_t x, int64_t, int64_t) { return pb((int)x); } };
template<> struct Sp<pc> { static const int K = 2; static int64_t m(int k) { return k ? 10007 : 101; } static int64_t b(int) { return 31; } static int64_t h(const pc& p, int k) { return p.h[k]; } static pc of(int64_t x, int64_t y, int64_t) { return pc({(int)x, (int)y}); } };
template<> struct Sp<pd> { static const int K = 3; static int64_t m(int k) { return k == 0 ? 7 : k == 1 ? 1000000007 : 101; } static int64_t b(int k) { return k == 0 ? 3 : k == 1 ? 5 : 31; } static int64_t h(const pd& p, int k) { return p.h[k]; } static pd of(int64_t x, int64_t y, int64_t z) { return pd({x, y, z}); } };
static int64_t pw(int64_t b, int e, int64_t m) { int64_t r = 1; while (e--) r = r * b % m; return r; }
// the hash of s[b..e) is the sum of s[i] * B^(i-b) modulo every M
template<typename P> static void cumul(int N, int top) { int n = 1 + (int)sv_choose("n", N); std::vector<int> s; for (int i = 0; i < n; i++) s.push_back(SI("s", 0, top)); int pre = (int)sv_choose("pre", n + 1); cumulative_hash<P> c; if (sv_choose("how", 2)) c = cumulative_hash<P>(s.begin(), s.begin() + pre); else c.assign(s.begin(), s.begin() + pre); for (int i = pre; i < n; i++) { if (sv_choose("undo", 2)) { c.push_back(1); c.pop_back(); } c.push_back(s[i]); } CHECK((int)c.size() == n, "size");
    int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("e", n - b + 1); P g = c.get(b, e); for (int k = 0; k < Sp<P>::K; k++) { int64_t m = Sp<P>::m(k), w = 0; for (int i = b; i < e; i++) w += s[i] * pw(Sp<P>::b(k), i - b, m); CHECK(Sp<P>::h(g, k) == w % m, "hash of a substring is its polynomial value"); } }
//@ H01 ph_cum_a t=60 N=6 -- cumulative_hash over one small modulus: every substring, built by range and push_back/pop_back
ENTRY ph_cum_a() { cumul<pa>(sv_param("N", 4), 3); }
//@ H01 ph_cum_b t=60 N=4 -- modulus 2^31-1
ENTRY ph_cum_b() { cumul<pb>(sv_param("N", 3), 3); }
//@ H01 ph_cum_c t=60 N=4 -- two moduli
ENTRY ph_cum_c() { cumul<pc>(sv_param("N", 3), 3); }
//@ H01 ph_cum_d t=60 N=4 -- three moduli, 64-bit
ENTRY ph_cum_d() { cumul<pd>(sv_param("N", 3), 3); }
template<typename P> static int64_t val(const char* nm, int k, int w) { int64_t m = Sp<P>::m(k); if (k >= Sp<P>::K) return 0; if (m <= 128) return (int64_t)SU(nm, 0, m - 1); return sv_choose("end", 2) ? m - 1 - (int64_t)SU(nm, 0, w) : (int64_t)SU(nm, 0, w); }
template<typename P> static void ops(int w) { int64_t x[3], y[3]; for (int k = 0; k < Sp<P>::K; k++) { x[k] = val<P>("x", k, w); y[k] = val<P>("y", k, w); } P a = Sp<P>::of(x[0], x[1], x[2]), b = Sp<P>::of(y[0], y[1], y[2]); int c = (int)sv_choose("cnt", 4); P big; big <<= (int)sv_choose("grow", 2) * 5;
    bool lt = false, eq = true; for (int k = 0; k < Sp<P>::K; k++) { lt = lt || (eq && x[k] < y[k]); eq = eq && x[k] == y[k]; } 
    int op = (int)sv_choose("op", 8); P r; switch (op) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a << c; break; case 4: r = a >> c; break; case 5: r = a; r.add(b, c); break; case 6: r = a; r.sub_shr(b, c); break; default: CHECK((a < b) == lt && (a == b) == eq, "comparison"); CHECK((int64_t)(size_t)a.hash() == x[0], "hash"); CHECK(Sp<P>::h(P(), 0) == 0, "default"); return; }
    for (int k = 0; k < Sp<P>::K; k++) { int64_t m = Sp<P>::m(k), h = Sp<P>::h(r, k), B = pw(Sp<P>::b(k), c, m); CHECK(h >= 0 && h < m, "reduced"); int64_t l, rr; switch (op) { case 0: l = h, rr = x[k] + y[k]; break; case 1: l = h + y[k], rr = x[k]; break; case 2: l = h, rr = x[k] * y[k]; break; case 3: l = h, rr = x[k] * B; break; case 4: l = h * B, rr = x[k]; break; case 5: l = h, rr = x[k] + y[k] * B; break; default: l = h * B + y[k], rr = x[k]; } CHECK(l % m == rr % m, "operator equals its definition"); } }
//@ H01 ph_ops_a t=60 -- operators over one small modulus, both operands arbitrary
ENTRY ph_ops_a() { ops<pa>(7); }
//@ H01 ph_ops_b t=60 -- modulus 2^31-1, operands near both ends of the range
ENTRY ph_ops_b() { ops<pb>(7); }
//@ H01 ph_ops_c t=60 -- two moduli
ENTRY ph_ops_c() { ops<pc>(3); }
//@ H01 ph_ops_d t=60 -- three moduli, 64-bit
ENTRY ph_ops_d() { ops<pd>(3); }
//@ H01 ph_scalar t=60 -- forms with a scalar right operand
ENTRY ph_scalar() { int64_t x = SU("x", 0, 100), y = SU("y", 0, 3); pc a{(int)x, (int)y}; int s = SI("s", 0, 100); int c = (int)sv_choose("cnt", 3); int op = (int)sv_choose("op", 5); pc r = op == 0 ? a + s : op == 1 ? a - s : op == 2 ? a * s : a; if (op == 3) r.add(s, c); if (op == 4) r.sub_shr(s, c); for (int k = 0; k < 2; k++) { int64_t m = Sp<pc>::m(k), B = pw(31, c, m), v = k ? y : x, h = r.h[k]; CHECK(h >= 0 && h < m, "reduced"); int64_t l = op == 1 ? h + s : op == 4 ? h * B + s : h, q = op == 0 ? v + s : op == 2 ? v * s : op == 3 ? v + s * B : v; CHECK(l % m == q % m, "operator equals its definition"); } }
// ---------------------------------------------------------------- std::hash of tuples
static size_t comb(size_t s, size_t v) { return s ^ (v + 0x9e3779b9 + (s << 6) + (s >> 2)); }
//@ H01 tuple_hash t=60 -- hash of a tuple or pair combines the hashes of its components in order, starting from zero
ENTRY tuple_hash() { int a = SI("a", -1000000, 1000000); uint64_t b = SU("b", 0, ~0ull); char c = (char)SI("c", -128, 127); std::hash<int> hi; std::hash<uint64_t> hu; std::hash<char> hc; size_t s = SU("seed", 0, ~0ull), s0 = s; std::hash_combine(s, b); CHECK(s == comb(s0, hu(b)), "hash_combine");
    CHECK(std::hash<std::tuple<int>>()(std::make_tuple(a)) == comb(0, hi(a)), "one"); CHECK((std::hash<std::tuple<int, uint64_t>>()(std::make_tuple(a, b))) == comb(comb(0, hi(a)), hu(b)), "two"); CHECK((std::hash<std::tuple<int, uint64_t, char>>()(std::make_tuple(a, b, c))) == comb(comb(comb(0, hi(a)), hu(b)), hc(c)), "three"); CHECK((std::hash<std::pair<uint64_t, char>>()(std::make_pair(b, c))) == comb(comb(0, hu(b)), hc(c)), "pair"); }
//@ H01 tuple_hash_inj t=60 -- combining keeps different last components apart (all other components equal)
ENTRY tuple_hash_inj() { uint64_t a = SU("a", 0, ~0ull), b = SU("b", 0, ~0ull), c = SU("c", 0, ~0ull); auto h = [](uint64_t x, uint64_t y) { return std::hash<std::tuple<uint64_t, uint64_t>>()(std::make_tuple(x, y)); }; if (b != c) CHECK(h(a, b) != h(a, c), "last component"); }
// ---------------------------------------------------------------- searching
//@ H01 kmp_all t=60 N=8 Q:N=9 -- kmp_search: exactly the matches of any pattern in any text (symbolic letters over two values), in order, overlaps included
ENTRY kmp_all() { int n = (int)sv_choose("n", sv_param("N", 6) + 1), m = 1 + (int)sv_choose("m", 4); struct L { int v; bool operator==(L o) const { return sv_concretize(v == o.v) != 0; } bool operator!=(L o) const { return !(*this == o); } }; L t[10], p[10]; for (int i = 0; i < n; i++) t[i].v = SI("t", 0, 2); for (int i = 0; i < m; i++) p[i].v = SI("p", 0, 2); int got[12], g = 0; size_t r = search::kmp_search(t, n, p, m, [&](size_t pos) { got[g++] = (int)pos; return true; }); int e = 0; bool ok = true; int last = n; for (int i = 0; i + m <= n; i++) { bool eq = true; for (int j = 0; j < m; j++) eq = eq && t[i + j].v == p[j].v; bool rep = false; for (int j = 0; j < g; j++) rep = rep || got[j] == i; ok = ok && eq == rep; if (rep) { e++; last = i; } } for (int j = 1; j < g; j++) ok = ok && got[j - 1] < got[j]; CHECK(ok && e == g, "all matches in order, nothing else"); CHECK((int)r == last, "returns the last reported position"); }
//@ H01 kmp_word t=60 N=11 Q:N=13 -- every binary text and pattern (up to length 5); stopping from the callback after any number of matches
ENTRY kmp_word() { int n = sv_param("N", 10), m = 1 + (int)sv_choose("m", 5); char p[8], t[16]; for (int i = 0; i < m; i++) p[i] = 'a' + (char)(i ? sv_choose("p", 2) : 0); unsigned w = (unsigned)SU("text", 0, (1u << n) - 1); for (int i = 0; i < n; i++) t[i] = 'a' + (char)sv_concretize(w >> i & 1); int stop = (int)sv_choose("stop", 3), c = 0; int got[16]; size_t r = search::kmp_search(t, n, p, m, [&](size_t pos) { got[c++] = (int)pos; return stop == 0 || c < stop; }); int e = 0, last = n; for (int i = 0; i + m <= n && !(stop && e == stop); i++) { bool eq = true; for (int j = 0; j < m; j++) eq = eq && t[i + j] == p[j]; if (eq) { CHECK(e < c && got[e] == i, "match reported"); e++; last = i; } } CHECK(e == c && (int)r == last, "reports until the callback stops"); }
//@ H01 bs_pred t=60 N=24 -- binary_search_pred: symbolic threshold, every range; integers and pointers
ENTRY bs_pred() { int lo = SI("lo", -100, 100), n = (int)sv_choose("n", sv_param("N", 24) + 1); int t = SI("t", -150, 150); int r = search::binary_search_pred(lo, lo + n, [&](int x) { CHECK(x >= lo && x < lo + n, "predicate is only evaluated inside the range"); return sv_concretize(x >= t) != 0; }); CHECK(r == (t <= lo ? lo : t >= lo + n ? lo + n : t), "first index for which the predicate holds"); int a[32]; for (int i = 0; i < n; i++) a[i] = lo + i; int* p = search::binary_search_pred(a, a + n, [&](int* x) { return sv_concretize(*x >= t) != 0; }); CHECK(p - a == r - lo, "pointers"); }
//@ H01 bs_wide t=60 -- limits next to each other at both ends of the 64-bit range: no overflow for hi - lo within range
ENTRY bs_wide() { bool top = sv_choose("top", 2); int64_t mx = 0x7fffffffffffffffll, lo = top ? mx - 20 : -mx - 1, hi = top ? mx : -mx - 1 + 20; int64_t t = lo + (int64_t)SU("t", 0, 20); int64_t r = search::binary_search_pred(lo, hi, [&](int64_t x) { return sv_concretize(x >= t) != 0; }); CHECK(r == t, "first index"); int64_t q = search::binary_search_num<int64_t>(lo, hi, 1, [&](int64_t x) { return sv_concretize(x >= t) != 0; }); CHECK(q == t, "binary_search_num"); }
//@ H01 bs_num t=60 N=9 lia=1 -- lower_bound_num / upper_bound_num of any monotone symbolic function in either direction
ENTRY bs_num() { int n = (int)sv_choose("n", sv_param("N", 9) + 1); struct V { int v; bool operator<(V o) const { return sv_concretize(v < o.v) != 0; } bool operator>(V o) const { return o < *this; } bool operator<=(V o) const { return !(o < *this); } bool operator>=(V o) const { return !(*this < o); } }; bool dec = sv_choose("decreasing", 2); int lo = (int)sv_choose("lo", 3) * 7 - 10; V a[12]; for (int i = 0; i < n; i++) { a[i].v = SI("a", -1000, 1000); if (i) sv_assume(dec ? a[i - 1].v >= a[i].v : a[i - 1].v <= a[i].v); } V x{SI("x", -1000, 1000)}; auto f = [&](int i) { CHECK(i >= lo && i < lo + n, "inside the range"); return a[i - lo]; }; bool up = sv_choose("upper", 2); if (!dec) CHECK(search::upper_bound_num(lo, lo + n, 1, x, f) == search::upper_bound_num(lo, lo + n, 1, x, f, false) && search::lower_bound_num(lo, lo + n, 1, x, f) == search::lower_bound_num(lo, lo + n, 1, x, f, false), "not decreasing unless told so"); int r = (up ? search::upper_bound_num(lo, lo + n, 1, x, f, dec) : search::lower_bound_num(lo, lo + n, 1, x, f, dec)) - lo; CHECK(r >= 0 && r <= n, "in range"); bool ok = true; for (int i = 0; i < n; i++) { bool c = up ? (dec ? a[i].v < x.v : a[i].v > x.v) : (dec ? a[i].v <= x.v : a[i].v >= x.v); ok = ok && c == (i >= r); } CHECK(ok, "partition point"); }
// ---------------------------------------------------------------- collections
namespace cl = altruct::collections;
struct Or { int v; bool operator<(Or o) const { return sv_concretize(v < o.v) != 0; } bool operator==(Or o) const { return sv_concretize(v == o.v) != 0; } };
//@ H01 col_sorted t=60 N=4 Q:N=5 -- sorted: any order type; a permutation of the input in ascending order
ENTRY col_sorted() { int n = (int)sv_choose("n", sv_param("N", 4) + 1); std::vector<Or> v; for (int i = 0; i < n; i++) v.push_back({SI("v", 0, 1000)}); auto u = v; auto r = sv_choose("c", 2) ? cl::sorted(v) : cl::sorted(v.begin(), v.end()); CHECK((int)r.size() == n && (int)v.size() == n, "size"); int probe = SI("probe", 0, 1000); int c1 = 0, c2 = 0; bool ok = true, same = true; for (int i = 0; i < n; i++) { c1 += v[i].v == probe; c2 += r[i].v == probe; same = same && v[i].v == u[i].v; if (i) ok = ok && r[i - 1].v <= r[i].v; } CHECK(ok && c1 == c2, "ascending permutation"); CHECK(same, "input untouched"); }
//@ H01 col_basic t=60 -- reversed, take, filter, transform, run_length, contains for any contents
ENTRY col_basic() { int n = (int)sv_choose("n", 6); std::vector<Or> v; for (int i = 0; i < n; i++) v.push_back({SI("v", 0, 2)}); std::list<Or> l(v.begin(), v.end()); bool c = sv_choose("c", 2); switch (sv_choose("f", 6)) {
    case 0: { auto r = c ? cl::reversed(l) : cl::reversed(v.begin(), v.end()); CHECK((int)r.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(r[i].v == v[n - 1 - i].v, "reversed"); break; }
    case 1: { int k = (int)sv_choose("k", n + 2); auto r = c ? cl::take(l, k) : cl::take(v.begin(), v.end(), k); CHECK((int)r.size() == (k < n ? k : n), "take size"); for (size_t i = 0; i < r.size(); i++) CHECK(r[i].v == v[i].v, "take"); break; }
    case 2: { int t = SI("t", 0, 2); auto p = [&](Or x) { return x == Or{t}; }; auto r = c ? cl::filter(l, p) : cl::filter(v.begin(), v.end(), p); int w = 0; for (int i = 0; i < n; i++) w += v[i].v == t; CHECK((int)r.size() == w, "filter size"); for (auto x : r) CHECK(x.v == t, "filter"); break; }
    case 3: { int t = SI("t", -50, 50); auto f = [&](Or x) { return (long)x.v * 3 + t; }; std::vector<long> r = c ? cl::transform(l, f) : cl::transform(v.begin(), v.end(), f); CHECK((int)r.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(r[i] == v[i].v * 3l + t, "transform"); break; }
    case 4: { auto r = c ? cl::run_length(l) : cl::run_length(v.begin(), v.end()); int at = 0; for (size_t j = 0; j < r.size(); j++) { CHECK(r[j].second >= 1 && at + r[j].second <= n, "positive run"); for (int q = 0; q < r[j].second; q++) CHECK(v[at++].v == r[j].first.v, "run contents"); if (j) CHECK(r[j - 1].first.v != r[j].first.v, "maximal runs"); } CHECK(at == n, "runs cover everything"); break; }
    default: { int t = SI("t", 0, 3); bool r = c ? cl::contains(l, Or{t}) : cl::contains(v.begin(), v.end(), Or{t}); bool e = false; for (int i = 0; i < n; i++) e = e || v[i].v == t; CHECK(r == e, "contains"); } } }
//@ H01 col_filter_order t=60 -- filter keeps the order of the elements (any predicate)
ENTRY col_filter_order() { int n = (int)sv_choose("n", 7); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(SI("v", -1000, 1000)); unsigned mask = (unsigned)sv_choose("mask", 1u << n); int at = 0; auto r = cl::filter(v, [&](int) { return mask >> at++ & 1; }); int j = 0; for (int i = 0; i < n; i++) if (mask >> i & 1) CHECK(r[j++] == v[i], "kept in order"); CHECK(j == (int)r.size() && at == n, "nothing else; predicate called once per element"); }
//@ H01 col_compare t=60 -- compare: lexicographic, a proper prefix is smaller, at most max_len elements
ENTRY col_compare() { int n = (int)sv_choose("n", 5), m = (int)sv_choose("m", 5); std::vector<Or> a, b; for (int i = 0; i < n; i++) a.push_back({SI("a", -9, 9)}); for (int i = 0; i < m; i++) b.push_back({SI("b", -9, 9)}); int k = (int)sv_choose("max", 6); size_t mx = k == 5 ? (size_t)-1 : k; int r = cl::compare(a.begin(), a.end(), b.begin(), b.end(), mx); if (k == 5) CHECK(cl::compare(a.begin(), a.end(), b.begin(), b.end()) == r, "default: the whole sequences"); int nn = n, mm = m; if (k < 5) { nn = n < k ? n : k; mm = m < k ? m : k; } int e = nn < mm ? -1 : nn > mm ? 1 : 0; for (int i = (nn < mm ? nn : mm) - 1; i >= 0; i--) e = a[i].v < b[i].v ? -1 : a[i].v > b[i].v ? 1 : e; CHECK(r == e, "comparison of the first max_len elements"); }
//@ H01 col_reserve t=60 -- reserve_more: enough room, contents kept, growth at least by half
ENTRY col_reserve() { int n = (int)sv_choose("n", 6), cap = (int)sv_choose("cap", 8), sz = (int)sv_choose("sz", 12); std::vector<int> v; v.reserve(cap); for (int i = 0; i < n; i++) v.push_back(SI("v", -100, 100)); auto u = v; size_t c0 = v.capacity(); cl::reserve_more(v, sz); CHECK(v.capacity() >= v.size() + sz, "room for sz more"); CHECK(v.capacity() == c0 || v.capacity() >= c0 + c0 / 2, "exponential growth"); if (n + sz <= (int)c0) CHECK(v.capacity() == c0, "no reallocation when there is room"); CHECK((int)v.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(v[i] == u[i], "contents"); }
// ---------------------------------------------------------------- shunting yard
using namespace altruct::parser::shunting_yard;
typedef infix_token::type_t IT_; typedef postfix_token::type_t PT_; typedef operator_desc::assoc_t As; typedef operator_desc::arity_t Ar;
// 0 '+' left, 1 '*' left, 2 prefix, 3 '^' right, 4 postfix, 5 second '+'-level operator, 6.. functions of 0, 1, 2, 3 arguments
struct Gr { int prec[6]; };
static std::vector<operator_desc> desc(const Gr& g) { return {{g.prec[0], As::LEFT, Ar::BINARY}, {g.prec[1], As::LEFT, Ar::BINARY}, {g.prec[2], As::RIGHT, Ar::UNARY}, {g.prec[3], As::RIGHT, Ar::BINARY}, {g.prec[4], As::LEFT, Ar::UNARY}, {g.prec[0], As::LEFT, Ar::BINARY}}; }
struct Nd { int op, n, c[3]; }; // op -1: operand
struct Ast { Nd a[40]; int n = 0, leaves = 0; };
static int gen(Ast& t, int depth, int budget) { int id = t.n++; Nd d; d.n = 0; d.op = -1; if (depth > 0) { int k = (int)sv_choose("node", 11); if (k) { d.op = k - 1; d.n = d.op == 2 || d.op == 4 ? 1 : d.op < 6 ? 2 : d.op - 6; } } if (d.op < 0) { d.c[0] = t.leaves++; t.a[id] = d; return id; } for (int i = 0; i < d.n; i++) d.c[i] = gen(t, depth - 1, budget); t.a[id] = d; return id; }
struct Pr { const Gr& g; const Ast& t; std::vector<infix_token> in; std::vector<postfix_token> post; unsigned extra;
    int prec(int id) const { int o = t.a[id].op; return o < 0 || o >= 6 ? 1000 : g.prec[o == 5 ? 0 : o]; }
    void paren(int id, bool need, bool open) { need = need || (extra & 1); extra >>= 1; if (need) in.push_back({IT_::LEFT_PARENTHESIS, 0}); put(id, need ? false : open); if (need) in.push_back({IT_::RIGHT_PARENTHESIS, 0}); }
    // the loosest operator a text ends with (a prefix operator or a right operand extends to the right)
    int tail(int id) const { const Nd& d = t.a[id]; if (d.op < 0 || d.op >= 6 || d.op == 4) return 1000; int me = prec(id); int r = d.c[d.n - 1]; int pr = rp(id) ? 1000 : tail(r); return me < pr ? me : pr; }
    bool rp(int id) const { const Nd& d = t.a[id]; int r = d.c[d.n - 1]; if (t.a[r].op == 2) return false; int me = prec(id), p = prec(r); if (d.op == 2) return p < me; return p < me || (p == me && d.op != 3); }
    bool lp(int id) const { const Nd& d = t.a[id]; int l = d.c[0]; int me = prec(id), p = tail(l) < prec(l) ? tail(l) : prec(l); return p < me || (p == me && d.op == 3); }
    void put(int id, bool) { const Nd& d = t.a[id]; if (d.op < 0) { in.push_back({IT_::OPERAND, d.c[0]}); return; } if (d.op >= 6) { in.push_back({IT_::FUNCTION, d.op}); in.push_back({IT_::LEFT_PARENTHESIS, 0}); for (int i = 0; i < d.n; i++) { if (i) in.push_back({IT_::SEPARATOR, 0}); paren(d.c[i], false, false); } in.push_back({IT_::RIGHT_PARENTHESIS, 0}); return; }
        if (d.op == 2) { in.push_back({IT_::OPERATOR, 2}); paren(d.c[0], rp(id), true); return; } if (d.op == 4) { paren(d.c[0], lp(id), false); in.push_back({IT_::OPERATOR, 4}); return; } paren(d.c[0], lp(id), false); in.push_back({IT_::OPERATOR, d.op}); paren(d.c[1], rp(id), true); }
    void expect(int id) { const Nd& d = t.a[id]; if (d.op < 0) { post.push_back({PT_::OPERAND, d.c[0], 0}); return; } for (int i = 0; i < d.n; i++) expect(d.c[i]); post.push_back({PT_::FUNCTION, d.op, d.n}); } };
static W32 ap(int op, const W32* a) { switch (op) { case 0: return a[0] + a[1]; case 1: return a[0] * a[1]; case 2: return -a[0]; case 3: return a[0] * W32(5) + a[1] * W32(3) + W32(1); case 4: return a[0] * a[0] + W32(7); case 5: return a[0] - a[1]; case 6: return W32(11); case 7: return a[0] + W32(2); case 8: return a[0] * W32(13) - a[1]; default: return a[0] * W32(17) + a[1] * W32(19) + a[2]; } }
struct Evs { struct E { int op; W32 operator()(W32* a) const { return ap(op, a); } }; E operator[](int i) const { return E{i}; } };
static W32 value(const Ast& t, int id, const std::vector<W32>& v) { const Nd& d = t.a[id]; if (d.op < 0) return v[d.c[0]]; W32 a[3]; for (int i = 0; i < d.n; i++) a[i] = value(t, d.c[i], v); return ap(d.op, a); }
static void sy(const Ast& t, const int* roots, int nr, const Gr& g, unsigned extra) { Pr p{g, t, {}, {}, extra}; for (int i = 0; i < nr; i++) { if (i) p.in.push_back({IT_::SEPARATOR, 0}); p.paren(roots[i], false, false); } for (int i = 0; i < nr; i++) p.expect(roots[i]); auto r = infix_to_postfix(p.in, desc(g)); CHECK(r.size() == p.post.size(), "number of postfix tokens"); for (size_t i = 0; i < r.size(); i++) CHECK(r[i] == p.post[i], "postfix order"); std::vector<W32> v; for (int i = 0; i < t.leaves; i++) v.push_back(w32("v")); auto e = evaluate_postfix(r, v, Evs()); CHECK((int)e.size() == nr, "one value per expression"); for (int i = 0; i < nr; i++) CHECK(e[i] == value(t, roots[i], v), "value of the expression"); }
static const Gr g1 = {{10, 11, 20, 12, 30, 0}}, g2 = {{10, 11, 12, 12, 13, 0}}, g3 = {{10, 12, 11, 13, 14, 0}}, g4 = {{1, 2, 0, 3, 4, 0}};
static const Gr& gram() { switch (sv_choose("grammar", 4)) { case 0: return g1; case 1: return g2; case 2: return g3; default: return g4; } }
//@ H01 sy_small t=80 -- infix_to_postfix and evaluation: every expression of depth 2 over binary left/right, prefix, postfix operators and functions, 4 precedence orders, with or without redundant parentheses, symbolic operands
ENTRY sy_small() { const Gr& g = gram(); Ast t; int r = gen(t, 2, 0); sy(t, &r, 1, g, (unsigned)sv_choose("parens", 2) * 0x55); }
static int chain(Ast& t, int depth) { int id = t.n++; Nd d; if (!depth) { d.op = -1; d.n = 0; d.c[0] = t.leaves++; t.a[id] = d; return id; } d.op = (int)sv_choose("op", 5); d.n = d.op == 2 || d.op == 4 ? 1 : 2; int deep = d.n == 2 ? (int)sv_choose("side", 2) : 0; for (int i = 0; i < d.n; i++) if (i == deep) d.c[i] = chain(t, depth - 1); else { int l = t.n++; t.a[l].op = -1; t.a[l].n = 0; t.a[l].c[0] = t.leaves++; d.c[i] = l; } t.a[id] = d; return id; }
//@ H01 sy_deep t=80 D=4 Q:D=5 -- nested operators along one path, minimal parentheses
ENTRY sy_deep() { const Gr& g = gram(); Ast t; int r = chain(t, sv_param("D", 4)); sy(t, &r, 1, g, 0); }
//@ H01 sy_list t=80 -- several expressions separated by commas, and calls with several arguments
ENTRY sy_list() { Ast t; int r[3]; int n = 1 + (int)sv_choose("n", 3); for (int i = 0; i < n; i++) r[i] = gen(t, n < 3 ? 1 : i == 1 ? 1 : 0, 0); if (sv_choose("call", 2)) { int id = t.n++; Nd d; d.op = 6 + n; d.n = n; for (int i = 0; i < n; i++) d.c[i] = r[i]; t.a[id] = d; r[0] = id; n = 1; } sy(t, r, n, gram(), (unsigned)sv_choose("parens", 4) * 0x33); }
//@ H01 sy_integer t=60 -- integer_math: every operator and function computes its C++ meaning for all operands in range
ENTRY sy_integer() { typedef integer_math<int> m; auto& ev = m::evaluators(); int a[2] = {SI("a", -1000, 1000), SI("b", -1000, 1000)}; int x = a[0], y = a[1]; switch (sv_choose("op", 23)) { case 0: CHECK(ev[m::NEG](a) == -x, "NEG"); break; case 1: CHECK(ev[m::MUL](a) == x * y, "MUL"); break; case 2: sv_assume(y != 0); CHECK(ev[m::DIV](a) == x / y, "DIV"); break; case 3: sv_assume(y != 0); CHECK(ev[m::MOD](a) == x % y, "MOD"); break; case 4: CHECK(ev[m::ADD](a) == x + y, "ADD"); break; case 5: CHECK(ev[m::SUB](a) == x - y, "SUB"); break; case 6: sv_assume(x >= 0 && y >= 0 && y < 16); CHECK(ev[m::SHL](a) == x << y, "SHL"); break; case 7: sv_assume(y >= 0 && y < 32); CHECK(ev[m::SHR](a) == x >> y, "SHR"); break;
    case 8: CHECK(ev[m::LTE](a) == (x <= y), "LTE"); break; case 9: CHECK(ev[m::GTE](a) == (x >= y), "GTE"); break; case 10: CHECK(ev[m::LT](a) == (x < y), "LT"); break; case 11: CHECK(ev[m::GT](a) == (x > y), "GT"); break; case 12: CHECK(ev[m::EQ](a) == (x == y), "EQ"); break; case 13: CHECK(ev[m::NEQ](a) == (x != y), "NEQ"); break; case 14: CHECK(ev[m::BIT_NOT](a) == ~x, "BIT_NOT"); break; case 15: CHECK(ev[m::BIT_AND](a) == (x & y), "BIT_AND"); break; case 16: CHECK(ev[m::BIT_XOR](a) == (x ^ y), "BIT_XOR"); break; case 17: CHECK(ev[m::BIT_OR](a) == (x | y), "BIT_OR"); break; case 18: CHECK(ev[m::LOG_NOT](a) == (x == 0), "LOG_NOT"); break; case 19: CHECK(ev[m::LOG_AND](a) == (x != 0 && y != 0), "LOG_AND"); break; case 20: CHECK(ev[m::LOG_XOR](a) == ((x != 0) != (y != 0)), "LOG_XOR"); break; case 21: CHECK(ev[m::LOG_OR](a) == (x != 0 || y != 0), "LOG_OR"); break;
    default: { int e = (int)sv_choose("e", 4); int q[2] = {SI("c", -20, 20), e}; int w = 1; for (int i = 0; i < e; i++) w *= q[0]; CHECK(ev[m::POW](q) == w, "POW"); } } }
//@ H01 sy_prec t=60 -- integer_math operators bind as in C++ (for every pair of binary operators, symbolic operands), prefix operators tightest
ENTRY sy_prec() { typedef integer_math<int> m; auto ops = m::operators(); static const int lev[] = {0, 1, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 0, 6, 7, 8, 0, 9, 10, 11}; int p = (int)sv_choose("p", 24), q = (int)sv_choose("q", 24); auto un = [](int o) { return o == m::NEG || o == m::BIT_NOT || o == m::LOG_NOT; }; auto O = [](int i) { return infix_token{IT_::OPERAND, i}; }; auto P = [](int i) { return infix_token{IT_::OPERATOR, i}; }; std::vector<infix_token> in; std::vector<postfix_token> w; auto o = [](int i) { return postfix_token{PT_::OPERAND, i, 0}; }; auto f = [](int i, int n) { return postfix_token{PT_::FUNCTION, i, n}; };
    if (un(p) && un(q)) in = {P(p), P(q), O(0)}, w = {o(0), f(q, 1), f(p, 1)}; else if (un(p)) in = {P(p), O(0), P(q), O(1)}, w = {o(0), f(p, 1), o(1), f(q, 2)}; else if (un(q)) in = {O(0), P(p), P(q), O(1)}, w = {o(0), o(1), f(q, 1), f(p, 2)}; else { in = {O(0), P(p), O(1), P(q), O(2)}; if (lev[p] <= lev[q]) w = {o(0), o(1), f(p, 2), o(2), f(q, 2)}; else w = {o(0), o(1), o(2), f(q, 2), f(p, 2)}; } CHECK(infix_to_postfix(in, ops) == w, "precedence"); }
//@ H01 sym_str t=60 -- symbolic: every operator renders its operands fully parenthesised and in order; compound forms equal the plain ones
ENTRY sym_str() { using altruct::math::symbolic; std::string x, y; int n = (int)sv_choose("n", 4), m = (int)sv_choose("m", 4); for (int i = 0; i < n; i++) x.push_back((char)SI("x", 33, 126)); for (int i = 0; i < m; i++) y.push_back((char)SI("y", 33, 126)); symbolic a(x), b(y), r; int op = (int)sv_choose("op", 16), k = (int)sv_choose("form", 3); const char* nm = ""; bool un = false; if (k == 2) b = a, y = x;
#define BOP(i, o) case i: nm = #o; if (k == 0 || i > 9) r = a o b; else { r = a; if (k == 2) r o##= r; else r o##= b; } break;
#define LOP(i, o) case i: nm = #o; r = a o b; break;
    switch (op) { BOP(0, +) BOP(1, -) BOP(2, *) BOP(3, /) BOP(4, %) BOP(5, &) BOP(6, |) BOP(7, ^) BOP(8, <<) BOP(9, >>) LOP(10, &&) LOP(11, ||) case 12: un = true; nm = "+"; r = +a; break; case 13: un = true; nm = "-"; r = -a; break; case 14: un = true; nm = "~"; r = ~a; break; default: un = true; nm = "!"; r = !a; }
    std::string e = "("; if (!un) e += x; e += nm; e += un ? x : y; e += ")"; CHECK(r.v == e, "rendering"); CHECK(a.v == x, "operand untouched"); CHECK(altruct::math::zeroOf(a).v == "0" && altruct::math::identityOf(a).v == "1" && symbolic().v == "?", "constants"); }
