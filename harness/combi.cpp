// Combinatorics (algorithm/math/combinatorics.h, counting.h, comb_mod_pp.h, comb_primes.h; structure/math/permutation.h, factorial_holder.h)
#include "field.h"
#include "altruct/algorithm/math/combinatorics.h"
#include "altruct/algorithm/math/counting.h"
#include "altruct/algorithm/math/comb_mod_pp.h"
#include "altruct/algorithm/math/comb_primes.h"
#include "altruct/structure/math/permutation.h"
#include "altruct/structure/math/factorial_holder.h"
#include <vector>
#include <memory>
#include <algorithm>
using namespace altruct::math;
typedef Fp<1009> P; typedef permutation<int> Pm; typedef std::vector<int> V;
template<typename A, typename B> static void same(const A& a, const B& b, int lo, int hi, const char* msg) { if (lo > hi) return; int i = SI("i", lo, hi); CHECK(a[i] == b[i], msg); }
struct W { int v; bool operator<(const W& o) const { return sv_concretize(v < o.v); } bool operator==(const W& o) const { return sv_concretize(v == o.v); } };
static V nth(int n, int64_t o) { int64_t f = 1; for (int i = 2; i <= n; i++) f *= i; o %= f; V a, r; for (int i = 0; i < n; i++) a.push_back(i); for (int i = n; i >= 1; i--) { f /= i; int k = (int)(o / f); o %= f; r.push_back(a[k]); a.erase(a.begin() + k); } return r; }
static V permv(const char* nm, int n) { int f = 1; for (int i = 2; i <= n; i++) f *= i; return nth(n, (int64_t)sv_choose(nm, f)); }
static int par(const V& l) { int s = 0; for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) s ^= l[j] > l[i]; return s; }
static V comp(const V& a, const V& b) { V r; for (int x : b) r.push_back(a[x]); return r; }
static V vpow(const V& a, int t) { V r; for (size_t i = 0; i < a.size(); i++) r.push_back((int)i); while (t--) r = comp(a, r); return r; }

//@ F06 cb_next t=90 q:N=4 Q:N=5 -- next_combination walks all selections in lexicographic order, elements of any order type with ties
ENTRY cb_next() {
    int n = (int)sv_choose("n", (int)sv_param("N", 4) + 1), k = (int)sv_choose("k", n + 1); std::unique_ptr<W[]> a(new W[n]); std::vector<W> s; for (int i = 0; i < n; i++) { a[i].v = SI("a", 0, 100); s.push_back(a[i]); if (i) sv_assume(sv_concretize(a[i - 1].v < a[i].v) || a[i - 1].v == a[i].v); }
    // rank of the elements: equal neighbours share a rank
    V rk; for (int i = 0; i < n; i++) rk.push_back(i == 0 ? 0 : rk[i - 1] + (s[i - 1] < s[i] ? 1 : 0)); std::vector<V> all; for (int m = 0; m < 1 << n; m++) if (__builtin_popcount(m) == k) { V c; for (int i = 0; i < n; i++) if (m >> i & 1) c.push_back(rk[i]); all.push_back(c); } std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    auto rank = [&](int v) { for (int i = 0; i < n; i++) if (sv_concretize(s[i].v == v)) return rk[i]; return -1; };
    for (size_t t = 0; t <= all.size(); t++) { V used(n, 0), c; for (int i = 0; i < n; i++) { int r = rank(a[i].v); CHECK(r >= 0, "an element of the set"); used[r]++; if (i < k) c.push_back(r); } for (int r = 0; r < n; r++) CHECK(used[r] == (int)std::count(rk.begin(), rk.end(), r), "every element is kept"); CHECK(c == all[t % all.size()], "next selection in order"); if (t == all.size()) break; bool more = next_combination(a.get(), a.get() + k, a.get() + n); CHECK(more == (t + 1 < all.size()), "tells whether there is a next selection"); }
}
//@ F06 cb_part t=40 q:N=8 Q:N=12 -- next_partition walks all partitions into at most L parts in decreasing lexicographic order
ENTRY cb_part() {
    int n = (int)sv_choose("n", (int)sv_param("N", 8) + 1), L = (int)sv_choose("L", n + 3); if (n && !L) return; std::vector<V> all; V cur; struct R { static void go(std::vector<V>& all, V& cur, int left, int mx, int L) { if (!left) { V c = cur; c.resize(cur.size() + L, 0); all.push_back(c); return; } if (!L) return; for (int x = std::min(mx, left); x >= 1; x--) { cur.push_back(x); go(all, cur, left - x, x, L - 1); cur.pop_back(); } } }; R::go(all, cur, n, n, L);
    std::unique_ptr<int[]> a(new int[L]); for (int i = 0; i < L; i++) a[i] = i ? 0 : n; for (size_t t = 0; t <= all.size(); t++) { const V& e = all[t % all.size()]; for (int i = 0; i < L; i++) CHECK(a[i] == e[i], "next partition"); if (t == all.size()) break; CHECK(next_partition(a.get(), a.get() + L) == (t + 1 < all.size()), "tells whether there is a next partition"); }
}
//@ F06 cb_nth t=60 q:N=5 Q:N=6 -- nth_permutation gives the o-th permutation, any index (also beyond d!), any contents
ENTRY cb_nth() {
    switch (sv_choose("op", 3)) {
    case 0: { int n = (int)sv_choose("n", (int)sv_param("N", 5) + 1), f = 1; for (int i = 2; i <= n; i++) f *= i; int o = (int)sv_choose("o", 2 * f + 1); auto e = nth(n, o); std::vector<W32> a, b; for (int i = 0; i < n; i++) a.push_back(w32("a")); b = a; nth_permutation(b.begin(), b.end(), o); for (int i = 0; i < n; i++) CHECK(b[i] == a[e[i]], "o-th permutation"); break; }
    case 1: { static const int os[] = { 479001599, 479001600, 479001605, 958003199, 1932053503, 1932053504, 2147483647 }; int n = 11 + (int)sv_choose("n", 4), o = os[sv_choose("o", 7)]; auto e = nth(n, o); std::vector<W32> a, b; for (int i = 0; i < n; i++) a.push_back(w32("a")); b = a; nth_permutation(b.begin(), b.end(), o); for (int i = 0; i < n; i++) CHECK(b[i] == a[e[i]], "o-th permutation, large index"); break; }
    case 2: { static const int64_t os[] = { 2432902008176639999, 2432902008176640000, 2432902008176640007, INT64_MAX }; int n = 19 + (int)sv_choose("n", 2); int64_t o = os[sv_choose("o", 4)]; auto e = nth(n, o); std::vector<W32> a, b; for (int i = 0; i < n; i++) a.push_back(w32("a")); b = a; nth_permutation(b.begin(), b.end(), o); for (int i = 0; i < n; i++) CHECK(b[i] == a[e[i]], "o-th permutation, 64-bit index"); break; }
    }
}
//@ F06 cb_nth21 t=20 -- 64-bit index with more elements than any factorial that fits
ENTRY cb_nth21() { int n = 21 + (int)sv_choose("n", 2); int64_t o = sv_choose("o", 2) ? INT64_MAX : 2432902008176640005; V d; int64_t r = o; V idx; for (int i = 1; i <= n; i++) idx.push_back((int)(r % i)), r /= i; V a, e; for (int i = 0; i < n; i++) a.push_back(i); for (int i = n; i >= 1; i--) { e.push_back(a[idx[i - 1]]); a.erase(a.begin() + idx[i - 1]); } std::vector<W32> x, b; for (int i = 0; i < n; i++) x.push_back(w32("a")); b = x; nth_permutation(b.begin(), b.end(), o); for (int i = 0; i < n; i++) CHECK(b[i] == x[e[i]], "o-th permutation"); }
//@ F06 pm_forms t=60 q:N=4 Q:N=5 -- line, cycle and transposition notation describe the same permutation; apply_to moves any contents
ENTRY pm_forms() {
    int n = (int)sv_choose("n", (int)sv_param("N", 4) + 1); V l = permv("p", n); Pm p(l); CHECK(p.n == n && p.to_line() == l, "line notation"); CHECK(Pm::cycles_to_line(p.to_cycles(), n) == l && Pm(p.to_cycles(), n).to_line() == l, "cycles"); CHECK(Pm::cycles_to_line(p.to_all_cycles(), n) == l, "all cycles"); auto ac = p.to_all_cycles(); V seen(n, 0); for (auto& c : ac) for (int x : c) { CHECK(x >= 0 && x < n, "element"); seen[x]++; } for (int i = 0; i < n; i++) CHECK(seen[i] == 1, "every element is in exactly one of all cycles");
    auto t = p.to_transpositions(); CHECK(Pm(t, n).to_line() == l && Pm::transpositions_to_line(t, n) == l && Pm::cycles_to_line(Pm::transpositions_to_cycles(t), n) == l && Pm::transpositions_to_line(Pm::line_to_transpositions(l), n) == l, "transpositions"); CHECK((int)t.size() == n - (int)ac.size(), "as few transpositions as possible"); CHECK(Pm::size(t) <= n && Pm::size(p.to_cycles()) <= n, "size");
    std::vector<int> x, y; for (int i = 0; i < n; i++) x.push_back((int)w32("x").v); y = x; p.apply_to(y); for (int i = 0; i < n; i++) CHECK(y[i] == x[l[i]], "apply_to takes position p(i)"); CHECK(identityOf(p).to_line() == Pm::identity_line(n), "identity");
}
//@ F06 pm_group t=90 q:N=4 Q:N=4 -- product is composition, also of different sizes; inverse, quotient; equality and order agree with the permutations themselves
ENTRY pm_group() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N), m = 1 + (int)sv_choose("m", N); if (n == N && m == N && N > 3) sv_assume(1); V a = permv("p", n), b = permv("q", m); Pm p(a), q(b); int k = std::max(n, m); V A = a, B = b; Pm::expand_line(A, k); Pm::expand_line(B, k); auto r = p * q; CHECK(r.n == k, "size"); V l = r.to_line(); int x = SI("x", 0, k - 1); CHECK(l[x] == B[A[x]], "product"); V li, l2; for (int i = 0; i < k; i++) li.push_back((int)w32("x").v); l2 = li; r.apply_to(li); q.apply_to(l2); p.apply_to(l2); for (int i = 0; i < k; i++) CHECK(li[i] == l2[i], "(p q)(x) = p(q(x)) for every line x");
    auto s = p; s *= q; CHECK(s.to_line() == l, "in place"); auto d = p / q; V ld = d.to_line(); CHECK(B[ld[x]] == A[x], "(p / q) q = p"); auto e = p; e /= q; CHECK(e == d, "in place"); CHECK((p * p.inv()) == Pm(n) && (p.inv() * p) == Pm(n), "inverse"); auto u = p; u *= u; CHECK(u.to_line() == comp(a, a), "square in place"); CHECK((p == q) == (n == m && a == b) && (p != q) == !(p == q) && ((int)(p < q) + (int)(q < p) + (int)(p == q)) == 1 && (p > q) == (q < p) && (p <= q) == !(q < p) && (p >= q) == !(p < q), "comparison");
}
//@ F06 pm_eq t=60 q:N=4 Q:N=4 -- permutations given in different cycle notations compare equal
ENTRY pm_eq() {
    int n = (int)sv_param("N", 4); V a = permv("p", n); Pm p(a); auto c = sv_choose("all", 2) ? p.to_all_cycles() : p.to_cycles(); if (sv_choose("reverse", 2)) std::reverse(c.begin(), c.end()); int r = (int)sv_choose("rotate", 3); for (auto& x : c) if ((int)x.size() > r) std::rotate(x.begin(), x.begin() + r, x.end()); Pm q(c, n); CHECK(q.to_line() == a, "same permutation"); CHECK(p == q && !(p != q) && !(p < q) && !(q < p) && p <= q && p >= q, "equal in any notation"); CHECK(q.inv() == p.inv() && q.pow(2) == p.pow(2) && q * p == p * q, "and so are the results");
}
//@ F06 pm_pow t=60 q:N=4 Q:N=5 -- powers for exponents of both signs, around 0, 2^31, 2^32 and the 64-bit limits
ENTRY pm_pow() {
    int n = (int)sv_choose("n", (int)sv_param("N", 4) + 1); V a = permv("p", n); Pm p(a); static const int64_t B[] = { INT64_MIN, -14, INT64_MAX - 28, (int64_t)1 << 32, -((int64_t)1 << 31) - 14 }; int64_t T = (int64_t)sv_concretize((uint64_t)(B[sv_choose("base", 5)] + sv_sym_i("d", 0, 28))); int t = (int)((T % 60 + 60) % 60); auto r = p.pow(T); CHECK(r.n == n && r.to_line() == vpow(a, t), "p^T");
}
//@ F06 pm_root t=100 q:N=4 q:T=6 Q:N=4 Q:T=12 -- root(T, parity): the result is a root of the wanted parity; none is returned only when no permutation qualifies (solver)
ENTRY pm_root() {
    int n = 1 + (int)sv_choose("n", (int)sv_param("N", 4)), T = 1 + (int)sv_choose("T", (int)sv_param("T", 6)), w = (int)sv_choose("parity", 3) - 1; V a = permv("p", n); Pm p(a); auto r = p.root(T, w); if (r.n == n) { V l = r.to_line(); CHECK(vpow(l, T) == a, "r^T = p"); if (w >= 0) CHECK(par(l) == w, "parity"); return; }
    CHECK(r.n == 0, "no root"); int c[5], q[5]; for (int i = 0; i < n; i++) { c[i] = SI("c", 0, n - 1); for (int j = 0; j < i; j++) sv_assume(c[i] != c[j]); q[i] = i; } for (int t = 0; t < T; t++) for (int i = 0; i < n; i++) q[i] = c[q[i]]; unsigned ok = 1; for (int i = 0; i < n; i++) ok &= (unsigned)(q[i] == a[i]); if (w >= 0) { unsigned s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) s ^= (unsigned)(c[j] > c[i]); ok &= (unsigned)(s == (unsigned)w); } CHECK(!ok, "no permutation is a root");
}
//@ F06 pm_root_big t=60 -- roots of permutations with several cycles of one length, exponents with high prime powers
ENTRY pm_root_big() {
    static const int L[][2] = { { 2, 4 }, { 2, 8 }, { 3, 3 }, { 3, 9 }, { 4, 2 }, { 4, 4 }, { 6, 2 }, { 5, 2 }, { 1, 9 }, { 2, 6 } }; static const int Ts[] = { 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 18, 27 }; int i = (int)sv_choose("shape", 10), T = Ts[sv_choose("T", 12)], w = (int)sv_choose("parity", 3) - 1, l = L[i][0], m = L[i][1], n = l * m; V a(n); for (int c = 0; c < m; c++) for (int j = 0; j < l; j++) a[c * l + j] = c * l + (j + 1) % l; Pm p(a); auto r = p.root(T, w);
    // a root exists iff the m cycles can be grouped into groups of size G with gcd(G l, T) = G
    std::vector<unsigned> can(m + 1, 0); can[0] = 1; for (int k = 1; k <= m; k++) for (int G = 1; G <= k; G++) if (gcd(G * l, T) == G) { unsigned s = can[k - G]; if ((G * l - 1) & 1) s = (s & 1) << 1 | (s >> 1 & 1); can[k] |= s; } bool ex = w < 0 ? can[m] != 0 : (can[m] >> w & 1); CHECK((r.n == n) == ex, "a root is found exactly when there is one"); if (r.n == n) { V q = r.to_line(), e = vpow(q, T); same(e, a, 0, n - 1, "r^T = p"); if (w >= 0) CHECK(par(q) == w, "parity"); }
}
//@ F06 ct_stirling t=60 q:N=7 Q:N=12 -- Stirling numbers of both kinds in every form satisfy their recurrences
ENTRY ct_stirling() {
    int N = (int)sv_param("N", 7); std::vector<std::vector<P>> a(N + 2, std::vector<P>(N + 3, P(0))), b = a; a[0][0] = b[0][0] = P(1); for (int i = 1; i <= N + 1; i++) for (int j = 1; j <= i; j++) a[i][j] = a[i - 1][j - 1] - a[i - 1][j] * P(i - 1), b[i][j] = b[i - 1][j - 1] + b[i - 1][j] * P(j); int n = (int)sv_choose("n", N + 1);
    switch (sv_choose("op", 4)) {
    case 0: { int k = (int)sv_choose("k", N + 2); auto s = stirling_s1_all<P>(n, k), t = stirling_s2_all<P>(n, k); CHECK((int)s.size() == n && (int)t.size() == n, "rows"); for (int i = 0; i < n; i++) { CHECK((int)s[i].size() == std::min(i + 1, k) && (int)t[i].size() == std::min(i + 1, k), "columns"); same(s[i], a[i], 0, (int)s[i].size() - 1, "first kind"); same(t[i], b[i], 0, (int)t[i].size() - 1, "second kind"); } break; }
    case 1: { int k = (int)sv_choose("k", N); if (n < 1) return; auto s = stirling_s1_all_n_for_k<P>(n, k), t = stirling_s2_all_n_for_k<P>(n, k); CHECK((int)s.size() == n && (int)t.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(s[i] == a[i][k] && t[i] == b[i][k], "column"); break; }
    case 2: { auto s = stirling_s1_all_k_for_n<P>(n), t = stirling_s2_all_k_for_n<P>(n); CHECK((int)s.size() == n + 1 && (int)t.size() == n + 1, "size"); same(s, a[n], 0, n, "row of the first kind"); same(t, b[n], 0, n, "row of the second kind"); break; }
    case 3: { int k = (int)sv_choose("k", N + 3) - 1; P e1 = k >= 0 && k <= n ? a[n][k] : P(0), e2 = k >= 0 && k <= n ? b[n][k] : P(0); CHECK(stirling_s1<P>(n, k) == e1, "s1(n,k)"); CHECK((stirling_s2<P, int>(n, k)) == e2, "s2(n,k)"); break; }
    }
}
//@ F06 ct_part t=60 q:N=24 Q:N=60 -- partition numbers: all, distinct, distinct odd; Euler function; factorial
ENTRY ct_part() {
    int n = (int)sv_choose("n", (int)sv_param("N", 24) + 1); std::vector<P> p(n + 1, P(0)), d = p, o = p, e = p; p[0] = d[0] = o[0] = e[0] = P(1); for (int k = 1; k <= n; k++) { for (int i = k; i <= n; i++) p[i] += p[i - k]; for (int i = n; i >= k; i--) { d[i] += d[i - k]; e[i] -= e[i - k]; if (k & 1) o[i] += o[i - k]; } }
    auto x = euler_function<P>(n), a = partitions_p_slow<P>(n), b = partitions_p_distinct_slow<P>(n); CHECK((int)x.size() == n && (int)a.size() == n && (int)b.size() == n, "sizes"); same(x, e, 0, n - 1, "Euler function"); same(a, p, 0, n - 1, "partitions (slow)"); same(b, d, 0, n - 1, "distinct (slow)"); if (n < 1) return; auto f = partitions_p<P>(n), g = partitions_p_distinct<P>(n), h = partitions_p_distinct_odd<P>(n); CHECK((int)f.size() >= n && (int)g.size() >= n && (int)h.size() >= n, "sizes"); same(f, p, 0, n - 1, "partitions"); same(g, d, 0, n - 1, "distinct"); same(h, o, 0, n - 1, "distinct odd"); P fc(1); for (int i = 2; i <= n; i++) fc *= P(i); CHECK(factorial<P>(n) == fc, "factorial");
}
//@ F06 ct_hold t=40 q:N=9 Q:N=20 -- factorial_holder tables and binomials (Pascal's rule)
ENTRY ct_hold() {
    int n = 1 + (int)sv_choose("n", (int)sv_param("N", 9)); factorial_holder<P> h(n); CHECK(h.size() == n && (int)h.fact().size() == n && (int)h.ifact().size() == n && (int)h.inv().size() == n, "sizes"); P f(1); for (int i = 0; i < n; i++) { if (i) f *= P(i); CHECK(h.fact(i) == f && h.ifact(i) * f == P(1) && (i ? h.inv(i) * P(i) == P(1) : true), "tables"); } std::vector<std::vector<P>> c(n, std::vector<P>(n + 2, P(0))); for (int i = 0; i < n; i++) { c[i][0] = P(1); for (int j = 1; j <= i; j++) c[i][j] = c[i - 1][j - 1] + c[i - 1][j]; } for (int i = 0; i < n; i++) { std::vector<P> r; for (int j = 0; j <= n; j++) r.push_back(h.bin(i, j)); same(r, c[i], 0, n, "binomial"); CHECK(h.bin(i, -1) == P(0), "outside"); }
}
// b = binomial(n, k) / p^a mod p^e from the definition
static std::vector<int> unit_fact(int n, int p, int m, V& ex) { V u(1, 1 % m); ex.assign(1, 0); for (int i = 1; i <= n; i++) { int x = i, a = 0; while (x % p == 0) x /= p, a++; u.push_back(u[i - 1] * (x % m) % m); ex.push_back(ex[i - 1] + a); } return u; }
//@ F06 pp_fact t=100 q:N=70 Q:N=300 -- factorials modulo prime powers, skipped and reduced, slow and fast
ENTRY pp_fact() {
    static const int PE[][2] = { { 2, 1 }, { 2, 2 }, { 2, 3 }, { 2, 4 }, { 2, 5 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 5, 1 }, { 5, 2 }, { 7, 1 }, { 7, 2 } }; int i = (int)sv_choose("pe", 12), p = PE[i][0], e = PE[i][1], m = powT(p, e), N = (int)sv_param("N", 70), op = (int)sv_choose("op", 5); V ex, u = unit_fact(N, p, m, ex), sk(1, 1 % m); for (int j = 1; j <= N; j++) sk.push_back(j % p ? sk[j - 1] * (j % m) % m : sk[j - 1]); auto tb = factorials_mod_pp_skipped<int>(std::max(p * e + p, m), p, e); V f, a, ef, ea; CHECK((int)tb.size() == std::max(p * e + p, m) + 1, "table size");
    for (int n = 0; n <= N; n++) { std::pair<int, int> r; switch (op) { case 0: r = factorial_mod_pp_skipped_slow<int, int>(n, p, e); break; case 1: r = factorial_mod_pp_reduced_slow<int, int>(n, p, e); break; case 2: r = factorial_mod_pp_reduced_2<int, int>(n, p, e, tb.data()); break; case 3: r = factorial_mod_pp_skipped<int, int>(n, p, e, tb.data()); break; default: r = factorial_mod_pp_reduced<int, int>(n, p, e, tb.data()); } f.push_back(r.first), a.push_back(r.second); bool s = op == 0 || op == 3; ef.push_back(s ? sk[n] : u[n]), ea.push_back(s ? n / p : ex[n]); } same(f, ef, 0, N, "factorial without its powers of p"); same(a, ea, 0, N, "exponent");
    if (op == 0) { V t, et; for (int n = 0; n <= std::min(N, p * e); n++) t.push_back(tb[n]), et.push_back(sk[n]); same(t, et, 0, (int)t.size() - 1, "table"); }
}
//@ F06 pp_bin t=100 q:N=30 Q:N=90 -- binomials modulo prime powers, slow and fast
ENTRY pp_bin() {
    static const int PE[][2] = { { 2, 1 }, { 2, 2 }, { 2, 3 }, { 2, 4 }, { 3, 1 }, { 3, 2 }, { 3, 3 }, { 5, 1 }, { 5, 2 }, { 7, 1 } }; int i = (int)sv_choose("pe", 10), p = PE[i][0], e = PE[i][1], m = powT(p, e), N = (int)sv_param("N", 30), op = (int)sv_choose("op", 3), n = (int)sv_choose("n", N + 1); V ex, u = unit_fact(N, p, m, ex); auto tb = factorials_mod_pp_skipped<int>(std::max(p * e + p, m), p, e); V b, a, eb, ea; for (int k = 0; k <= n; k++) { std::pair<int, int> r = op == 0 ? binomial_mod_pp_reduced_slow<int, int>(n, k, p, e) : op == 1 ? binomial_mod_pp_reduced_2<int, int>(n, k, p, e, tb.data()) : binomial_mod_pp_reduced<int, int>(n, k, p, e, tb.data()); b.push_back(r.first * (u[k] * u[n - k] % m) % m); eb.push_back(u[n]); a.push_back(r.second); ea.push_back(ex[n] - ex[k] - ex[n - k]); CHECK(r.first >= 0 && r.first < m, "range"); } same(b, eb, 0, n, "n! = binomial k! (n-k)!"); same(a, ea, 0, n, "exponent");
}
//@ F06 cp_exp t=60 q:N=30 Q:N=200 -- prime exponents of factorials, binomials and multinomials (arguments symbolic)
ENTRY cp_exp() {
    static const int ps[] = { 2, 3, 5, 7 }; int p = ps[sv_choose("p", 4)], N = (int)sv_param("N", 60); V ex(1, 0); for (int i = 1; i <= N; i++) { int x = i, a = 0; while (x % p == 0) x /= p, a++; ex.push_back(ex[i - 1] + a); } int n = SI("n", 0, N), k = SI("k", 0, N); sv_assume(k <= n);
    switch (sv_choose("op", 3)) { case 0: CHECK(factorial_prime_exponent(n, p) == ex[n], "exponent in n!"); break; case 1: CHECK(binomial_prime_exponent(n, k, p) == ex[n] - ex[k] - ex[n - k], "exponent in the binomial"); break; case 2: { int l = SI("l", 0, N); sv_assume(k + l <= n); V v{ k, l, n - k - l }; CHECK(multinomial_prime_exponent<int>(v, p) == ex[n] - ex[k] - ex[l] - ex[n - k - l], "exponent in the multinomial"); break; } }
}
//@ F06 cp_multi t=60 q:N=5 Q:N=6 -- multinomial coefficients from counts and from sorted elements of any order type
ENTRY cp_multi() {
    int N = (int)sv_param("N", 5), n = (int)sv_choose("n", N + 1); std::vector<W> v; for (int i = 0; i < n; i++) { v.push_back({ SI("v", 0, 9) }); if (i) sv_assume(v[i - 1].v <= v[i].v); } V cnt; for (int i = 0; i < n; i++) { if (i && v[i - 1] == v[i]) cnt.back()++; else cnt.push_back(1); } P f(1), d(1); for (int i = 1; i <= n; i++) f *= P(i); for (int c : cnt) for (int i = 1; i <= c; i++) d *= P(i); CHECK(elements_multinomial<P>(v) * d == f, "from elements"); if (sv_choose("zero", 2)) cnt.push_back(0); CHECK(multinomial<P>(cnt) * d == f, "from counts");
}
