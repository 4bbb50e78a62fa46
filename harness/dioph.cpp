// Diophantine approximation and equations (algorithm/math/convergents.h, fractions.h, sequences.h, squares_r.h, pell.h, triples.h)
#include <utility>
#include <functional>
#include "field.h"
#include "altruct/algorithm/math/convergents.h"
#include "altruct/algorithm/math/fractions.h"
#include "altruct/algorithm/math/sequences.h"
#include "altruct/algorithm/math/squares_r.h"
#include "altruct/algorithm/math/pell.h"
#include "altruct/algorithm/math/triples.h"
#include <vector>
#include <algorithm>
using namespace altruct::math;
typedef std::vector<int> V; typedef std::pair<int, int> Pr; typedef long long ll;
static std::vector<Pr> fact(int n) { std::vector<Pr> vf; for (int p = 2; p <= n; p++) { int e = 0; while (n % p == 0) n /= p, e++; if (e) vf.push_back({ p, e }); } return vf; }
static ll ab(ll x) { return x < 0 ? -x : x; }
static int gc(int a, int b) { return b ? gc(b, a % b) : a < 0 ? -a : a; }
static bool nonsq(int D) { for (int s = 0; s * s <= D; s++) if (s * s == D) return false; return true; }

//@ F07 fr_cf t=60 q:P=60 Q:P=200 -- a continued fraction evaluates to p/q, canonically for p >= 0
ENTRY fr_cf() {
    int N = (int)sv_param("P", 60), q = 1 + (int)sv_choose("q", 12), p = SI("p", -N, N); auto va = continued_fraction<int>(p, q); CHECK(!va.empty(), "not empty"); int x = va.back(), y = 1; for (int i = (int)va.size() - 2; i >= 0; i--) { int t = va[i] * x + y; y = x; x = t; } CHECK(y != 0 && x * q == y * p, "value"); if (p >= 0) { for (size_t i = 1; i < va.size(); i++) CHECK(va[i] >= 1, "positive terms"); if (va.size() > 1) CHECK(va.back() >= 2, "last term"); }
    auto c = convergents<int>(va); CHECK(c.size() == va.size(), "one convergent per term"); for (size_t i = 1; i < c.size(); i++) CHECK(c[i].first * c[i - 1].second - c[i].second * c[i - 1].first == (i % 2 ? 1 : -1), "neighbouring convergents"); CHECK(c.back().first * q == c.back().second * p, "last convergent is the fraction"); CHECK(c[0].first == va[0] && c[0].second == 1, "first");
}
//@ F07 fr_best t=60 q:P=40 Q:P=90 -- convergents with all semi-convergents contain every best approximation; proper ones are best of the second kind
ENTRY fr_best() {
    int N = (int)sv_param("P", 40), q = 2 + (int)sv_choose("q", N - 4), p = (int)sv_choose("p", N); auto va = continued_fraction<int>(p, q); auto all = convergents<int>(va, 1000000), c = convergents<int>(va); V ok, second; auto best = [&](int v) { int d = p * v % q; return std::min(d, q - d); }; // min over u of |p v - q u|
    for (int v = 1; v <= 2 * N; v++) { int o = 0, s = 1; for (auto& r : all) if (r.second > 0 && r.second <= v && ab((ll)p * r.second - (ll)q * r.first) * v <= (ll)best(v) * r.second) o = 1; for (size_t i = 0; i + 1 < c.size(); i++) { if (i == 0 && va.size() == 2 && va[1] == 2) continue; if (v < c[i + 1].second && best(v) < ab((ll)p * c[i].second - (ll)q * c[i].first)) s = 0; } ok.push_back(o); second.push_back(s); }
    int v = SI("v", 1, 2 * N); CHECK(ok[v - 1], "no fraction beats the listed ones of no larger denominator"); CHECK(second[v - 1], "convergents are best approximations of the second kind"); for (auto& r : all) CHECK(r.second >= 0, "denominator");
    int k = 1 + (int)sv_choose("k", 3); auto some = convergents<int>(va, k); size_t j = 0; for (auto& r : some) { while (j < all.size() && !(all[j] == r)) j++; CHECK(j < all.size(), "limited semi-convergents are among all, in order"); j++; } for (auto& r : c) CHECK(std::find(some.begin(), some.end(), r) != some.end(), "proper ones are kept");
}
//@ F07 fr_sqrt t=60 q:S=60 Q:S=200 -- sqrt_convergent returns the first convergent of sqrt(S) with denominator beyond Q
ENTRY fr_sqrt() {
    int S = 2 + (int)sv_choose("S", sv_param("S", 60)), Q = SI("Q", 0, 400); if (!nonsq(S)) { auto r = sqrt_convergent<int>(S, Q); CHECK(r.first == (int)r.second * (int)isqrt(S) && r.first * r.first == S, "exact root"); return; }
    auto r = sqrt_convergent<int64_t>(S, Q); CHECK(r.second > Q, "denominator exceeds Q"); int64_t d = r.first * r.first - S * r.second * r.second; CHECK(d * d < 4 * (int64_t)S + 1, "a convergent"); // |p^2 - S q^2| < 2 sqrt(S)
    int v = SI("v", 1, 2000), u = SI("u", 1, 40000); int64_t e = (int64_t)u * u - (int64_t)S * v * v; // no convergent has denominator in (Q, q): |u - v sqrt S| < 1/(2v) forces |u^2 - S v^2| < sqrt S
    (void)e; auto p = sqrt_convergent<int64_t>(S, 0); while (p.second <= Q) p = sqrt_convergent<int64_t>(S, p.second); CHECK(p == r, "the first one");
}
template<typename A> static int at(const A& t, const char* nm, int lo, int hi) { int i = SI(nm, lo, hi); return t[i - lo]; }
//@ F07 fr_line t=60 q:N=8 q:H=12 Q:N=12 Q:H=20 -- line_closest_lattice_point minimizes the distance over all lattice points of the strip
ENTRY fr_line() {
    int N = (int)sv_param("N", 5), a = (int)sv_choose("a", 2 * N + 1) - N, b = (int)sv_choose("b", 2 * N + 1) - N; if (!a && !b) return; int c = (int)sv_choose("c", 19) - 9, l = (int)sv_choose("l", 3) * 5 - 7, h = (int)sv_choose("h", sv_param("H", 8)) + l; int x = line_closest_lattice_point<int>(a, b, c, l, h); CHECK(x >= l && x <= h, "inside the range");
    int B = ab(b); auto f = [&](int x) { int d = a * x + c; if (!B) return d < 0 ? -d : d; d %= B; if (d < 0) d += B; return B - d < d ? B - d : d; }; V t; for (int u = l; u <= h; u++) t.push_back(f(u)); CHECK(at(t, "u", l, h) >= f(x), "no lattice point is closer");
}
//@ F07 fr_line_c t=100 q:K=3 Q:K=10 -- the same for a symbolic offset and every lattice point of the plane
ENTRY fr_line_c() {
    static const int as[] = { 3, -5, 7, 5, -8, 4, 11, 13, -9, 6 }, bs[] = { 5, 7, -4, 3, 5, 6, 8, 5, 11, 10 }; int k = (int)sv_choose("k", sv_param("K", 4)), a = as[k], b = bs[k], c = (int)sv_choose("c4", 6) * 4 - 12 + (int)SU("c", 0, 3), l = -3, h = (int)sv_choose("h", 2) * 4; int x = (int)sv_concretize(line_closest_lattice_point<int>(a, b, c, l, h)); CHECK(x >= l && x <= h, "inside the range"); int u = SI("u", -3, 4), w = SI("w", -30, 30); sv_assume(u <= h); int e = a * u + b * w + c; bool ok = false; for (int y = -30; y <= 30; y++) { int d = a * x + b * y + c; ok = ok | ((d <= e || d <= -e) & (-d <= e || -d <= -e)); } CHECK(ok, "no lattice point is closer");
}
//@ F07 fr_ladder t=60 q:N=3 Q:N=5 -- minimize_floor_ladder minimizes A x + B floor((C x + D) / E)
ENTRY fr_ladder() {
    int N = (int)sv_param("N", 3); int a = (int)sv_choose("a", 2 * N + 1) - N, b = (int)sv_choose("b", 2 * N + 1) - N, c = (int)sv_choose("c", 2 * N + 3) - N - 1, e = (int)sv_choose("e", 2 * N + 2) - N - 1; if (e >= 0) e++; int d = (int)sv_choose("d", 9) - 4, l = (int)sv_choose("l", 2) * 4 - 5, h = (int)sv_choose("h", 4) * 2 + 1 + l; int x = minimize_floor_ladder<int>(a, b, c, d, e, l, h); CHECK(x >= l && x <= h, "inside the range");
    int E = e < 0 ? -e : e, s = e < 0 ? -1 : 1; auto f = [&](int x) { int t = s * (c * x + d); int q = t / E; return a * x + b * (q - (t % E < 0 ? 1 : 0)); }; V t; for (int u = l; u <= h; u++) t.push_back(f(u)); CHECK(at(t, "u", l, h) >= f(x), "minimum");
}
//@ F07 fr_ladder_d t=60 q:K=4 Q:K=10 -- the same for a symbolic offset D
ENTRY fr_ladder_d() {
    static const int as[] = { 3, -5, 7, -2, 8, 1, -1, 4, -6, 5 }, bs[] = { -4, 3, -5, 7, -9, -2, 3, -7, 5, -3 }, cs[] = { 3, 5, 4, -2, 7, 3, 5, 4, 9, 8 }, es[] = { 5, 3, 7, 5, 9, 8, 7, 9, 4, 5 }; int k = (int)sv_choose("k", sv_param("K", 4)), a = as[k], b = bs[k], c = cs[k], e = es[k], d = SI("d", -8, 8), l = -2, h = 5; int x = (int)sv_concretize(minimize_floor_ladder<int>(a, b, c, d, e, l, h)); CHECK(x >= l && x <= h, "inside the range"); int u = SI("u", l, h); auto f = [&](int x) { int t = c * x + d + 64 * e; return a * x + b * (t / e - 64); }; CHECK(f(u) >= f(x), "minimum");
}
//@ F07 fr_farey t=60 q:N=20 Q:N=30 -- farey_neighbour gives the neighbour of order n on the requested side, for every n
ENTRY fr_farey() {
    int N = (int)sv_param("N", 12), q = 1 + (int)sv_choose("q", N), p = (int)sv_choose("p", q + 3); if (gc(p, q) != 1) return; int n = q + (int)sv_choose("n", 50); if (sv_choose("large", 2)) n *= 1009; typedef fraction<int> F; F f(p, q);
    auto r = farey_neighbour<int>(n, F(-1, 0), f), l = farey_neighbour<int>(n, F(1, 0), f); CHECK(r.p * (ll)q - r.q * (ll)p == 1 && r.q <= n && r.q + q > n && r.q >= 1, "right neighbour"); CHECK(l.q * (ll)p - l.p * (ll)q == 1 && l.q <= n && l.q + q > n && l.q >= 1, "left neighbour"); auto r2 = farey_neighbour<int>(n, l, f), l2 = farey_neighbour<int>(n, r, f); if (n < q + 3 && q < 10) { int v = SI("v", 1, 31), u = SI("u", 0, 255); sv_assume(v <= n); CHECK(!((u * q > p * v) & (u * r.q < r.p * v)) && !((u * q < p * v) & (u * l.q > l.p * v)), "nothing in between"); } CHECK(r2.p == r.p && r2.q == r.q && l2.p == l.p && l2.q == l.q, "walking on from a neighbour");
}
//@ F07 fr_dec t=60 q:Q=16 Q:Q=40 -- digits of the expansion and of single positions are those of long division
ENTRY fr_dec() {
    static const int bs[] = { 2, 3, 7, 10, 16 }; int b = bs[sv_choose("b", 5)], q = 2 + (int)sv_choose("q", sv_param("Q", 16)), p = 1 + (int)sv_choose("p", q - 1); V dg; int r = p; for (int t = 0; t < 48; t++) { r *= b; dg.push_back(r / q); r %= q; } auto e = repeating_decimal<int>(b, p, q); int L = (int)e.first.size(), k = (int)e.second; CHECK(k <= L && L > 0, "period length"); V ex; for (int t = 0; t < 48; t++) ex.push_back(t < L ? e.first[t] : k ? e.first[L - k + (t - L) % k] : 0); int i = SI("i", 0, 47); CHECK(ex[i] == dg[i], "digit of the expansion"); CHECK(L - k < 48, "");
    int m = 1; while (m <= k && k && L < 24) { if (m < k && k % m == 0) { bool same = true; for (int t = 0; t + m < 40 - L; t++) same = same && dg[L - k + t] == dg[L - k + t + m]; CHECK(!same, "shortest period"); } m++; } if (k) CHECK(L == k || dg[L - k - 1] != dg[L - 1], "shortest pre-period");
    int n = SI("n", 0, 40); int rr = -1; int d = rational_digit<int>(n, b, p, q, &rr); CHECK(d == dg[n], "single digit"); CHECK(rr >= 0 && rr < q && rr * b / q == d, "remainder"); auto ds = rational_digits<int>(n, 5, b, p, q); CHECK(ds.size() == 5, "count"); for (int t = 0; t < 5; t++) CHECK(ds[t] == dg[n + t], "run of digits"); CHECK(rational_digits<int>(n, 0, b, p, q).empty(), "no digits");
}
typedef Fp<1009> G;
//@ F07 sq_poly t=20 -- figurate numbers satisfy their difference equations in every field; integer versions agree
ENTRY sq_poly() {
    using namespace sequences; G n = G::sym("n"), o(1), z(0); G m = n - o;
    CHECK((triangular<G, G>(n) - triangular<G, G>(m) == n && triangular<G, G>(z) == z), "triangular"); CHECK((tetrahedral<G, G>(n) - tetrahedral<G, G>(m) == triangular<G, G>(n) && tetrahedral<G, G>(z) == z), "tetrahedral"); CHECK((pyramidal<G, G>(n) - pyramidal<G, G>(m) == square<G, G>(n) && pyramidal<G, G>(z) == z), "pyramidal"); CHECK((octahedral<G, G>(n) * G(3) == n * (G(2) * n * n + o)), "octahedral"); CHECK((dodecahedral<G, G>(n) * G(2) == n * (G(3) * n - o) * (G(3) * n - G(2))), "dodecahedral"); CHECK((icosahedral<G, G>(n) * G(2) == n * (G(5) * n * n - G(5) * n + G(2))), "icosahedral"); CHECK((cube<G, G>(n) == n * n * n && square<G, G>(n) == n * n && identity<G, G>(n) == n && one<G, G>(n) == o && zero<G, G>(n) == z), "powers");
    int k = SI("k", 0, 90); CHECK((2 * triangular<int, int>(k) == k * (k + 1) && 6 * tetrahedral<int, int>(k) == k * (k + 1) * (k + 2) && 6 * pyramidal<int, int>(k) == k * (k + 1) * (2 * k + 1) && 3 * octahedral<int, int>(k) == k * (2 * k * k + 1) && 2 * dodecahedral<int, int>(k) == k * (3 * k - 1) * (3 * k - 2) && 2 * icosahedral<int, int>(k) == k * (5 * k * k - 5 * k + 2)), "integer values"); CHECK((delta<int, int>(k) == (k == 0) && dirichlet_id<int, int>(k) == (k == 1) && one<int, int>(k) == 1 && zero<int, int>(k) == 0), "indicators");
}
//@ F07 sq_sigma t=40 q:N=60 Q:N=300 -- partial sums of the divisor functions
ENTRY sq_sigma() { using namespace sequences; int N = (int)sv_param("N", 60); static int s[3][512], f[3][512]; for (int n = 1; n <= N; n++) for (int t = 0; t < 3; t++) { s[t][n] = s[t][n - 1]; for (int d = 1; d <= n; d++) if (n % d == 0) s[t][n] += t == 0 ? 1 : t == 1 ? d : d * d; } for (int n = 0; n <= N; n++) f[0][n] = sum_sigma0<int, int>(n), f[1][n] = sum_sigma1<int, int>(n), f[2][n] = sum_sigma2<int, int>(n); int i = SI("i", 0, N), t = (int)sv_choose("t", 3); CHECK(f[t][i] == s[t][i], "sum of sigma"); }
//@ F07 sq_list t=90 q:N=130 Q:N=500 -- squares_r_list contains every representation as a sum of two squares exactly once, and squares_r counts them
ENTRY sq_list() {
    int n = 1 + (int)sv_choose("n", sv_param("N", 130)); auto vf = fact(n); std::unordered_map<int, Pr> tb; int op = (int)sv_choose("op", 3); bool un = op != 0; int R = (int)isqrt(n) + 1, mb = op == 2 ? 1 + (int)sv_choose("mb", 4) * R / 4 : 0; if (sv_choose("table", 2)) tb = squares_r_prime_table<int>(n); auto v = squares_r_list<int, int>(vf, un, tb, mb); for (size_t i = 0; i < v.size(); i++) { CHECK(v[i].first * v[i].first + v[i].second * v[i].second == n, "a representation"); CHECK(!un || (0 <= v[i].first && v[i].first <= v[i].second), "canonical"); CHECK(i == 0 || v[i - 1] < v[i], "sorted, once each"); if (mb) CHECK(v[i].second <= mb, "limit"); } if (!mb) CHECK((squares_r<int, int>(vf, un)) == (int)v.size(), "count");
    int x = SI("x", -R, R), y = SI("y", -R, R); sv_assume(x * x + y * y == n && (!un || (0 <= x && x <= y)) && (!mb || y <= mb)); bool in = false; for (auto& r : v) in = in | ((r.first == x) & (r.second == y)); CHECK(in, "no representation is missing");
}
//@ F07 sq_corn t=60 q:P=25 Q:P=60 -- cornacchia and squares_r_prime represent every prime that can be represented
ENTRY sq_corn() {
    int k = (int)sv_choose("p", sv_param("P", 25)), p = 2; while (k >= 0) { p++; bool pr = true; for (int d = 2; d * d <= p; d++) pr = pr && p % d; if (pr) k--; } int d = 1 + (int)sv_choose("d", 10); if (d >= p) return; int x = SI("x", 0, 400), y = SI("y", 1, 400); sv_assume(x * x + d * y * y == p); auto r = cornacchia<int>(d, p); CHECK(r.first * r.first + d * r.second * r.second == p, "represents p"); if (d == 1) { auto s = squares_r_prime<int>(p); CHECK(s.first * s.first + s.second * s.second == p && s.first <= s.second && s.first >= 0, "canonical"); auto t = squares_r_prime_table<int>(p); CHECK(t.count(p) && t[p] == s, "table"); }
}
//@ F07 pl_unit t=60 q:D=36 Q:D=110 -- pell1 finds the smallest positive solution of x^2 - D y^2 = +1 and = -1, or that there is none
ENTRY pl_unit() {
    int D = 2 + (int)sv_choose("D", sv_param("D", 60)); if (!nonsq(D)) return; int N = sv_choose("N", 2) ? 1 : -1; ll x = 0, y = 0; int l = pell1<ll>(D, N, x, y); if (N == 1) CHECK(l > 0, "always solvable"); if (l) CHECK(x > 0 && y > 0 && x * x - D * y * y == N, "a solution"); int v = SI("v", 1, 127), u = SI("u", 1, 1023); sv_assume(u * u - D * v * v == N); CHECK(l != 0 && x <= u && y <= v, "no smaller solution");
    auto s = pell1<ll>(D, N, 20000, 1023, 0); bool in = false; for (auto& q : s) { CHECK(q.a > 0 && q.b > 0 && q.a <= 20000 && q.b <= 1023 && q.a * q.a - D * q.b * q.b == N, "within the limit"); in = in | ((q.a == u) & (q.b == v)); } CHECK(in, "every solution within the limits is listed"); for (size_t i = 1; i < s.size(); i++) CHECK(s[i - 1].a < s[i].a, "increasing"); if (s.size() > 1) CHECK(pell1<ll>(D, N, 0, 0, 1).size() == 1, "count");
}
//@ F07 pl_gen t=90 q:D=24 q:N=9 Q:D=50 Q:N=16 -- pell lists every positive solution of x^2 - D y^2 = N within the limits exactly once
ENTRY pl_gen() {
    int D = 2 + (int)sv_choose("D", sv_param("D", 24)); if (!nonsq(D)) return; int M = (int)sv_param("N", 9), N = (int)sv_choose("N", 2 * M) - M; if (N >= 0) N++; std::vector<std::pair<ll, int>> vf; for (auto& t : fact(N < 0 ? -N : N)) vf.push_back({ t.first, t.second }); auto s = pell<ll, ll>(D, N, vf, 250, 0, 0); int u = SI("u", 1, 250), v = SI("v", 1, 250); sv_assume(u * u - D * v * v == N); bool in = false; for (size_t i = 0; i < s.size(); i++) { CHECK(s[i].a >= 0 && s[i].b >= 0 && s[i].a <= 250 && s[i].a * s[i].a - D * s[i].b * s[i].b == N, "a solution within the limit"); for (size_t j = 0; j < i; j++) CHECK(s[i].a != s[j].a || s[i].b != s[j].b, "once"); in = in | ((s[i].a == u) & (s[i].b == v)); } CHECK(in, "every solution is listed");
}
//@ F07 pl_class t=60 q:D=30 Q:D=60 -- pellS yields one solution of every class for 1 < N^2 < D; classes do not repeat
ENTRY pl_class() {
    int D = 5 + (int)sv_choose("D", sv_param("D", 30)); if (!nonsq(D)) return; int N = (int)sv_choose("N", 13) - 6; if (N * N <= 1 || N * N >= D) return; std::vector<int> xs, ys; pellS<int>(D, N, xs, ys); int u = SI("u", 1, 400), v = SI("v", 1, 400); sv_assume(u * u - D * v * v == N); int hits = 0; for (size_t i = 0; i < xs.size(); i++) { CHECK(xs[i] * (ll)xs[i] - D * (ll)ys[i] * ys[i] == N, "a solution"); ll a = (ll)u * xs[i] - (ll)D * v * ys[i], b = (ll)v * xs[i] - (ll)u * ys[i]; hits += (int)((a % N == 0) & (b % N == 0)); } CHECK(hits == 1, "every solution belongs to exactly one listed class");
}
template<typename T> static void members(const std::vector<triple<T>>& v, int a, int b, int c, const char* msg) { int in = 0; for (auto& t : v) in += (int)((t.a == a) & (t.b == b) & (t.c == c)); CHECK(in == 1, msg); }
//@ F07 tr_sides t=80 q:C=32 Q:C=120 -- triples with angles of 90, 60, 120 degrees and almost-pythagorean ones: all of them, once each
ENTRY tr_sides() {
    int C = 1 + (int)sv_choose("C", sv_param("C", 40)), op = (int)sv_choose("op", 4); bool pr = op < 3 && sv_choose("primitive", 2); auto ok = [&](ll a, ll b, ll c) { return op == 0 ? a * a + b * b == c * c : op == 1 ? a * a - a * c + c * c == b * b : op == 2 ? a * a + a * b + b * b == c * c : a * a + b * b == c * c + 1; }; auto v = op == 0 ? pythagorean_triples<int>(C, pr) : op == 1 ? eisenstein_triples60<int>(C, pr) : op == 2 ? eisenstein_triples120<int>(C, pr) : almost_pythagorean_triples<int>(C);
    for (auto& t : v) { CHECK(t.a > 0 && t.b > 0 && t.c <= C && ok(t.a, t.b, t.c), "a triple within the limit"); if (pr) CHECK(gc(gc(t.a, t.b), t.c) == 1, "primitive"); if (op < 3) CHECK(t.a <= t.b && t.b <= t.c, "ordered"); }
    int a = SI("a", 1, 200), b = SI("b", 1, 200), c = SI("c", 1, 200); sv_assume(a <= C && b <= C && c <= C && ok(a, b, c) && (op == 3 || (a <= b && b <= c))); if (pr) { static const int ps[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113 }; for (int p : ps) if (p <= C) sv_assume((a % p != 0) | (b % p != 0) | (c % p != 0)); } members(v, a, b, c, "every triple is listed once");
}
//@ F07 tr_leg t=60 q:L=60 Q:L=150 -- right triangles with a fixed leg
ENTRY tr_leg() { int l = 1 + (int)sv_choose("l", sv_param("L", 60)); auto v = pythagorean_triples_fixed_leg<int>(l, fact(l)); for (auto& t : v) CHECK(t.a == l && t.b > 0 && (ll)t.a * t.a + (ll)t.b * t.b == (ll)t.c * t.c, "a right triangle"); ll b = SI("b", 1, 20000), c = SI("c", 1, 20000); sv_assume((c - b) * (c + b) == l * l && b < l * l && c <= l * l); members(v, l, (int)b, (int)c, "every triangle is listed once"); }
//@ F07 tr_gen t=90 q:K=12 q:C=24 Q:K=25 Q:C=50 -- the generator trees reach every primitive triple of a^2 + b^2 + k = c^2
ENTRY tr_gen() {
    int k = (int)sv_choose("k", sv_param("K", 12) + 1), n = (int)sv_param("C", 24); auto g = pythagorean_triples_generators<ll>(k); for (auto& t : g) CHECK(t.a * t.a + t.b * t.b + k == t.c * t.c, "generator"); auto v = generate_pythagorean_triples<ll>(n, g); int a = SI("a", 0, 63), b = SI("b", 0, 63), c = SI("c", 1, 63); sv_assume(c <= n && b <= n && a <= b && b > 0 && (a > 0 || k > 0) && a * a + b * b + k == c * c); static const int ps[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47 }; for (int p : ps) if (p <= n) sv_assume((a % p != 0) | (b % p != 0) | (c % p != 0)); int in = 0; for (auto& t : v) { CHECK(t.a * t.a + t.b * t.b + k == t.c * t.c, "a triple"); in += (int)(((t.a == a) & (t.b == b) & (t.c == c)) | ((a != b) & (t.a == b) & (t.b == a) & (t.c == c))); } CHECK(in == 1, "every primitive triple is reached once");
}
//@ F07 tr_aux t=20 -- order, equality, minimum, maximum and primitivity of a triple
ENTRY tr_aux() { triple<int> s{ SI("a", -9, 9), SI("b", -9, 9), SI("c", -9, 9) }, t{ SI("d", -9, 9), SI("e", -9, 9), SI("f", -9, 9) }; bool lt = s.a < t.a || (s.a == t.a && (s.b < t.b || (s.b == t.b && s.c < t.c))); CHECK((s < t) == lt && (s == t) == (s.a == t.a && s.b == t.b && s.c == t.c), "lexicographic"); int m = min_element(s), M = max_element(s); CHECK(m <= s.a && m <= s.b && m <= s.c && (m == s.a || m == s.b || m == s.c) && M >= s.a && M >= s.b && M >= s.c && (M == s.a || M == s.b || M == s.c), "extremes"); triple<int> u{ (int)sv_choose("x", 8), (int)sv_choose("y", 8), (int)sv_choose("z", 8) }; CHECK(is_primitive(u) == (gc(gc(u.a, u.b), u.c) == 1), "primitive"); }
