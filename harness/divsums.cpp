// Sums over divisors, floor quotients, primes and containers (algorithm/math/divisor_sums.h, sums.h, mertens.h, prime_counting.h, prime_pi.h, reduce.h)
#include "field.h"
#include "altruct/algorithm/math/divisor_sums.h"
#include "altruct/algorithm/math/sums.h"
#include "altruct/algorithm/math/mertens.h"
#include "altruct/algorithm/math/prime_counting.h"
#include "altruct/algorithm/math/prime_pi.h"
#include "altruct/algorithm/math/reduce.h"
#include "altruct/structure/math/modulo.h"
#include <vector>
#include <memory>
#include <map>
using namespace altruct::math;
using altruct::container::sqrt_map;
typedef Fp<5> F5; typedef Fp<3> F3; typedef Fp<11> F11;
static inline W32 sym1(W32*, const char* n) { return w32(n); } static inline F5 sym1(F5*, const char* n) { return F5::sym(n); } static inline F3 sym1(F3*, const char* n) { return F3::sym(n); } static inline F11 sym1(F11*, const char* n) { return F11::sym(n); } static inline G3 sym1(G3*, const char* n) { return G3::sym(n); }
template<typename T> static std::vector<T> tab(int n, const char* nm) { std::vector<T> v(1, T(0)); for (int i = 1; i <= n; i++) v.push_back(sym1((T*)0, nm)); return v; }
static bool isp(int n) { if (n < 2) return false; for (int d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
static int lpf(int n) { for (int d = 2; d * d <= n; d++) if (n % d == 0) return d; return n; }
static int mu0(int n) { int r = 1; for (int p = 2; p <= n; p++) if (n % p == 0) { n /= p; r = -r; if (n % p == 0) return 0; } return r; }
static std::vector<int> primes_to(int n) { std::vector<int> v; for (int i = 2; i <= n; i++) if (isp(i)) v.push_back(i); return v; }
static std::vector<int> pf_to(int n) { std::vector<int> v(n + 1); for (int i = 2; i <= n; i++) v[i] = lpf(i); return v; }
// arbitrary multiplicative function: free values at the prime powers
template<typename T> static std::vector<T> mult(int n, const char* nm) { std::vector<T> v(n + 1, T(0)); if (n >= 1) v[1] = T(1); for (int i = 2; i <= n; i++) { int p = lpf(i), q = 1, r = i; while (r % p == 0) r /= p, q *= p; v[i] = r == 1 ? sym1((T*)0, nm) : v[q] * v[r]; } return v; }
template<typename T> static std::vector<T> cmult(int n, const char* nm) { std::vector<T> v(n + 1, T(0)); if (n >= 1) v[1] = T(1); for (int i = 2; i <= n; i++) { int p = lpf(i); v[i] = p == i ? sym1((T*)0, nm) : v[p] * v[i / p]; } return v; }
template<typename T> static std::vector<T> conv(const std::vector<T>& f, const std::vector<T>& g, int n) { std::vector<T> h(n + 1, T(0)); for (int d = 1; d <= n; d++) for (int e = 1; d * e <= n; e++) h[d * e] += f[d] * g[e]; return h; }
// equality at every index: the index is symbolic
template<typename A, typename B> static void same(const A& a, const B& b, int lo, int hi, const char* msg) { if (lo > hi) return; int i = SI("i", lo, hi); CHECK(a[i] == b[i], msg); }
#define FN(v) [&](int k_) { return v[k_]; }
// a table of exactly n elements: a write outside is a memory error
template<typename T> struct Tab { std::unique_ptr<T[]> p; int n; Tab(int n) : p(new T[n]), n(n) {} Tab(const Tab& o) : p(new T[o.n]), n(o.n) { for (int i = 0; i < n; i++) p[i] = o.p[i]; } T& operator[](int i) { return p[i]; } const T& operator[](int i) const { return p[i]; } };

//@ F05 ds_conv t=60 q:N=20 Q:N=40 -- Dirichlet convolution and Moebius transform of arbitrary functions
ENTRY ds_conv() {
    int N = (int)sv_param("N", 12), n = 1 + (int)sv_choose("n", N); auto f = tab<W32>(N, "f"), g = tab<W32>(N, "g"), h = conv(f, g, n - 1); Tab<W32> r(n), t(n); dirichlet_convolution(r, FN(f), FN(g), n); for (int i = 1; i < n; i++) CHECK(r[i] == h[i], "h(n) = sum of f(n/d) g(d)");
    moebius_transform(t, FN(f), n); for (int i = 1; i < n; i++) { W32 s(0); for (int d = 1; d <= i; d++) if (i % d == 0) s += t[d]; CHECK(s == f[i], "the transform sums back to f over the divisors"); }
}
//@ F05 ds_div t=90 T=600 q:N=12 Q:N=24 -- Dirichlet division and inverse, any invertible g(1)
ENTRY ds_div() {
    int N = (int)sv_param("N", 9), n = 1 + (int)sv_choose("n", N); auto h = tab<F5>(N, "h"), g = tab<F5>(N, "g"); sv_assume(g[1].v != 0); g[1] = F5::raw((unsigned)sv_concretize(g[1].v)); auto f = conv(h, g, N); Tab<F5> r(n), v(n); dirichlet_division(r, FN(f), FN(g), n); for (int i = 1; i < n; i++) CHECK(r[i] == h[i], "(h * g) / g = h");
    dirichlet_inverse(v, FN(g), n); for (int i = 1; i < n; i++) { F5 s(0); for (int d = 1; d <= i; d++) if (i % d == 0) s += v[d] * g[i / d]; CHECK(s == F5(i == 1), "inverse"); }
}
//@ F05 ds_mult t=60 q:N=20 Q:N=40 -- the versions for multiplicative results: convolution, calc_multiplicative, inverse, Moebius transform
ENTRY ds_mult() {
    static const int NS[] = { 20, 1, 2, 3, 5, 9, 10, 17, 33, 40 }; int N = (int)sv_param("N", 20), n = NS[sv_choose("n", 8)]; sv_assume(n <= N); auto f = mult<W32>(n, "f"), g = mult<W32>(n, "g"), h = conv(f, g, n - 1); auto pa = primes_to(n + 3); Tab<W32> r(n), v(n), t(n);
    dirichlet_convolution_multiplicative(r, FN(f), FN(g), n, pa.data(), (int)pa.size()); for (int i = 1; i < n; i++) CHECK(r[i] == h[i], "convolution");
    dirichlet_inverse_multiplicative(v, FN(f), n, pa.data(), (int)pa.size()); for (int i = 1; i < n; i++) { W32 s(0); for (int d = 1; d <= i; d++) if (i % d == 0) s += v[d] * f[i / d]; CHECK(s == W32(i == 1), "inverse"); }
    moebius_transform_multiplicative(t, FN(f), n, pa.data(), (int)pa.size()); for (int i = 1; i < n; i++) { W32 s(0); for (int d = 1; d <= i; d++) if (i % d == 0) s += t[d]; CHECK(s == f[i], "Moebius transform"); }
}
//@ F05 ds_divmult t=90 T=600 q:N=13 Q:N=26 -- division with a multiplicative result h = f / g, where g is an arbitrary function with invertible g(1)
ENTRY ds_divmult() {
    int N = (int)sv_param("N", 10), n = (int)sv_choose("n", 2) ? N : 5; auto h = mult<F5>(n, "h"), g = tab<F5>(n, "g"); sv_assume(g[1].v != 0); g[1] = F5::raw((unsigned)sv_concretize(g[1].v)); auto f = conv(h, g, n); auto pa = primes_to(n); Tab<F5> r(n); dirichlet_division_multiplicative(r, FN(f), FN(g), n, pa.data(), (int)pa.size()); for (int i = 1; i < n; i++) CHECK(r[i] == h[i], "(h * g) / g = h");
}
//@ F05 ds_cmult t=90 T=600 q:N=20 Q:N=40 -- the versions for completely multiplicative results
ENTRY ds_cmult() {
    int n = (int)sv_param("N", 16); auto pf = pf_to(n); Tab<F5> r(n); auto h = cmult<F5>(n, "h");
    switch (sv_choose("op", 4)) {
    case 0: { auto g = tab<F5>(n, "g"); sv_assume(g[1].v != 0); g[1] = F5::raw((unsigned)sv_concretize(g[1].v)); std::vector<F5> f(n, F5(0)); f[1] = g[1]; for (int i = 2; i < n; i++) f[i] = isp(i) ? h[i] * g[1] + g[i] : F5::sym("f"); dirichlet_division_completely_multiplicative(r, FN(f), FN(g), n, pf.data()); break; }
    case 1: { auto g = tab<F5>(n, "g"); sv_assume(g[1].v != 0); g[1] = F5::raw((unsigned)sv_concretize(g[1].v)); F5 i1 = F5(1) / g[1]; std::vector<F5> f(n, F5(0)); f[1] = i1; for (int i = 2; i < n; i++) f[i] = isp(i) ? (h[i] - g[i] * i1) * i1 : F5::sym("f"); dirichlet_convolution_completely_multiplicative(r, FN(f), FN(g), n, pf.data()); break; }
    case 2: { std::vector<F5> f(n, F5(0)); f[1] = F5(1); for (int i = 2; i < n; i++) f[i] = isp(i) ? -h[i] : F5::sym("f"); dirichlet_inverse_completely_multiplicative(r, FN(f), n, pf.data()); break; }
    case 3: { std::vector<F5> f(n, F5(0)); f[1] = F5(1); for (int i = 2; i < n; i++) f[i] = isp(i) ? h[i] + F5(1) : F5::sym("f"); moebius_transform_completely_multiplicative(r, FN(f), n, pf.data()); break; }
    } for (int i = 1; i < n; i++) CHECK(r[i] == h[i], "completely multiplicative result");
}
//@ F05 ds_sieve t=90 T=600 q:N=14 Q:N=24 -- sieve_m in its four forms recovers M from t(n) = sum of p(k) M(n/k)
ENTRY ds_sieve() {
    int N = (int)sv_param("N", 10), op = (int)sv_choose("op", 4), n = 2 + (int)sv_choose("n", N - 1); auto pa = primes_to(n);
    if (op == 0) { auto M = tab<F5>(n, "M"), p = tab<F5>(n, "p"), t = tab<F5>(0, "t"); sv_assume(p[1].v != 0); p[1] = F5::raw((unsigned)sv_concretize(p[1].v)); for (int i = 1; i < n; i++) { F5 s(0); for (int k = 1; k <= i; k++) s += p[k] * M[i / k]; t.push_back(s); } Tab<F5> r(n); sieve_m(r, FN(t), FN(p), n); for (int i = 1; i < n; i++) CHECK(r[i] == M[i], "sieve_m"); return; }
    auto M = op == 1 ? tab<W32>(n, "M") : mult<W32>(n, "M"); if (op > 1) for (int i = 1; i <= n; i++) M[i] += M[i - 1]; auto p = op == 1 ? std::vector<W32>(n + 1, W32(1)) : mult<W32>(n, "p"); std::vector<W32> t(1, W32(0)); for (int i = 1; i < n; i++) { W32 s(0); for (int k = 1; k <= i; k++) s += p[k] * M[i / k]; t.push_back(s); } Tab<W32> r(n);
    if (op == 1) sieve_m(r, FN(t), n); else if (op == 2) sieve_m_multiplicative(r, FN(t), FN(p), n, pa.data(), (int)pa.size()); else { Tab<W32> iv(n); dirichlet_inverse(iv, FN(p), n); sieve_m_multiplicative_inv(r, FN(t), FN(iv), n, pa.data(), (int)pa.size()); } for (int i = 1; i < n; i++) CHECK(r[i] == M[i], "sieved M");
}
//@ F05 ds_sum_m t=90 T=600 q:N=24 Q:N=60 -- sum_m recovers M(n), starting from an empty or partly filled table
ENTRY ds_sum_m() {
    int N = (int)sv_param("N", 14), n = 1 + (int)sv_choose("n", N), pre = (int)sv_choose("prefilled", 2) * (int)(n / 2), op = (int)sv_choose("op", 3);
    if (op == 2) { auto M = tab<F3>(n, "M"), p = tab<F3>(n, "p"); sv_assume(p[1].v != 0); p[1] = F3::raw((unsigned)sv_concretize(p[1].v)); auto s = p; for (int i = 1; i <= n; i++) s[i] += s[i - 1]; auto t = [&](int i) { F3 r(0); for (int k = 1; k <= i; k++) r += p[k] * M[i / k]; return r; }; std::map<int, F3> tb; for (int i = 1; i <= pre; i++) tb[i] = M[i]; CHECK((sum_m<F3, int>(t, FN(s), n, tb, F3(1))) == M[n], "sum_m with weights"); return; }
    auto M = tab<W32>(n, "M"); auto t = [&](int i) { W32 r(0); for (int k = 1; k <= i; k++) r += M[i / k]; return r; }; if (op == 0) { std::map<int, W32> tb; for (int i = 1; i <= pre; i++) tb[i] = M[i]; CHECK((sum_m<W32, int>(t, n, tb, W32(1))) == M[n], "sum_m"); }
    else { int q = isqrt(n); sqrt_map<int, W32> tb(q, n); CHECK((sum_m<W32, int>(t, n, tb, W32(1))) == M[n], "sum_m in a sqrt_map"); for (int k = 1; k <= n; k++) if (tb.count(n / k)) CHECK(tb[n / k] == M[n / k], "memoised values"); }
}
//@ F05 ds_sum_mult t=100 T=800 q:N=150 Q:N=400 -- sums of multiplicative functions with free values at the prime powers, given exactly the primes up to sqrt(n) or more
ENTRY ds_sum_mult() {
    int N = (int)sv_param("N", 36), n = 1 + (int)sv_choose("n", N), extra = (int)sv_choose("extra", 3); auto f = mult<W32>(n, "f"); std::vector<W32> S(n + 1, W32(0)), P(n + 1, W32(0)); for (int i = 1; i <= n; i++) S[i] = S[i - 1] + f[i], P[i] = P[i - 1] + (isp(i) ? f[i] : W32(0)); int q = isqrt(n); auto pa = primes_to(extra == 2 ? n : q); if (extra == 1) { int p = q + 1; while (!isp(p)) p++; pa.push_back(p); }
    auto fp = [&](W32 prev, int p, int e) { int x = 1; for (int i = 1; i < e; i++) x *= p; CHECK(prev == f[x], "the previous power is passed"); x *= p; return x <= n ? f[x] : W32(0); }; auto s1 = [&](int64_t m) { return m < 1 ? W32(0) : P[m]; };
    std::unique_ptr<int[]> pp(new int[pa.size()]); for (size_t i = 0; i < pa.size(); i++) pp[i] = pa[i];
    if (sv_choose("algorithm", 2)) { CHECK((sum_multiplicative_34<W32>(s1, fp, (int64_t)n, pp.get(), (int)pa.size(), W32(1))) == S[n], "sum_multiplicative_34"); }
    else { auto r = sum_multiplicative<W32>(s1, fp, (int64_t)n, pp.get(), (int)pa.size(), W32(1)); for (int k = 1; k <= n; k++) CHECK(r[n / k] == S[n / k], "sum_multiplicative at every n/k"); }
}
//@ F05 ds_coprime t=40 q:N=12 Q:N=30 -- coprime_sum over any subset of primes
ENTRY ds_coprime() {
    int N = (int)sv_param("N", 12), n = (int)sv_choose("n", N + 1); unsigned ms = (unsigned)sv_choose("primes", 16); static const int Q[] = { 2, 3, 5, 7 }; std::vector<int> ps; int P = 1; for (int i = 0; i < 4; i++) if (ms >> i & 1) ps.push_back(Q[i]), P *= Q[i]; if (ms == 6) std::swap(ps[0], ps[1]); auto f = tab<W32>(n, "f"); auto sf = [&](int k, int m) { W32 s(0); for (int i = 1; i <= k; i++) s += f[i * m]; return s; };
    W32 e(0); for (int k = 1; k <= n; k++) if (gcd(P, k) == 1) e += f[k]; CHECK((coprime_sum<W32, int>(ps.begin(), ps.end(), n, sf)) == e, "sum over the numbers coprime to P");
}
//@ F05 ds_gl t=100 T=600 q:N=12 Q:N=24 -- sum_g_L: sums of k^L (mu * g)(k) for a polynomial g with free coefficients, several arguments, any sieving bound
ENTRY ds_gl() {
    int N = (int)sv_param("N", 9), n = 1 + (int)sv_choose("n", N), L = (int)sv_choose("L", 3), dg = (int)sv_choose("deg", 3), us = (int)sv_choose("U", 3); std::vector<F11> c; for (int i = 0; i <= dg; i++) c.push_back(F11::sym("c")); polynom<F11> g(c); std::vector<int64_t> vn{ n, (n + 1) / 2, n }; auto v = sum_g_L(g, L, vn, us == 0 ? 0 : us == 1 ? (int)isqrt(n) : n + 1); CHECK(v.size() == 3, "size");
    std::vector<F11> S(n + 1, F11(0)); for (int k = 1; k <= n; k++) { F11 s(0); for (int d = 1; d <= k; d++) if (k % d == 0) { F11 t(0); for (int i = dg; i >= 0; i--) t = t * F11(d) + c[i]; int m = mu0(k / d); if (m > 0) s += t; else if (m < 0) s -= t; } for (int i = 0; i < L; i++) s *= F11(k); S[k] = S[k - 1] + s; } for (int i = 0; i < 3; i++) CHECK(v[i] == S[vn[i]], "weighted totient-like sum");
}
//@ F05 ds_tables t=60 q:N=60 Q:N=200 -- divisor_sigma, square-free counts, totient sums
ENTRY ds_tables() {
    int N = (int)sv_param("N", 60);
    switch (sv_choose("op", 4)) {
    case 0: { int k = (int)sv_choose("k", 6), n = 1 + (int)sv_choose("n", 20); auto pa = primes_to(n); Tab<W32> r(n); divisor_sigma<W32>(r, k, n, pa.data(), (int)pa.size(), W32(1)); std::vector<W32> e(1, W32(0)); for (int i = 1; i < n; i++) { W32 s(0); for (int d = 1; d <= i; d++) if (i % d == 0) { W32 x(1); for (int j = 0; j < k; j++) x *= W32(d); s += x; } e.push_back(s); } same(r, e, 1, n - 1, "sigma_k"); break; }
    case 1: { int n = 1 + (int)sv_choose("n", N); auto pa = primes_to(isqrt(n)); Tab<W32> r(n); sieve_sqfree_count<W32>(r, n, pa.data(), (int)pa.size(), W32(1)); int c = 0; std::vector<W32> e; for (int i = 0; i < n; i++) { if (i && mu0(i)) c++; e.push_back(W32(c)); } same(r, e, 0, n - 1, "sieved square-free count"); break; }
    case 2: { int n = 1 + (int)sv_choose("n", N); std::map<int, W32> tb; int c = 0; for (int i = 1; i <= n; i++) if (mu0(i)) c++; CHECK((sqfree_count<W32, int>(n, tb, W32(1))) == W32(c), "square-free count"); break; }
    case 3: { int n = 1 + (int)sv_choose("n", N); std::vector<int> phi(n + 1, 0); std::vector<W32> S(n + 1, W32(0)); for (int i = 1; i <= n; i++) { for (int j = 1; j <= i; j++) phi[i] += gcd(i, j) == 1; S[i] = S[i - 1] + W32(phi[i]); } auto m = sum_phi<W32, int>(n, W32(1), sv_choose("phi", 2) ? phi.data() : nullptr); CHECK(m[n] == S[n], "totient sum"); for (int k = 1; k <= n; k++) if (m.count(n / k)) CHECK(m[n / k] == S[n / k], "totient sums at n/k"); break; }
    }
}
//@ F05 ds_phi t=60 q:N=8 Q:N=16 -- multi-dimensional totient sums equal the count of coprime tuples
ENTRY ds_phi() {
    typedef Fp<1009> P; int D = (int)sv_choose("D", 4), L = (int)sv_choose("L", 3), n = 1 + (int)sv_choose("n", (int)sv_param("N", 8)); int s = 0; for (int k = 1; k <= n; k++) { int c = 0; if (D == 0) c = k == 1; else if (D == 1) { for (int a = 1; a <= k; a++) c += gcd(a, k) == 1; } else if (D == 2) { for (int a = 1; a <= k; a++) for (int b = a; b <= k; b++) c += gcd(gcd(a, b), k) == 1; } else for (int a = 1; a <= k; a++) for (int b = a; b <= k; b++) for (int d = b; d <= k; d++) c += gcd(gcd(a, b), gcd(d, k)) == 1; for (int i = 0; i < L; i++) c *= k; s += c; } CHECK((sum_phi_D_L<P>(D, L, (int64_t)n, 0, P(1))) == P(s), "sum of k^L phi_D(k)");
}
//@ F05 sum_rat t=80 T=600 q:A=4 q:Q=3 q:N=4 Q:A=9 Q:Q=6 Q:N=6 -- sum_ratio for all signs; the offset b is symbolic
ENTRY sum_rat() {
    int A = (int)sv_param("A", 7), Q = (int)sv_param("Q", 5), N = (int)sv_param("N", 5); int a = (int)sv_choose("a", 2 * A + 1) - A, q = (int)sv_choose("q", 2 * Q) - Q, n = (int)sv_choose("n", N + 1); if (q >= 0) q++; int b = SI("b", -100, 100); int e = 0; for (int k = 0; k < n; k++) { int x = a * k + b, y = q; if (y < 0) x = -x, y = -y; int r = (x + 1000 * y) / y - 1000; e += r; } CHECK((sum_ratio<int, int>(a, b, q, n)) == e, "sum of floor((a k + b) / q)");
}
//@ F05 sum_flat t=60 T=600 q:N=20 Q:N=80 -- sum, sum_sqrt, sum_sqrt2m (both forms), sum_sqrt2 over free functions
ENTRY sum_flat() {
    int n = (int)sv_choose("n", (int)sv_param("N", 14) + 1);
    switch (sv_choose("op", 4)) {
    case 0: { auto f = tab<W32>(n + 1, "f"); int a = (int)sv_choose("a", n + 2); W32 e(0); for (int k = a; k <= n; k++) e += f[k]; CHECK((sum<W32, int>(FN(f), a, n)) == e, "sum"); break; }
    case 1: { auto f = tab<W32>(n, "f"); W32 e(0); for (int k = 1; k <= n; k++) e += f[n / k]; CHECK((sum_sqrt<W32, int>(FN(f), n)) == e, "sum_sqrt"); break; }
    case 2: { auto f = tab<W32>(n, "f"), g = tab<W32>(n, "g"), s = f; for (int i = 1; i <= n; i++) s[i] += s[i - 1]; W32 e(0); for (int k = 1; k <= n; k++) e += f[k] * g[n / k]; CHECK((sum_sqrt2m<W32, int>(FN(s), FN(g), n)) == e, "sum_sqrt2m"); CHECK((sum_sqrt2m<W32, int>(FN(f), FN(s), FN(g), n)) == e, "sum_sqrt2m with f"); break; }
    case 3: { if (n > 20) return; std::vector<std::vector<W32>> F(n + 1, std::vector<W32>(n + 1)), S = F; for (int m = 1; m <= n; m++) for (int k = 1; k <= n / m; k++) F[k][m] = w32("f"), S[k][m] = S[k - 1][m] + F[k][m]; W32 e(0); for (int k = 1; k <= n; k++) e += F[k][n / k]; CHECK((sum_sqrt2<W32, int>([&](int k, int m) { return S[k][m]; }, n)) == e, "sum_sqrt2"); break; }
    }
}
//@ F05 sum_powers t=60 q:N=12 Q:N=40 -- sum_pow for every exponent, also alternating between moduli; sum_powx with free base
ENTRY sum_powers() {
    switch (sv_choose("op", 2)) {
    case 0: { typedef modulo<int, 1, modulo_storage::INSTANCE> X; int p1 = (int)sv_choose("p1", 7), p2 = (int)sv_choose("p2", 7), n = (int)sv_choose("n", (int)sv_param("N", 12) + 1); static const int Ms[] = { 97, 101 }; for (int i = 0; i < 2; i++) { int p = i ? p2 : p1, M = Ms[i]; long e = 0; for (int k = 1; k <= n; k++) { long t = 1; for (int j = 0; j < p; j++) t = t * k % M; e = (e + t) % M; } X r = sum_pow<X, int>(p, n, X(1, M)); CHECK(r.M() == M && r.v == e, "sum of powers modulo M"); } break; }
    case 1: { int m = (int)sv_choose("m", 4), n = (int)sv_choose("n", 8); F5 x = F5::sym("x"); sv_assume(x.v != 1); F5 e(0), y(1); for (int k = 1; k <= n; k++) { y *= x; F5 t = y; for (int j = 0; j < m; j++) t *= F5(k); e += t; } CHECK((sum_powx<F5, int>(m, x, n)) == e, "sum of k^m x^k"); break; }
    }
}
//@ F05 mert t=60 T=600 q:N=60 Q:N=300 -- Mertens functions (all, odd, even) sieved and single, memoised or from the prime counts
ENTRY mert() {
    int n = 1 + (int)sv_choose("n", (int)sv_param("N", 40)), op = (int)sv_choose("op", 4); std::vector<int> a(n + 1, 0), o = a, e = a; for (int i = 1; i <= n; i++) { int m = mu0(i); a[i] = a[i - 1] + m; o[i] = o[i - 1] + (i & 1 ? m : 0); e[i] = e[i - 1] + (i & 1 ? 0 : m); } auto pa = primes_to(n);
    if (op == 0) { Tab<int> A(n + 1), O(n + 1), E(n + 1), E2(n + 1), O2(n + 1); for (auto x : { &A, &O, &E, &E2, &O2 }) for (int i = 0; i <= n; i++) (*x)[i] = 0; int m = (int)pa.size(); sieve_mertens<int>(A, n + 1, pa.data(), m); sieve_mertens_odd<int>(O, n + 1, pa.data(), m); if (n >= 1) sieve_mertens_even<int>(E, n + 1); sieve_mertens_even_odd<int>(E2, O2, n + 1, pa.data(), m); same(A, a, 1, n, "sieved Mertens function"); same(O, o, 1, n, "odd"); same(E, e, 1, n, "even"); same(E2, e, 1, n, "even of the pair"); same(O2, o, 1, n, "odd of the pair"); }
    else if (op == 1) { std::map<int, int> t1, t2, t3; CHECK((mertens<int, int>(n, t1)) == a[n] && (mertens_odd<int, int>(n, t2)) == o[n] && (mertens_even<int, int>(n, t3)) == e[n], "memoised Mertens functions"); }
    else { int q = isqrt(n); std::vector<int> ps; for (int p : pa) if (p <= q) ps.push_back(p); if (op == 3) ps = pa; std::unique_ptr<int[]> pp(new int[ps.size()]); for (size_t i = 0; i < ps.size(); i++) pp[i] = ps[i]; std::map<int64_t, int> pi; for (int k = 0; k <= n; k++) { int c = 0; for (int p : pa) c += p <= k; pi[k] = c; } int m = (int)ps.size(); auto A = mertens<int>((int64_t)n, pi, pp.get(), m), O = mertens_odd<int>((int64_t)n, pi, pp.get(), m), E = mertens_even<int>((int64_t)n, pi, pp.get(), m); std::vector<int> va(1, 0), vo = va, ve = va, xa = va, xo = va, xe = va; for (int k = 1; k <= n; k++) { int j = n / k; va.push_back(A[j]); vo.push_back(O[j]); ve.push_back(E[j]); xa.push_back(a[j]); xo.push_back(o[j]); xe.push_back(e[j]); } same(va, xa, 1, n, "Mertens function at every n/k"); same(vo, xo, 1, n, "odd, at every n/k"); same(ve, xe, 1, n, "even, at every n/k"); }
}
// a table that claims to know every value except one, all zero
struct Zt { int64_t n; int v = 0, z = 0; int count(int64_t k) const { return k != n; } int& operator[](int64_t k) { if (k == n) return v; z = 0; return z; } };
//@ F05 mert_big t=60 -- the odd and even Mertens recursion starts from the right term for 64-bit arguments
ENTRY mert_big() { int64_t n = (int64_t)1 << 31; Zt a{ n }, b{ n }, c{ n }; CHECK((mertens_even<int, int64_t>(n, a)) == -1, "even"); CHECK((mertens_odd<int, int64_t>(n, b)) == 1, "odd"); CHECK((mertens<int, int64_t>(n, c)) == 1, "all"); }
//@ F05 pcount t=60 T=600 q:N=90 Q:N=400 -- prime sums, prime counts (also by residue mod 4), the Meissel-Lehmer form
ENTRY pcount() {
    int n = 1 + (int)sv_choose("n", (int)sv_param("N", 60)), op = (int)sv_choose("op", 4); typedef Fp<1009> P;
    if (op == 0) { int z = (int)sv_choose("z", 6); auto s = prime_power_sum_sqrt<P, int>(z, n, P(1)); P e(0); std::vector<P> E(1, e); for (int i = 1; i <= n; i++) { if (isp(i)) { P t(1); for (int j = 0; j < z; j++) t *= P(i); e += t; } E.push_back(e); } std::vector<P> u(1, P(0)), w(1, P(0)); for (int k = 1; k <= n; k++) u.push_back(s[n / k]), w.push_back(E[n / k]); same(u, w, 1, n, "prime power sums"); return; }
    std::vector<int> c(n + 1, 0), c1 = c, c3 = c; for (int i = 1; i <= n; i++) { bool b = isp(i); c[i] = c[i - 1] + b; c1[i] = c1[i - 1] + (b && i % 4 == 1); c3[i] = c3[i - 1] + (b && i % 4 == 3); }
    if (op == 1) { auto s = prime_pi_sqrt<int64_t>(n); auto v = prime_pi13_sqrt<int64_t>(n); std::vector<int> u(1, 0), w = u, u1 = u, w1 = u, u3 = u, w3 = u; for (int k = 1; k <= n; k++) u.push_back((int)s[n / k]), w.push_back(c[n / k]), u1.push_back((int)v[0][n / k]), w1.push_back(c1[n / k]), u3.push_back((int)v[1][n / k]), w3.push_back(c3[n / k]); same(u, w, 1, n, "prime counts"); same(u1, w1, 1, n, "primes 4k+1"); same(u3, w3, 1, n, "primes 4k+3"); }
    else if (op == 2) { int64_t sm = 0; for (int i = 2; i <= n; i++) if (isp(i)) sm += i; CHECK(prime_pi<int64_t>(n) == c[n] && prime_pi1<int64_t>(n) == c1[n] && prime_pi3<int64_t>(n) == c3[n] && (prime_sum<int64_t, int64_t>(n, 1)) == sm, "single values"); CHECK(prime_pi<int64_t>(0) == 0 && prime_pi1<int64_t>(0) == 0 && prime_pi3<int64_t>(0) == 0, "zero"); }
    else { auto pa = primes_to(n + 10); int sz = (int)sv_choose("psz", 2) * 5; CHECK((prime_pi_deprecated<int64_t, int>(n, c.data(), pa.data(), sz < n ? sz : 0)) == c[n], "Meissel-Lehmer"); }
}
//@ F05 reduces t=60 q:N=4 Q:N=6 -- reduce, sum, product, min, max, mex over any container contents
ENTRY reduces() {
    int n = (int)sv_choose("n", (int)sv_param("N", 4) + 1); switch (sv_choose("op", 5)) {
    case 0: { std::vector<W32> v; W32 s(0), p(1); for (int i = 0; i < n; i++) v.push_back(w32("v")), s += v[i], p *= v[i]; CHECK(reduce_sum(v) == s && reduce_product(v) == p, "sum and product"); auto r = reduce(v, [](W32 a, W32 b) { return a * W32(3) + b; }, W32(7)); W32 e(7); for (int i = 0; i < n; i++) e = e * W32(3) + v[i]; CHECK(r == e, "left fold"); break; }
    case 1: { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back((int)sv_sym_i("v", -INT32_MAX, INT32_MAX)); if (!n) { CHECK(reduce_min(v) == INT32_MAX, "empty minimum"); return; } int mn = reduce_min(v), mx = reduce_max(v); unsigned fm = 0, fx = 0; for (int i = 0; i < n; i++) { CHECK(mn <= v[i] && v[i] <= mx, "bounds"); fm |= (unsigned)(mn == v[i]); fx |= (unsigned)(mx == v[i]); } CHECK(fm && fx, "attained"); break; }
    case 2: { std::vector<unsigned> v; for (int i = 0; i < n; i++) v.push_back((unsigned)SU("v", 0, 0xffffffffu)); if (!n) return; unsigned mn = reduce_min(v), mx = reduce_max(v); unsigned fm = 0, fx = 0; for (int i = 0; i < n; i++) { CHECK(mn <= v[i] && v[i] <= mx, "bounds"); fm |= (unsigned)(mn == v[i]); fx |= (unsigned)(mx == v[i]); } CHECK(fm && fx, "attained"); break; }
    case 3: { std::vector<int> v; for (int i = 0; i < n; i++) { v.push_back((int)sv_sym_i("v", -1, 4)); if (i) sv_assume(v[i - 1] <= v[i]); } int m = reduce_mex(v); CHECK(m >= 0, "mex is not negative"); for (int i = 0; i < n; i++) CHECK(v[i] != m, "mex is excluded"); int w = SI("w", 0, 6); sv_assume(w < m); unsigned f = 0; for (int i = 0; i < n; i++) f |= (unsigned)(v[i] == w); CHECK(f, "everything below mex occurs"); break; }
    case 4: { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back((int)sv_sym_i("v", -5, 5)); int id = (int)sv_sym_i("id", -7, 7); int mn = reduce_min(v, id), mx = reduce_max(v, id); CHECK(mn <= id && mx >= id, "bounded by the identity"); for (int i = 0; i < n; i++) CHECK(mn <= v[i] && v[i] <= mx, "bounds"); break; }
    }
}
