// Linear recurrences and range tables (algorithm/math/recurrence.h, ranges.h, polynoms.h)
#include "field.h"
#include "altruct/algorithm/math/recurrence.h"
#include "altruct/algorithm/math/ranges.h"
#include "altruct/algorithm/math/polynoms.h"
#include <vector>
using namespace altruct::math;
typedef Fp<5> F5; typedef Fp<11> F11; typedef Fp<3> F3;
template<typename T> static std::vector<T> sy(int n, const char* nm) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(T::sym(nm)); return v; }
//@ F04 rec_nth t=100 q:L=3 q:N=9 Q:L=4 Q:N=16 -- the n-th term equals the iterated recurrence, any coefficients and initial values
ENTRY rec_nth() {
    int L = 1 + (int)sv_choose("L", sv_param("L", 3)), n = (int)sv_choose("n", sv_param("N", 9)); auto c = sy<F3>(L, "c"), f = sy<F3>(L, "f"), g = f; for (int i = L; i <= n; i++) { F3 t(0); for (int j = 0; j < L; j++) t += c[j] * g[i - 1 - j]; g.push_back(t); }
    CHECK((linear_recurrence<F3, F3>(c, f, n)) == g[n], "n-th term"); std::vector<F3> h(g.begin(), g.begin() + std::max(L, n)); if (n >= L) CHECK((linear_recurrence_next<F3, F3>(c, h)) == g[n], "next term");
    auto p = linear_recurrence_coeff_to_poly(c); CHECK(p.deg() == L && p.at(L) == F3(1), "characteristic polynomial is monic"); for (int i = 0; i < L; i++) CHECK(p.at(L - 1 - i) == -c[i], "characteristic polynomial coefficient"); auto c2 = linear_recurrence_poly_to_coeff(p); CHECK((int)c2.size() == L, "coefficients"); for (int i = 0; i < L; i++) CHECK(c2[i] == c[i], "round trip of the coefficients");
}
//@ F04 rec_lucas t=100 q:N=9 Q:N=24 -- Lucas sequences and Fibonacci numbers
ENTRY rec_lucas() {
    int n = (int)sv_choose("n", sv_param("N", 12)); F5 p = F5::sym("p"), q = F5::sym("q"); F5 u0(0), u1(1), v0(2), v1 = p; for (int i = 0; i < n; i++) { F5 t = p * u1 - q * u0; u0 = u1; u1 = t; t = p * v1 - q * v0; v0 = v1; v1 = t; }
    CHECK(lucas_u(p, q, n) == u0, "Lucas U"); CHECK(lucas_v(p, q, n) == v0, "Lucas V"); typedef Fp<1000003, uint64_t> B; B a(0), b(1), la(2), lb(1); for (int i = 0; i < n; i++) { B t = a + b; a = b; b = t; t = la + lb; la = lb; lb = t; } CHECK(fibonacci<B>(n) == a && lucas_l<B>(n) == la, "Fibonacci and Lucas numbers");
}
//@ F04 rec_bm t=110 q:L=2 Q:L=3 -- Berlekamp-Massey: a sequence of 2n elements with a recurrence of order <= n is reproduced by the result, which is no longer
ENTRY rec_bm() {
    int M = (int)sv_param("L", 2), L = 1 + (int)sv_choose("L", M), n = L + (int)sv_choose("extra", 2), odd = (int)sv_choose("odd", 2); auto c = sy<F3>(L, "c"), a = sy<F3>(L, "a"); for (int i = L; i < 2 * n + odd; i++) { F3 t(0); for (int j = 0; j < L; j++) t += c[j] * a[i - 1 - j]; a.push_back(t); }
    auto r = berlekamp_massey<F3>(a); CHECK((int)r.size() <= L, "the recurrence found is not longer"); int K = (int)r.size(); for (int i = K; i < 2 * n; i++) { F3 t(0); for (int j = 0; j < K; j++) t += r[j] * a[i - 1 - j]; CHECK(t == a[i], "the sequence satisfies the recurrence found"); }
    auto p = berlekamp_massey_poly<F3>(a); CHECK(p.deg() == K && p.at(K) == F3(1), "monic characteristic polynomial");
}
//@ F04 rec_sum t=80 q:N=4 Q:N=6 -- Bernoulli numbers and the discrete integral of a polynomial
ENTRY rec_sum() {
    int n = (int)sv_choose("n", sv_param("N", 4) + 1); auto c = sy<F11>(n + 1, "c"); polynom<F11> p(c), s = polynom_sum(p); F11 acc(0); for (int x = 0; x <= 8; x++) { if (x > 0) { F11 v(0); for (int i = n; i >= 0; i--) v = v * F11(x) + c[i]; acc += v; } CHECK(s.eval(F11(x)) == acc, "s(x) = p(1) + ... + p(x)"); }
    auto b = bernoulli_b<F11>(n); CHECK((int)b.size() == n + 1, "size"); for (int m = 0; m <= n; m++) { F11 t(0); long C = 1; for (int k = 0; k <= m; k++) { t += F11((int)C) * b[k]; C = C * (m + 1 - k) / (k + 1); } CHECK(t == F11(m + 1), "Bernoulli recurrence"); }
}
//@ F04 range_tables t=60 q:N=6 Q:N=9 -- ranges, powers, factorials, inverse factorials, inverses, for every length including empty
ENTRY range_tables() {
    int N = (int)sv_param("N", 6), n = (int)sv_choose("n", N + 1); F11 s = F11::sym("s"); F11 v(0), w(1), f(1); auto r = range<F11>(n, s), pw = powers<F11>(n, s), fa = make_factorials<F11>(n), fi = make_inv_factorials<F11>(n), in = make_inverses<F11>(n); CHECK((int)r.size() == n && (int)pw.size() == n && (int)fa.size() == n && (int)fi.size() == n && (int)in.size() == n, "lengths");
    for (int i = 0; i < n; i++) { CHECK(r[i] == v, "range"); CHECK(pw[i] == w, "powers"); if (i) f = f * F11(i); CHECK(fa[i] == f, "factorials"); CHECK(fi[i] * f == F11(1), "inverse factorials"); CHECK(i ? in[i] * F11(i) == F11(1) : in[i].v == 0, "inverses"); v += s; w *= s; }
    if (n > 1) { int k = (int)sv_choose("k", n); F11 fk(1); for (int i = 1; i <= k; i++) fk = fk * F11(i); auto g = make_inv_factorials<F11>(n, fk, k); for (int i = 0; i < n; i++) CHECK(g[i] == fi[i], "inverse factorials from a given k!"); }
}
//@ F04 range_maps t=80 q:N=4 Q:N=6 -- power, invert, invert_field, negate, alternate, accumulate, differentiate
ENTRY range_maps() {
    int N = (int)sv_param("N", 4), n = (int)sv_choose("n", N + 1); auto a = sy<F5>(n, "a"), x = a; F5 acc(0);
    switch (sv_choose("op", 8)) {
    case 0: { int k = (int)sv_choose("k", 6); power(x.begin(), x.end(), k); for (int i = 0; i < n; i++) { F5 e(1); for (int j = 0; j < k; j++) e *= a[i]; CHECK(x[i] == e, "power"); } break; }
    case 1: invert(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(a[i].v == 0 ? x[i].v == 0 : x[i] * a[i] == F5(1), "invert"); break;
    case 2: for (int i = 0; i < n; i++) sv_assume(a[i].v != 0); invert_field(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(x[i] * a[i] == F5(1), "invert_field"); break;
    case 3: negate(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(x[i] == -a[i], "negate"); break;
    case 4: alternate(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(x[i] == (i & 1 ? -a[i] : a[i]), "alternate"); break;
    case 5: altruct::math::accumulate(x.begin(), x.end()); for (int i = 0; i < n; i++) { acc += a[i]; CHECK(x[i] == acc, "accumulate"); } break;
    case 6: differentiate(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(x[i] == (i ? a[i] - a[i - 1] : a[i]), "differentiate"); break;
    case 7: altruct::math::accumulate(x.begin(), x.end()); differentiate(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK(x[i] == a[i], "differentiate undoes accumulate"); break;
    }
}

//@ F04 mono_find t=60 -- monotonic_search: exact solution of a x + c = y for every y (also at the ends of the interval, increasing and decreasing)
ENTRY mono_find() { int a = (int)sv_choose("a", 4), t = (int)sv_concretize(SI("t", -8, 8)), k = SI("c", -3, 3); a = a < 2 ? a - 2 : a - 1; double c = (double)(int)sv_concretize(k), x0 = (double)t, y = a * x0 + c; auto p = [&](double x) { return a * x + c; }; double x = monotonic_search<decltype(p), double>(p, -8.0, 8.0, y); CHECK(x == x0, "solution"); sv_reach("mono_find"); }
//@ F04 poly_zeros t=60 -- find_zeros: every simple integer zero of a polynomial up to degree 4, scaled and with or without a pair of complex zeros
ENTRY poly_zeros() { int n = 1 + (int)sv_choose("n", 3), s = (int)sv_choose("scale", 3); double r[3]; int prev = -5; for (int i = 0; i < n; i++) { prev += 1 + (int)sv_choose("gap", 3); r[i] = prev; } polynom<double> p{s == 0 ? 1.0 : s == 1 ? -2.0 : 0.5}; for (int i = 0; i < n; i++) p *= polynom<double>{-r[i], 1.0}; if (n < 3 && sv_choose("complex", 2)) p *= polynom<double>{3.0, 0.0, 1.0}; auto z = find_zeros(p, 1024.0, 1e-9); int at = -1; for (double x : z) { if (at + 1 < n && x > r[at + 1] - 1e-6) at++; CHECK(at >= 0 && x > r[at] - 1e-6 && x < r[at] + 1e-6, "zeros in ascending order"); } CHECK(at == n - 1, "every zero"); sv_reach("poly_zeros"); }
