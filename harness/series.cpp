// Formal power series (structure/math/series.h)
#include "field.h"
#include "altruct/structure/math/series.h"
#include <vector>
using namespace altruct::math;
typedef Fp<7> F7; typedef Fp<11> F11; typedef Fp<5> F5;
template<typename T> using ser = series<T, 0, series_storage::INSTANCE>;
template<typename T> static ser<T> sy(int n, const char* nm) { std::vector<T> c; for (int i = 0; i < n; i++) c.push_back(T::sym(nm)); return ser<T>(c); }
template<typename T> static ser<T> sy0(int n, const char* nm, T c0) { std::vector<T> c; c.push_back(c0); for (int i = 1; i < n; i++) c.push_back(T::sym(nm)); return ser<T>(c); }
template<typename T> static std::vector<T> mulN(const std::vector<T>& a, const std::vector<T>& b, int n) { std::vector<T> r(n, T(0)); for (int i = 0; i < n && i < (int)a.size(); i++) for (int j = 0; i + j < n && j < (int)b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; }
template<typename T> static void same(const ser<T>& s, const std::vector<T>& e, int n, const char* msg) { CHECK(s.N() == n && s.p.size() <= n, "number of terms"); for (int i = 0; i < n; i++) CHECK(s.at(i) == (i < (int)e.size() ? e[i] : T(0)), msg); }
template<typename T> static std::vector<T> cv(const ser<T>& s) { std::vector<T> r; for (int i = 0; i < s.N(); i++) r.push_back(s.at(i)); return r; }
//@ F02 ser_arith t=80 q:N=4 Q:N=5 -- add, sub, neg, mul, scale, pointwise product, shift, x -> a x, x -> x^a
ENTRY ser_arith() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef F7 T; ser<T> a = sy<T>(n, "a"), b = sy<T>(n, "b"); T s = T::sym("s"); auto ca = cv(a), cb = cv(b); std::vector<T> e(n, T(0));
    switch (sv_choose("op", 9)) {
    case 0: for (int i = 0; i < n; i++) e[i] = ca[i] + cb[i]; same(a + b, e, n, "sum"); break;
    case 1: for (int i = 0; i < n; i++) e[i] = ca[i] - cb[i]; same(a - b, e, n, "difference"); break;
    case 2: same(a * b, mulN(ca, cb, n), n, "product"); break;
    case 3: for (int i = 0; i < n; i++) e[i] = ca[i] * s; same(a * s, e, n, "scaled"); break;
    case 4: for (int i = 0; i < n; i++) e[i] = ca[i] * cb[i]; same(a.pointwise_mul(b), e, n, "pointwise product"); break;
    case 5: { int l = (int)sv_choose("l", 4 * N + 1) - 2 * N; for (int i = 0; i < n; i++) if (i - l >= 0 && i - l < n) e[i] = ca[i - l]; same(a.shift(l), e, n, "shift by l places"); break; }
    case 6: { T w(1); for (int i = 0; i < n; i++) { e[i] = ca[i] * w; w = w * s; } same(a.sub_mul(s), e, n, "s(x*a)"); break; }
    case 7: { int k = 1 + (int)sv_choose("k", N + 2); for (int i = 0; i * k < n; i++) e[i * k] = ca[i]; same(a.sub_pow(k), e, n, "s(x^k)"); break; }
    case 8: for (int i = 0; i < n; i++) e[i] = -ca[i]; same(-a, e, n, "negation"); break;
    }
}
//@ F02 ser_inverse t=100 q:N=5 Q:N=7 -- inverse and quotient
ENTRY ser_inverse() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef Fp<3> T; ser<T> a = sy<T>(n, "a"); sv_assume(a.at(0).v != 0); std::vector<T> one(n, T(0)); one[0] = T(1);
    if (sv_choose("op", 2) == 0) { ser<T> r = a.inverse(); CHECK(r.N() == n, "terms"); auto e = mulN(cv(a), cv(r), n); for (int i = 0; i < n; i++) CHECK(e[i] == one[i], "s * inverse = 1"); }
    else { ser<T> b = sy<T>(n, "b"); ser<T> q = b / a; auto e = mulN(cv(a), cv(q), n); for (int i = 0; i < n; i++) CHECK(e[i] == b.at(i), "quotient times divisor"); }
}
//@ F02 ser_calc t=100 q:N=5 Q:N=7 -- derivative and integral, exponential <-> ordinary
ENTRY ser_calc() {
    int N = (int)sv_param("N", 5), n = 1 + (int)sv_choose("n", N); typedef F7 T; ser<T> a = sy<T>(n, "a"); T c0 = T::sym("c0"); auto c = cv(a); std::vector<T> e(n, T(0)); T f(1);
    switch (sv_choose("op", 4)) {
    case 0: for (int i = 0; i + 1 < n; i++) e[i] = c[i + 1] * T(i + 1); same(a.derivative(), e, n, "derivative"); break;
    case 1: { ser<T> s = a.integral(c0); CHECK(s.N() == n && s.at(0) == c0, "integration constant"); for (int i = 1; i < n; i++) CHECK(s.at(i) * T(i) == c[i - 1], "integral"); break; }
    case 2: { ser<T> s = a.make_exponential(); for (int i = 0; i < n; i++) { if (i) f = f * T(i); CHECK(s.at(i) * f == c[i], "coefficients divided by n!"); } break; }
    case 3: { ser<T> s = a.make_ordinary(); for (int i = 0; i < n; i++) { if (i) f = f * T(i); CHECK(s.at(i) == c[i] * f, "coefficients multiplied by n!"); } break; }
    }
}
//@ F02 ser_comp t=100 q:N=4 Q:N=5 -- composition equals Horner evaluation in the truncated ring
ENTRY ser_comp() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef Fp<3> T; ser<T> a = sy<T>(n, "a"), b = sv_choose("z", 2) ? sy0<T>(n, "b", T(0)) : sy<T>(n, "b"); std::vector<T> e(n, T(0)); auto cb = cv(b); for (int i = n - 1; i >= 0; i--) { e = mulN(e, cb, n); e[0] = e[0] + a.at(i); } same(a.composition(b), e, n, "s(r(x))");
}
//@ F02 ser_rev t=110 q:N=4 Q:N=5 -- compositional inverse
ENTRY ser_rev() {
    int N = (int)sv_param("N", 4), n = 2 + (int)sv_choose("n", N - 1); typedef F5 T; ser<T> a = sy0<T>(n, "a", T(0)); sv_assume(a.at(1).v != 0); ser<T> r = a.reversion(); CHECK(r.N() == n, "terms"); std::vector<T> e(n, T(0)); auto cr = cv(r); for (int i = n - 1; i >= 0; i--) { e = mulN(e, cr, n); e[0] = e[0] + a.at(i); } for (int i = 0; i < n; i++) CHECK(e[i] == T(i == 1), "s(r(x)) = x");
}
//@ F02 ser_ln t=110 q:N=4 Q:N=5 -- logarithm: s * (ln s)' = s', constant term as given
ENTRY ser_ln() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef F5 T; ser<T> a = sy0<T>(n, "a", T(1)); T c0 = T::sym("c0"); ser<T> l = a.ln(c0); CHECK(l.N() == n && l.at(0) == c0, "constant term"); std::vector<T> d(n, T(0)); for (int i = 0; i + 1 < n; i++) d[i] = l.at(i + 1) * T(i + 1); auto e = mulN(cv(a), d, n); for (int i = 0; i + 1 < n; i++) CHECK(e[i] == a.at(i + 1) * T(i + 1), "s * (ln s)' = s'");
}
//@ F02 ser_exp t=110 q:N=4 Q:N=5 -- exponential: e' = s' e and e(0) = 1
ENTRY ser_exp() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef F5 T; ser<T> a = sy0<T>(n, "a", T(0)); ser<T> x = a.exp(); CHECK(x.N() == n && x.at(0) == T(1), "constant term"); std::vector<T> d(n, T(0)); for (int i = 0; i + 1 < n; i++) d[i] = a.at(i + 1) * T(i + 1); auto e = mulN(cv(x), d, n); for (int i = 0; i + 1 < n; i++) CHECK(e[i] == x.at(i + 1) * T(i + 1), "(exp s)' = s' exp s");
}
//@ F02 ser_pow t=110 q:N=3 Q:N=4 -- powers: repeated product on both sides of the threshold, zero constant terms included
ENTRY ser_pow() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N), k = (int)sv_choose("k", 7); typedef F5 T; ser<T> a = sy<T>(n, "a"); std::vector<T> e(n, T(0)); e[0] = T(1); for (int i = 0; i < k; i++) e = mulN(e, cv(a), n); same(a.pow(k), e, n, "s^k by squaring"); 
}
//@ F02 ser_pow_hi t=110 q:N=3 Q:N=4 -- powers at and above the threshold, zero constant terms and the zero series included
ENTRY ser_pow_hi() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N); int k = 1 + (int)sv_choose("k", 4) * 2; typedef F5 T; ser<T> a = sy<T>(n, "a"); std::vector<T> e(n, T(0)); e[0] = T(1); for (int i = 0; i < k; i++) e = mulN(e, cv(a), n); same(a.pow(k, 1), e, n, "s^k above the threshold");
    int m = 200 + (int)sv_choose("m", 2); if (n <= 2) { std::vector<T> f(n, T(0)); f[0] = T(1); for (int i = 0; i < m; i++) f = mulN(f, cv(a), n); same(a.pow(m), f, n, "s^k for a large exponent"); }
}
//@ F02 ser_gen t=60 q:N=6 -- exp(a x), of(f)
ENTRY ser_gen() {
    int N = (int)sv_param("N", 6); typedef F11 T; T a = T::sym("a"); int n = 1 + (int)sv_choose("n", N); ser<T> s = ser<T>::exp(a, n); T w(1), f(1); for (int i = 0; i < n; i++) { if (i) { w = w * a; f = f * T(i); } CHECK(s.at(i) * f == w, "coefficient of exp(a x)"); }
    ser<T> g = ser<T>::of([&](int i) { return a * T(i) + T(3); }, n); CHECK(g.N() == n, "terms"); for (int i = 0; i < n; i++) CHECK(g.at(i) == a * T(i) + T(3), "coefficient given by the function");
}
//@ F02 ser_pinv t=60 q:N=4 -- pointwise inverse and quotient
ENTRY ser_pinv() {
    int N = (int)sv_param("N", 4), n = 1 + (int)sv_choose("n", N); typedef F5 T; ser<T> a = sy<T>(n, "a"), b = sy<T>(n, "b"); for (int i = 0; i < n; i++) sv_assume(a.at(i).v != 0); auto r = sv_choose("field", 2) ? a.pointwise_inv<true>() : a.pointwise_inv<false>(); for (int i = 0; i < n; i++) CHECK(r.at(i) * a.at(i) == T(1), "pointwise inverse"); auto q = b.pointwise_div<true>(a); for (int i = 0; i < n; i++) CHECK(q.at(i) * a.at(i) == b.at(i), "pointwise quotient");
}
