// Polynomials (structure/math/polynom.h)
#include "field.h"
#include "altruct/structure/math/polynom.h"
#include <vector>
using namespace altruct::math;
typedef std::vector<W32> V32;
template<typename T> static std::vector<T> conv(const std::vector<T>& a, const std::vector<T>& b) { std::vector<T> r(a.size() + b.size() - 1, T(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; }
template<typename T> static T at(const std::vector<T>& a, int i) { return i >= 0 && i < (int)a.size() ? a[i] : T(0); }
static V32 sym32(int l, const char* n) { V32 a; for (int i = 0; i <= l; i++) a.push_back(w32(n)); return a; }
static V32 prod(const polynom<W32>& a, const polynom<W32>& b) { return conv(a.c, b.c); }
//@ F01 poly_mul_impl t=100 q:L=14 Q:L=22 -- long and Karatsuba multiplication with every split, truncation and aliasing, coefficients symbolic in Z/2^32
ENTRY poly_mul_impl() {
    int L = (int)sv_param("L", 9), l1 = (int)sv_choose("l1", L + 1), l2 = (int)sv_choose("l2", l1 + 1), lr = l1 + (int)sv_choose("lr", l2 + 1), alg = (int)sv_choose("alg", 2), al = (int)sv_choose("alias", 3);
    V32 a = sym32(l1, "a"), b = sym32(l2, "b"), e = conv(a, b), r(lr + 3, W32(77)); W32 *pa = a.data(), *pb = b.data(), *pr = r.data();
    if (al == 1) { a.resize(lr + 3, W32(0)); a[lr + 1] = a[lr + 2] = W32(77); pr = pa = a.data(); } if (al == 2) { b.resize(lr + 3, W32(0)); b[lr + 1] = b[lr + 2] = W32(77); pr = pb = b.data(); }
    if (alg) polynom<W32>::_mul_karatsuba(pr, lr, pa, l1, pb, l2); else polynom<W32>::_mul_long(pr, lr, pa, l1, pb, l2);
    for (int i = 0; i <= lr; i++) CHECK(pr[i] == e[i], alg ? "Karatsuba coefficient" : "long multiplication coefficient");
    CHECK(pr[lr + 1].v == 77 && pr[lr + 2].v == 77, "nothing is written behind the requested degree");
}
// forces Karatsuba at every level, through the customisation point
struct K32 : W32 { K32() {} K32(int x) : W32(x) {} K32(W32 w) : W32(w) {} };
static K32 operator+(K32 a, K32 b) { return K32((W32)a + (W32)b); } static K32 operator-(K32 a, K32 b) { return K32((W32)a - (W32)b); } static K32 operator*(K32 a, K32 b) { return K32((W32)a * (W32)b); }
namespace altruct { namespace math { template<> struct polynom_mul<K32, void> { static void impl(K32* pr, int lr, const K32* p1, int l1, const K32* p2, int l2) { CHECK(0 <= l2 && l2 <= l1 && l1 <= lr && lr <= l1 + l2, "the multiplication hook is called within its stated bounds"); if (l2 == 0) polynom<K32>::_mul_long(pr, lr, p1, l1, p2, l2); else polynom<K32>::_mul_karatsuba(pr, lr, p1, l1, p2, l2); } }; } }
//@ F01 poly_mul_kara t=100 q:L=12 Q:L=18 -- recursive Karatsuba through the customisation point, any degree order and any requested degree
ENTRY poly_mul_kara() {
    int L = (int)sv_param("L", 8), l1 = (int)sv_choose("l1", L + 1), l2 = (int)sv_choose("l2", L + 1), lr = (int)sv_choose("lr", l1 + l2 + 3); std::vector<K32> a, b, r(lr + 2, K32(77)); for (int i = 0; i <= l1; i++) a.push_back(K32(w32("a"))); for (int i = 0; i <= l2; i++) b.push_back(K32(w32("b")));
    polynom<K32>::_mul(r.data(), lr, a.data(), l1, b.data(), l2); std::vector<K32> e = conv(a, b);
    for (int i = 0; i <= lr; i++) CHECK(r[i].v == at(e, i).v, "product coefficient"); CHECK(r[lr + 1].v == 77, "nothing is written behind the requested degree");
}
static polynom<W8> p8(int n, const char* nm) { std::vector<W8> c; for (int i = 0; i < n; i++) c.push_back(w8(nm)); return polynom<W8>(c); }
//@ F01 poly_ops t=100 q:N=4 Q:N=5 -- add, sub, neg, scale, mul with all aliasing patterns; zero leading coefficients included
ENTRY poly_ops() {
    int N = (int)sv_param("N", 4), n1 = 1 + (int)sv_choose("n1", N), n2 = 1 + (int)sv_choose("n2", N), op = (int)sv_choose("op", 4), al = (int)sv_choose("alias", 4);
    polynom<W8> a = p8(n1, "a"), b = p8(n2, "b"), r = p8((int)sv_choose("nr", 2) * 3, "r"); if (al == 3) b = a; std::vector<W8> ca = a.c, cb = b.c, e;
    polynom<W8>& R = al == 0 ? r : al == 2 ? b : a; polynom<W8>& B = al == 3 ? a : b; W8 s = w8("s");
    switch (op) {
    case 0: polynom<W8>::add(R, a, B); for (int i = 0; i < 2 * N; i++) e.push_back(at(ca, i) + at(cb, i)); break;
    case 1: polynom<W8>::sub(R, a, B); for (int i = 0; i < 2 * N; i++) e.push_back(at(ca, i) - at(cb, i)); break;
    case 2: polynom<W8>::mul(R, a, B); e = conv(ca, cb); break;
    case 3: if (al & 1) { polynom<W8>::neg(R, a); for (int i = 0; i < N; i++) e.push_back(-at(ca, i)); } else { polynom<W8>::mul(R, a, s); for (int i = 0; i < N; i++) e.push_back(at(ca, i) * s); } break;
    }
    for (int i = 0; i < 2 * N; i++) CHECK(R.at(i) == at(e, i), "result coefficient");
    CHECK(R.ZERO_COEFF == W8(0), "zero coefficient");
}
//@ F01 poly_mul_trunc t=80 q:N=4 Q:N=5 -- product to a requested degree
ENTRY poly_mul_trunc() {
    int N = (int)sv_param("N", 4), n1 = 1 + (int)sv_choose("n1", N), n2 = 1 + (int)sv_choose("n2", N), lr = (int)sv_choose("lr", 2 * N + 2), al = (int)sv_choose("alias", 3);
    polynom<W8> a = p8(n1, "a"), b = p8(n2, "b"), r; std::vector<W8> e = conv(a.c, b.c); polynom<W8>& R = al == 0 ? r : al == 2 ? b : a; polynom<W8>::mul(R, a, b, lr);
    CHECK(R.size() == lr + 1, "size follows the requested degree"); for (int i = 0; i <= lr; i++) CHECK(R.at(i) == at(e, i), "coefficient of the truncated product");
}
//@ F01 poly_cmp t=80 q:N=3 Q:N=4 -- degree, lowest, comparison as a total order on coefficient sequences
ENTRY poly_cmp() {
    int N = (int)sv_param("N", 3), n1 = (int)sv_choose("n1", N + 1), n2 = (int)sv_choose("n2", N + 1); polynom<W8> a = p8(n1, "a"), b = p8(n2, "b");
    int d = 0, lo = 0, ex = 0; for (int i = 0; i < n1; i++) if (a.c[i].v) d = i; for (int i = n1 - 1; i >= 0; i--) if (a.c[i].v) lo = i; for (int i = 0; i < N; i++) { unsigned x = at(a.c, i).v, y = at(b.c, i).v; ex = x < y ? -1 : x > y ? 1 : ex; }
    CHECK(a.deg() == d, "degree"); CHECK(a.lowest() == lo, "lowest"); CHECK(a.leading_coeff() == at(a.c, d), "leading coefficient"); int c = polynom<W8>::cmp(a, b); CHECK(c == ex, "comparison goes by the highest differing coefficient");
    CHECK((a == b) == (ex == 0) && (a != b) == (ex != 0) && (a < b) == (ex < 0) && (a > b) == (ex > 0) && (a <= b) == (ex <= 0) && (a >= b) == (ex >= 0), "comparison operators");
    polynom<W8> s = a; s.shrink_to_fit(); CHECK(s.size() == d + 1 && s == a, "shrink_to_fit keeps the value"); polynom<W8> t = a.reverse(); for (int i = 0; i <= d; i++) CHECK(t.at(i) == a.at(d - i), "reverse");
    CHECK(a.is_power() == (lo == d && at(a.c, d).v == 1), "is_power");
}
typedef Fp<5> F5; typedef polynom<F5> P5;
static P5 pf(int n, const char* nm) { std::vector<F5> c; for (int i = 0; i < n; i++) c.push_back(F5::sym(nm)); return P5(c); }
static void divcheck(const P5& a, const P5& b, const P5& q, const P5& r) {
    int db = b.deg(); for (int i = std::max(db, 0); i < r.size(); i++) CHECK(r.at(i).v == 0, "remainder degree is below the divisor degree"); if (db == 0) CHECK(r.size() == 0 || r.deg() == 0 && r.at(0).v == 0, "remainder by a constant is zero");
    std::vector<F5> e = q.c.empty() ? std::vector<F5>(1) : conv(q.c, b.c); for (int i = 0; i < a.size() + b.size(); i++) CHECK((at(e, i) + r.at(i)) == a.at(i), "dividend = quotient * divisor + remainder");
}
//@ F01 poly_divmod t=110 q:N=4 q:M=3 Q:N=5 Q:M=4 -- division with remainder over a field, every dividend and non-zero divisor within the sizes
ENTRY poly_divmod() {
    int N = (int)sv_param("N", 4), M = (int)sv_param("M", 3), n1 = 1 + (int)sv_choose("n1", N), n2 = 1 + (int)sv_choose("n2", M), how = (int)sv_choose("how", 3); P5 a = pf(n1, "a"), b = pf(n2, "b"); bool nz = false; for (auto& x : b.c) nz |= x.v != 0; sv_assume(nz);
    if (how == 0) { P5 q = a / b, r = a % b; divcheck(a, b, q, r); }
    else { P5 t, q, r; if (how == 1) P5::quot_rem_long(t, a, b); else P5::quot_rem_hensel(t, a, b); int l1 = a.deg(), l2 = b.deg(); for (int i = 0; i < l2; i++) r[i] = t.at(i); for (int i = l2; i <= l1; i++) q[i - l2] = t.at(i); divcheck(a, b, q, r); }
}
//@ F01 poly_div_alias t=60 q:N=4 Q:N=5 -- in-place division and remainder
ENTRY poly_div_alias() { int N = (int)sv_param("N", 4), n1 = 1 + (int)sv_choose("n1", N), n2 = 1 + (int)sv_choose("n2", 2); P5 a = pf(n1, "a"), b = pf(n2, "b"); bool nz = false; for (auto& x : b.c) nz |= x.v != 0; sv_assume(nz); P5 q = a, r = a; q /= b; r %= b; divcheck(a, b, q, r); }
//@ F01 poly_inverse t=110 q:N=3 q:L=5 Q:N=4 Q:L=7 -- power series inverse to L terms over a field
ENTRY poly_inverse() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N), L = 1 + (int)sv_choose("L", sv_param("L", 5)); P5 a = pf(n, "a"); P5 r = a.inverse(L); if (a.at(0).v == 0) { CHECK(r.deg() == 0 && r.at(0).v == 0, "no inverse when the constant term is zero"); return; }
    std::vector<F5> e = conv(a.c, r.c); for (int i = 0; i < L; i++) CHECK(at(e, i) == F5(i == 0), "p * inverse = 1 up to the requested order");
}
//@ F01 poly_eval t=60 q:N=5 Q:N=8 -- evaluation and composition-like evaluation, derivative, integral
ENTRY poly_eval() {
    int N = (int)sv_param("N", 5), n = (int)sv_choose("n", N + 1); typedef Fp<7> F7; std::vector<F7> c; for (int i = 0; i < n; i++) c.push_back(F7::sym("c")); polynom<F7> p(c); F7 x = F7::sym("x"), e(0), w(1); for (int i = 0; i < n; i++) { e = e + c[i] * w; w = w * x; }
    CHECK(p(x) == e && p.eval(x) == e, "value at a point"); polynom<F7> d = p.derivative(); for (int i = 0; i < N + 1; i++) CHECK(d.at(i) == at(c, i + 1) * F7(i + 1), "derivative coefficient");
    F7 c0 = F7::sym("c0"); polynom<F7> s = p.integral(c0), s0 = p.integral(); CHECK(s.at(0) == c0 && s0.at(0).v == 0, "integration constant"); for (int i = 1; i <= N + 1; i++) CHECK(s.at(i) * F7(i) == at(c, i - 1) && s0.at(i) == s.at(i), "integral coefficient");
}
//@ F01 poly_mul_big t=100 T=400 q:D=2 Q:D=12 -- the default algorithm around its switch-over size, every coefficient of the product
ENTRY poly_mul_big() {
    int D = (int)sv_param("D", 2), l1 = 47 + (int)sv_choose("l1", D + 1), l2 = 47 + (int)sv_choose("l2", D + 1); V32 a = sym32(l1, "a"), b = sym32(l2, "b"); V32 e = conv(a, b); int cut = (int)sv_choose("cut", 2) ? 25 : 0; int lr = l1 + l2 - cut; V32 r(lr + 2, W32(77));
    polynom<W32>::_mul(r.data(), lr, a.data(), l1, b.data(), l2); for (int i = 0; i <= lr; i++) CHECK(r[i] == e[i], "coefficient of a large product"); CHECK(r[lr + 1].v == 77, "nothing is written behind the requested degree");
}
//@ F01 poly_div_big t=100 S=2 Q:S=3 -- the default division around its switch-over to the Hensel form: long divisors, S quotient coefficients and one more are symbolic
ENTRY poly_div_big() {
    static const int sz[][2] = {{220, 200}, {230, 195}, {220, 190}, {100, 90}, {240, 239}}; int k = (int)sv_choose("size", 5), l1 = sz[k][0], l2 = sz[k][1], lq = l1 - l2, S = (int)sv_param("S", 2); std::vector<G3> a, b; uint32_t g = 12345; auto nx = [&]() { g = g * 1664525u + 1013904223u; return (int)((g >> 24) % 3); };
    for (int i = 0; i <= l1; i++) a.push_back(G3(i == 0 || i == l1 ? 1 : nx())); for (int i = 0; i < l2; i++) b.push_back(G3(i % 3 ? nx() : 0)); b.push_back(G3(1 + (int)sv_choose("lead", 2))); for (int i = 0; i < S; i++) a[l2 + (lq * i) / (S + 1)] = G3::sym("a"); a[l2 / 2] = G3::sym("r");
    polynom<G3> p(a), d(b), q, r; switch (sv_choose("how", 3)) { case 0: q = p / d; r = p % d; break; case 1: q = p; q /= d; r = p; r %= d; break; default: { polynom<G3> t; polynom<G3>::quot_rem(t, p, d); for (int i = 0; i < l2; i++) r[i] = t.at(i); for (int i = l2; i <= l1; i++) q[i - l2] = t.at(i); } }
    std::vector<G3> e = conv(q.c, b); CHECK((int)r.c.size() <= l2 || r.deg() < l2, "degree of the remainder"); bool ok = true; for (size_t i = 0; i < std::max(e.size(), a.size()); i++) { G3 s = at(e, (int)i) + at(r.c, (int)i); CHECK(s == at(a, (int)i), "p1 = q p2 + r"); }
}
