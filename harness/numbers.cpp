// Number-like structures: quadratic extensions, fractions, point at infinity, Moebius transformations, vectors
#include "field.h"
#include "altruct/structure/math/quadratic.h"
#include "altruct/structure/math/complex.h"
#include "altruct/structure/math/fraction.h"
#include "altruct/structure/math/with_infinity.h"
#include "altruct/structure/math/moebius_tr.h"
#include "altruct/structure/math/vectorNd.h"
#include "altruct/structure/math/vector2d.h"
#include "altruct/structure/math/vector3d.h"
#include "altruct/structure/math/galois_field_2.h"
using namespace altruct::math;
typedef G3 F3; typedef Fp<5> F5; typedef Fp<7> F7;
template<typename Q, typename T> static void quad_ring(T D, Q x, Q y, T s) {
    auto is = [&](const Q& z, T a, T b, const char* m) { CHECK(z.a == a && z.b == b, m); CHECK(z.D() == D, "D is kept"); }; T a = x.a, b = x.b, c = y.a, d = y.b;
    is(x + y, a + c, b + d, "+"); is(x - y, a - c, b - d, "-"); is(-x, -a, -b, "unary -"); is(x * y, a * c + b * d * D, a * d + b * c, "*"); is(x * s, a * s, b * s, "* scalar"); is(x.conjugate(), a, -b, "conjugate"); CHECK(x.norm() == a * a - b * b * D, "norm"); is(conjugateT<Q>::of(x), a, -b, "conjugateT"); is(identityOf(x), T(1), T(0), "identityOf"); is(zeroOf(x), T(0), T(0), "zeroOf"); is(castOf(x, s), s, T(0), "castOf");
    Q z = x; z += y; is(z, a + c, b + d, "+="); z = x; z -= y; is(z, a - c, b - d, "-="); z = x; z *= y; is(z, a * c + b * d * D, a * d + b * c, "*="); z = x; z *= s; is(z, a * s, b * s, "*= scalar"); z = x; z *= z; is(z, a * a + b * b * D, a * b + a * b, "*= self"); z = x; z += z; is(z, a + a, b + b, "+= self"); z = x; z -= z; is(z, T(0), T(0), "-= self"); z = x; z *= z.a; is(z, a * a, b * a, "*= own part"); CHECK((x * y).norm() == x.norm() * y.norm(), "the norm is multiplicative");
}
//@ G02 quad_ops t=60 -- ring operations of a quadratic extension for any D, all three ways of storing D
ENTRY quad_ops() {
    W32 a = w32("a"), b = w32("b"), c = w32("c"), d = w32("d"), s = w32("s"), D = w32("D"); switch (sv_choose("storage", 4)) {
    case 0: quad_ring(D, quadraticX<W32>(a, b, D), quadraticX<W32>(c, d, D), s); { quadraticX<W32> e, f(a), g(a, b); CHECK(e.D() == W32(-1) && f.D() == W32(-1) && g.D() == W32(-1) && e.a == W32(0) && e.b == W32(0) && f.a == a && f.b == W32(0) && g.a == a && g.b == b, "default D is -1"); } break;
    case 1: { typedef quadratic<W32, 7> Q; CHECK(Q::D() == W32(7), "static D starts as the id"); Q::D() = D; quad_ring(D, Q(a, b), Q(c, d), s); break; }
    case 2: { typedef altruct::math::complex<W32> Q; quad_ring(W32(-1), Q(a, b), Q(c, d), s); break; }
    case 3: { typedef quadratic<W32, 5, quadratic_storage::CONSTANT> Q; quad_ring(W32(5), Q(a, b), Q(c, d), s); break; } }
}
//@ G02 quad_field t=90 -- division in Z/3(i), Z/7(i) and Z/5(sqrt 2)
ENTRY quad_field() {
    switch (sv_choose("f", 3)) {
    case 0: { typedef quadratic<F3, -1, quadratic_storage::CONSTANT> Q; Q x(F3::sym("a"), F3::sym("b")), y(F3::sym("c"), F3::sym("d")); sv_assume((y.a.v != 0) | (y.b.v != 0)); Q q = x / y; CHECK(q * y == x, "(x / y) * y = x"); CHECK(x % y == Q(F3(0)), "no remainder in a field"); Q z = y; z /= z; CHECK(z == Q(F3(1)), "/= self"); break; }
    case 1: { typedef quadratic<F7, -1, quadratic_storage::CONSTANT> Q; Q x(F7::sym("a"), F7::sym("b")), y(F7::sym("c"), F7::sym("d")); sv_assume((y.a.v != 0) | (y.b.v != 0)); CHECK((x / y) * y == x, "(x / y) * y = x"); break; }
    case 2: { typedef quadraticX<F5> Q; F5 D(2 + (int)sv_choose("D", 2)); Q x(F5::sym("a"), F5::sym("b"), D), y(F5::sym("c"), F5::sym("d"), D); sv_assume((y.a.v != 0) | (y.b.v != 0)); Q q = x / y; CHECK(q * y == x, "(x / y) * y = x"); CHECK(q.D() == D, "D is kept"); break; } }
}
//@ G02 quad_int t=90 q:R=3 Q:R=6 -- Gaussian integers: quotient and remainder
ENTRY quad_int() {
    int R = (int)sv_param("R", 3); typedef altruct::math::complex<int> Q; int a = SI("a", -3 * R, 3 * R), b = SI("b", -3 * R, 3 * R), c = (int)sv_choose("c", 2 * R + 1) - R, d = (int)sv_choose("d", 2 * R + 1) - R; sv_assume(c || d); if (!c && !d) return; Q x(a, b), y(c, d), q = x / y, r = x % y; int N = c * c + d * d; int p = a * c + b * d, s = b * c - a * d; CHECK(q.a == p / N && q.b == s / N, "quotient is truncated part by part"); CHECK(q * y + r == x, "x = q y + r"); CHECK(r.norm() < 2 * N, "remainder is small");
}
//@ G02 quad_cmp t=60 -- order of quadratic numbers, vectors and Moebius transformations is lexicographic
ENTRY quad_cmp() {
    uint8_t v[4], w[4]; for (int i = 0; i < 4; i++) v[i] = (uint8_t)SU("v", 0, 255), w[i] = (uint8_t)SU("w", 0, 255); int n; uint32_t x = 0, y = 0; bool e, l, g, le, ge, ne; int k = (int)sv_choose("kind", 6);
    auto rel = [&](auto const& p, auto const& q) { e = p == q; ne = p != q; l = p < q; g = p > q; le = p <= q; ge = p >= q; };
    switch (k) { case 0: { typedef quadraticX<int> Q; n = 2; rel(Q(v[0], v[1], 1), Q(w[0], w[1], 1)); break; } case 1: { typedef vectorNd<int, 3> V; n = 3; rel(V(std::array<int, 3>{v[0], v[1], v[2]}), V(std::array<int, 3>{w[0], w[1], w[2]})); break; }
    case 2: { typedef vector2d<int> V; n = 2; rel(V(v[0], v[1]), V(w[0], w[1])); break; } case 3: { typedef vector3d<int> V; n = 3; rel(V(v[0], v[1], v[2]), V(w[0], w[1], w[2])); break; } case 4: { typedef moebius_tr<int> V; n = 4; rel(V(v[0], v[1], v[2], v[3], 1), V(w[0], w[1], w[2], w[3], 1)); break; } default: { typedef galois_field_2<uint8_t> V; n = 1; rel(V(v[0]), V(w[0])); } }
    for (int i = 0; i < n; i++) x = x << 8 | v[i], y = y << 8 | w[i]; CHECK(e == (x == y) && ne == (x != y), "equality"); CHECK(l == (x < y) && g == (x > y) && le == (x <= y) && ge == (x >= y), "order");
}
//@ G02 frac_ops t=110 q:R=3 Q:R=6 -- fractions: every operation yields the exact value in lowest terms with a positive denominator
ENTRY frac_ops() {
    int R = (int)sv_param("R", 3); typedef fraction<int> F; auto g = [&](const char* p, const char* q) { int a = SI(p, -R, R), b = SI(q, -R, R); sv_assume(b != 0); a = (int)sv_concretize(a); b = (int)sv_concretize(b); return F(a, b); };
    auto is = [&](const F& f, int p, int q, const char* m) { CHECK(f.q > 0, "positive denominator"); CHECK(gcd(f.p, f.q) == 1 || gcd(f.p, f.q) == -1, "lowest terms"); CHECK(f.p * q == f.q * p, m); };
    F x = g("a", "b"), y = g("c", "d"); int a = x.p, b = x.q, c = y.p, d = y.q; is(x + y, a * d + c * b, b * d, "+"); is(x - y, a * d - c * b, b * d, "-"); is(x * y, a * c, b * d, "*"); is(-x, -a, b, "unary -"); F z = x; z += y; is(z, a * d + c * b, b * d, "+="); z = x; z -= y; is(z, a * d - c * b, b * d, "-="); z = x; z *= y; is(z, a * c, b * d, "*="); z = x; z += z; is(z, 2 * a, b, "+= self"); z = x; z -= z; is(z, 0, 1, "-= self"); z = x; z *= z; is(z, a * a, b * b, "*= self"); if (c) { is(x / y, a * d, b * c, "/"); z = x; z /= y; is(z, a * d, b * c, "/="); z = y; z /= z; is(z, 1, 1, "/= self"); is(y.reciprocal(), d, c, "reciprocal"); CHECK(x % y == F(0), "no remainder"); z = x; z %= y; CHECK(z == F(0), "%="); }
    int s = a * d - c * b; CHECK((x == y) == (s == 0) && (x != y) == (s != 0) && (x < y) == (s < 0) && (x <= y) == (s <= 0) && (x > y) == (s > 0) && (x >= y) == (s >= 0), "comparisons"); CHECK(identityOf(x) == F(1) && zeroOf(x) == F(0), "identity and zero");
}
//@ G02 frac_sym t=100 q:R=15 Q:R=40 -- a fraction built from any numerator and denominator is the same value in lowest terms
ENTRY frac_sym() { int R = (int)sv_param("R", 15), p = SI("p", -R, R), q = SI("q", -R, R), k = SI("k", 2, R); sv_assume(q != 0); fraction<int> f(p, q); CHECK(f.q > 0 && (int64_t)f.p * q == (int64_t)f.q * p, "same value, positive denominator"); CHECK(!((f.p % k == 0) & (f.q % k == 0)), "no common factor"); }
typedef with_infinity<F5> WI;
//@ G02 inf_ops t=60 -- arithmetic with the point at infinity follows the documented tables
ENTRY inf_ops() {
    auto g = [&](const char* n) { int i = (int)sv_choose("inf", 2); return WI(F5::sym(n), i); }; WI x = g("x"), y = g("y"); bool xi = x.is_inf, yi = y.is_inf; F5 a = x.v, b = y.v; auto fin = [&](const WI& z, F5 v, const char* m) { CHECK(!z.is_inf && z.v == v, m); }; auto inf = [&](const WI& z, const char* m) { CHECK(z.is_inf, m); CHECK(infinityT<WI>::is(z), m); };
    if (!xi && !yi) { fin(x + y, a + b, "finite +"); fin(x - y, a - b, "finite -"); fin(x * y, a * b, "finite *"); if (b.v != 0) { WI q = x / y; CHECK(!q.is_inf && q.v * b == a, "finite /"); } else if (a.v != 0) inf(x / y, "z / 0 = inf"); }
    else { if (!(xi && yi)) { inf(x + y, "inf with +"); inf(x - y, "inf with -"); if (yi) fin(x / y, F5(0), "z / inf = 0"); else inf(x / y, "inf / z = inf"); } else inf(x + y, "inf + inf"); if (!(!xi && a.v == 0) && !(!yi && b.v == 0)) inf(x * y, "inf with *"); }
    WI n = -x; if (xi) inf(n, "- inf = inf"); else fin(n, -a, "finite unary -"); WI r = x.inverse(); if (xi) fin(r, F5(0), "1 / inf"); else if (a.v == 0) inf(r, "1 / 0"); else CHECK(!r.is_inf && r.v * a == F5(1), "1 / z"); fin(identityOf(x), F5(1), "identity"); fin(zeroOf(x), F5(0), "zero"); WI c = conjugateT<WI>::of(x); CHECK(c.is_inf == x.is_inf && c.v == x.v, "conjugate"); fin(castOf(x, 3), F5(3), "cast");
    bool eq = (xi == yi) & (a == b), lt = xi != yi ? xi < yi : a < b; CHECK((x == y) == eq && (x != y) == !eq && (x < y) == lt && (x >= y) == !lt, "comparisons");
}
typedef quadratic<F3, -1, quadratic_storage::CONSTANT> C9; typedef with_infinity<C9> CI; typedef moebius_tr<CI> MT;
static C9 cc(int k) { return C9(F3(k % 3), F3(k / 3 % 3)); }
static C9 c9(const char* n) { F3 a = F3::sym(n); return C9(a, F3::sym(n)); }
static bool same(const CI& x, const CI& y) { return (x.is_inf != 0) == (y.is_inf != 0) && (x.is_inf || x.v == y.v); }
// every invertible transformation up to a common factor, times a factor
static bool mt(const char* n, C9 k, MT& f) { int anti = (int)sv_choose("anti", 2); C9 a, b, c, d; if (sv_choose("lead", 2)) { a = C9(F3(1)); b = cc((int)sv_choose(n, 9)); c = cc((int)sv_choose(n, 9)); d = cc((int)sv_choose(n, sv_param("D", 9)) + 4); } else { a = C9(F3(0)); b = C9(F3(1)); c = cc((int)sv_choose(n, 9)); d = cc((int)sv_choose(n, 9)); } if (a * d - b * c == C9(F3(0))) return false; f = MT(a * k, b * k, c * k, d * k, anti ? -1 : 1); return true; }
static CI pt() { return sv_choose("pole", 2) ? CI(C9(F3(0)), 1) : CI(c9("z")); }
//@ G02 moeb_inv t=110 D=2 Q:D=9 -- Moebius transformations over the Gaussian field with 9 elements, their inverse and normal form, at every point and at infinity
ENTRY moeb_inv() { MT f; if (!mt("f", sv_choose("k", 2) ? C9(F3(1), F3(2)) : C9(F3(1)), f)) return; CI z = pt(); CI w = f(z); CHECK(same(f.inverse()(w), z), "the inverse undoes the transformation"); MT g = f; g.normalize(); CHECK(same(g(z), w), "normalization keeps the transformation"); }
//@ G02 moeb_mul t=110 D=1 Q:D=9 -- the product of two Moebius transformations (plain or conjugating) is their composition, at every point and at infinity
ENTRY moeb_mul() {
    MT f; if (!mt("f", C9(F3(1)), f)) return; C9 i = C9(F3(1), F3(1)), o = C9(F3(0)), e = C9(F3(1)); MT g; switch (sv_choose("kind", 4)) { case 0: g = MT::translation(i); break; case 1: g = MT::scaling(i); break; case 2: g = MT::inversion(CI(e)); break; default: g = sv_choose("flip", 2) ? MT::flip_x(CI(e)) : MT::flip_y(CI(e)); }
    CI z = pt(); MT h = f * g; CHECK(same(h(z), f(g(z))), "composition"); MT k = f; k *= g; CHECK(k == h, "*="); MT q = g * f; CHECK(same(q(z), g(f(z))), "composition the other way round");
}
// formal fractions over Z/2^32 in pairs whose conjugation swaps the parts: generic identities, nothing vanishes unless it is the literal zero
struct Rt { W32 n, d; bool z; Rt(int x = 0) : n(x), d(1), z(x == 0) {} Rt(W32 n, W32 d, bool z) : n(n), d(d), z(z) {} Rt operator+(Rt o) const { return z ? o : o.z ? *this : Rt(n * o.d + o.n * d, d * o.d, false); } Rt operator-() const { return Rt(-n, d, z); } Rt operator-(Rt o) const { return *this + -o; } Rt operator*(Rt o) const { return z ? *this : o.z ? o : Rt(n * o.n, d * o.d, false); } Rt operator/(Rt o) const { return *this * Rt(o.d, o.n, false); } };
struct Sp { Rt x, y; Sp(int v = 0) : x(v), y(v) {} Sp(Rt x, Rt y) : x(x), y(y) {} Sp operator+(Sp o) const { return Sp(x + o.x, y + o.y); } Sp operator-(Sp o) const { return Sp(x - o.x, y - o.y); } Sp operator-() const { return Sp(-x, -y); } Sp operator*(Sp o) const { return Sp(x * o.x, y * o.y); } Sp operator/(Sp o) const { return Sp(x / o.x, y / o.y); } Sp& operator*=(Sp o) { return *this = *this * o; } bool operator==(Sp o) const { return x.z == o.x.z && y.z == o.y.z && (!x.z || !y.z ? x.n * o.x.d == o.x.n * x.d && y.n * o.y.d == o.y.n * y.d : true); } bool operator!=(Sp o) const { return !(x.z && y.z && o.x.z && o.y.z); } static Sp sym(const char* s) { return Sp(Rt(w32(s), W32(1), false), Rt(w32(s), W32(1), false)); } };
namespace altruct { namespace math { template<> struct conjugateT<Sp> { static Sp of(const Sp& v) { return Sp(v.y, v.x); } }; } }
//@ G02 moeb_gen t=60 -- composition, inverse and normal form as identities in all coefficients and the point
ENTRY moeb_gen() {
    typedef moebius_tr<Sp> M; auto g = [&](const char* n) { Sp a = Sp::sym(n), b = Sp::sym(n), c = Sp::sym(n), d = Sp::sym(n); switch (sv_choose("zero", 4)) { case 1: b = Sp(0); break; case 2: c = Sp(0); break; case 3: a = Sp(0); } return M(a, b, c, d, sv_choose("anti", 2) ? -1 : 1); }; M f = g("f"), h = g("g"); Sp z = Sp::sym("z"); CHECK(M(f.a, f.b, f.c, f.d).s == 1 && M(f.a).s == 1 && M(f.a)(z) == f.a * z, "not conjugating unless asked to"); M p = f * h; CHECK(p(z) == f(h(z)), "composition"); CHECK(p.s == f.s * h.s, "conjugating or not"); CHECK(f.inverse()(f(z)) == z && f(f.inverse()(z)) == z, "inverse"); M n = f; n.normalize(); CHECK(n(z) == f(z), "normal form"); M q = f; q *= q; CHECK(q(z) == f(f(z)), "*= self"); M r = f / h; CHECK(r(h(z)) == f(z), "quotient");
}
//@ G02 vec_nd t=60 -- vectors of fixed size: every operation acts component by component, in place on oneself and by own components
ENTRY vec_nd() {
    const int N = 3; typedef vectorNd<W32, N> V; V x, y; for (int i = 0; i < N; i++) CHECK(x[i] == W32(0), "zero vector"); for (int i = 0; i < N; i++) x[i] = w32("x"), y[i] = w32("y"); W32 s = w32("s"); V a = x + y, b = x - y, c = -x, d = x * y, e = x + s, g = x - s, h = x * s, u = x; u *= u; V v = x; int k = (int)sv_choose("k", N); v *= v[k]; V w = x; w += w[k]; V r = x; r -= r[k]; V t(s), q = y; q -= q; CHECK(x.size() == N, "size"); W32 n(0);
    for (int i = 0; i < N; i++) { CHECK(a[i] == x[i] + y[i] && b[i] == x[i] - y[i] && c[i] == -x[i] && d[i] == x[i] * y[i], "vector operations"); CHECK(e[i] == x[i] + s && g[i] == x[i] - s && h[i] == x[i] * s, "scalar operations"); CHECK(u[i] == x[i] * x[i] && q[i] == W32(0), "self operations"); CHECK(v[i] == x[i] * x[k] && w[i] == x[i] + x[k] && r[i] == x[i] - x[k], "by an own component"); CHECK(t[i] == s && identityOf(x)[i] == W32(1) && zeroOf(x)[i] == W32(0), "constant vectors"); n += x[i] * x[i]; } CHECK(x.abs2() == n, "squared length");
    { typedef quadraticX<W32> Q; typedef vectorNd<Q, 2> VQ; W32 D1 = w32("D"), D2 = w32("D"); VQ z(std::array<Q, 2>{Q(w32("c"), w32("c"), D1), Q(w32("c"), w32("c"), D2)}); VQ e0 = zeroOf(z), e1 = identityOf(z), z0 = zeroT<VQ>::of(z); for (int i = 0; i < 2; i++) { W32 D = i ? D2 : D1; CHECK(e0[i].a == W32(0) && e0[i].b == W32(0) && e0[i].D() == D && z0[i].D() == D && e1[i].a == W32(1) && e1[i].b == W32(0) && e1[i].D() == D, "zero and identity keep the parameters of each component"); } }
    typedef vectorNd<int, 2> I; int p0 = SI("p", -100, 100), p1 = SI("p", -100, 100), m = SI("m", 1, 9), m1 = SI("m", 1, 9); I p(std::array<int, 2>{p0, p1}), pm = p % m, pd = p / m, pv = p % I(std::array<int, 2>{m, m1}); CHECK(pm[0] == p0 % m && pm[1] == p1 % m && pd[0] == p0 / m && pd[1] == p1 / m && pv[0] == p0 % m && pv[1] == p1 % m1, "quotients and remainders");
}
//@ G02 vec_2d3d t=60 -- plane and space vectors: products, rotations and their identities
ENTRY vec_2d3d() {
    typedef vector2d<W32> V; typedef vector3d<W32> U; if (sv_choose("dim", 2)) { V a(w32("a"), w32("a")), b(w32("b"), w32("b")), c(w32("c"), w32("c")); W32 t = w32("t"); auto is = [&](V v, W32 x, W32 y, const char* m) { CHECK(v.x == x && v.y == y, m); };
        is(a + b, a.x + b.x, a.y + b.y, "+"); is(a - b, a.x - b.x, a.y - b.y, "-"); is(-a, -a.x, -a.y, "unary -"); is(a * b, a.x * b.x, a.y * b.y, "*"); is(a * t, a.x * t, a.y * t, "* scalar"); CHECK((a & b) == a.x * b.x + a.y * b.y && (a ^ b) == a.x * b.y - a.y * b.x, "dot and cross"); CHECK(a.dot(b, c) == ((b - a) & (c - a)) && a.cross(b, c) == ((b - a) ^ (c - a)), "relative to a point"); CHECK(a.cross(b, c) == (a ^ b) + (b ^ c) + (c ^ a), "area of a triangle"); is(a.rot(b), a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x, "rotation"); is(a.rot(b).irot(b), a.x * b.abs2(), a.y * b.abs2(), "rotating back"); is(a.perp(), -a.y, a.x, "perpendicular"); CHECK((a & a.perp()) == W32(0) && (a ^ a.perp()) == a.abs2(), "perpendicular to the vector"); CHECK((a & b) * (a & b) + (a ^ b) * (a ^ b) == a.abs2() * b.abs2(), "Lagrange identity"); CHECK(a.abs2() == a.x * a.x + a.y * a.y && a.diff2() == a.x * a.x - a.y * a.y, "squares");
        V z = a; z += b; is(z, a.x + b.x, a.y + b.y, "+="); z = a; z -= b; is(z, a.x - b.x, a.y - b.y, "-="); z = a; z *= b; is(z, a.x * b.x, a.y * b.y, "*="); z = a; z *= t; is(z, a.x * t, a.y * t, "*= scalar"); z = a; z *= z.x; is(z, a.x * a.x, a.y * a.x, "*= own part"); z = a; z *= z.y; is(z, a.x * a.y, a.y * a.y, "*= own part"); }
    else { U a(w32("a"), w32("a"), w32("a")), b(w32("b"), w32("b"), w32("b")), c(w32("c"), w32("c"), w32("c")); W32 t = w32("t"); auto is = [&](U v, W32 x, W32 y, W32 z, const char* m) { CHECK(v.x == x && v.y == y && v.z == z, m); }; auto eq = [&](U v, U w, const char* m) { is(v, w.x, w.y, w.z, m); };
        is(a + b, a.x + b.x, a.y + b.y, a.z + b.z, "+"); is(a - b, a.x - b.x, a.y - b.y, a.z - b.z, "-"); is(-a, -a.x, -a.y, -a.z, "unary -"); is(a * b, a.x * b.x, a.y * b.y, a.z * b.z, "*"); is(a * t, a.x * t, a.y * t, a.z * t, "* scalar"); is(t * a, a.x * t, a.y * t, a.z * t, "scalar *"); U x = a ^ b; is(x, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross"); CHECK((a & b) == a.x * b.x + a.y * b.y + a.z * b.z, "dot"); CHECK((x & a) == W32(0) && (x & b) == W32(0), "the cross product is perpendicular to both"); eq(a ^ (b ^ c), b * (a & c) - c * (a & b), "triple product"); eq((a ^ (b ^ c)) + (b ^ (c ^ a)) + (c ^ (a ^ b)), U(), "Jacobi identity"); CHECK(x.abs2() + (a & b) * (a & b) == a.abs2() * b.abs2(), "Lagrange identity"); CHECK(a.dot(b, c) == ((b - a) & (c - a)), "dot at a point"); eq(a.cross(b, c), (b - a) ^ (c - a), "cross at a point");
        U z = a; z += b; eq(z, a + b, "+="); z = a; z -= b; eq(z, a - b, "-="); z = a; z *= b; eq(z, a * b, "*="); z = a; z *= t; eq(z, a * t, "*= scalar"); z = a; z ^= b; eq(z, x, "^="); z = a; z ^= z; eq(z, U(), "^= self"); z = a; z *= z.x; is(z, a.x * a.x, a.y * a.x, a.z * a.x, "*= own part"); z = a; z *= z.y; is(z, a.x * a.y, a.y * a.y, a.z * a.y, "*= own part"); }
    typedef vector2d<int> I; int p = SI("p", -50, 50), q = SI("q", -50, 50), m = SI("m", 1, 9); I d = I(p, q) / m; CHECK(d.x == p / m && d.y == q / m, "division"); I e(6, 6); (void)e; int n = SI("n", 1, 3); I f(n, p); f /= f.x; CHECK(f.x == 1 && f.y == p / n, "/= own part"); CHECK(I(p, q).near(I(p, q)) && I(p, q).near(I(p + 1, q)) == false, "near with no tolerance");
}
//@ G02 vec_abs t=60 -- lengths of integer vectors: the floor of the root of the squared length
ENTRY vec_abs() { int64_t x = SI("x", -40, 40), y = SI("y", -40, 40), z = SI("z", -40, 40); int64_t l; int64_t q; if (sv_choose("dim", 2)) { vector2d<int64_t> v(x, y); l = v.abs1(); q = x * x + y * y; } else { vector3d<int64_t> v(x, y, z); l = v.abs1(); q = x * x + y * y + z * z; } CHECK(l >= 0 && l * l <= q && q < (l + 1) * (l + 1), "length"); sv_reach("vec_abs"); }
//@ G02 gf2_ops t=60 -- bit vectors over GF(2): every bit position is the field with two elements
ENTRY gf2_ops() {
    typedef galois_field_2<uint32_t> G; uint32_t a = (uint32_t)SU("a", 0, 0xffffffffu), b = (uint32_t)SU("b", 0, 0xffffffffu), c = (uint32_t)SU("c", 0, 0xffffffffu); G x(a), y(b), z(c); CHECK((x + y).v == (a ^ b) && (x - y).v == (a ^ b) && (-x).v == a && (x * y).v == (a & b), "bitwise operations"); CHECK(x * (y + z) == x * y + x * z && (x + y) - y == x && x * identityOf(x) == x && x + zeroOf(x) == x, "field laws"); CHECK(((x / y).v & b) == (a & b), "quotient where the divisor is one"); G w = x; w /= y; CHECK(w == x / y, "/="); w = x; w *= w; CHECK(w == x, "squares"); w = x; w += w; CHECK(w == zeroOf(x), "doubling");
}
