// Geometric algebras: Cl(3,0) and plane-based Cl(3,0,1). Oracle: product of basis blades by counting swaps.
#include "field.h"
#include "altruct/algorithm/math/base.h"
// square roots in the field with 5 elements: one of the two, where there is one
namespace altruct { namespace math { template<> inline Fp<5> sqrtT(Fp<5> x, Fp<5>, size_t) { int v = (int)sv_concretize(x.v); sv_assume(v == 0 || v == 1 || v == 4); return Fp<5>(v == 4 ? 3 : v); } } }
static inline bool operator>(Fp<5> a, Fp<5> b) { return b < a; }
#include "altruct/structure/math/clifford3.h"
#include "altruct/structure/math/pga.h"
#include <tuple>
using namespace altruct::math;
template<typename T> struct MV { T c[16]; MV() { for (auto& x : c) x = T(0); } };
static int swaps(int a, int b) { int n = 0; for (a >>= 1; a; a >>= 1) n += __builtin_popcount(a & b); return n & 1; }
enum { GEO, WEDGE, DOT };
template<typename T> static MV<T> mul(const MV<T>& a, const MV<T>& b, int kind = GEO) {
    MV<T> r; for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) { if (i & j & 1) continue; int gi = __builtin_popcount(i), gj = __builtin_popcount(j), g = __builtin_popcount(i ^ j); if (kind == WEDGE && g != gi + gj) continue; if (kind == DOT && g != abs(gi - gj)) continue; T t = a.c[i] * b.c[j]; if (swaps(i, j)) r.c[i ^ j] -= t; else r.c[i ^ j] += t; }
    return r;
}
template<typename T> static MV<T> rev(const MV<T>& a) { MV<T> r; for (int i = 0; i < 16; i++) { int g = __builtin_popcount(i); r.c[i] = (g * (g - 1) / 2 % 2) ? -a.c[i] : a.c[i]; } return r; }
template<typename T> static MV<T> neg(const MV<T>& a) { MV<T> r; for (int i = 0; i < 16; i++) r.c[i] = -a.c[i]; return r; }
template<typename T> static MV<T> conj(const MV<T>& a) { MV<T> r = rev(a); for (int i = 0; i < 16; i++) if (__builtin_popcount(i) & 1) r.c[i] = -r.c[i]; return r; }
template<typename T> static MV<T> add(const MV<T>& a, const MV<T>& b) { MV<T> r; for (int i = 0; i < 16; i++) r.c[i] = a.c[i] + b.c[i]; return r; }
template<typename T> static MV<T> scale(const MV<T>& a, T s) { MV<T> r; for (int i = 0; i < 16; i++) r.c[i] = a.c[i] * s; return r; }
template<typename T> static MV<T> dual(const MV<T>& a) { static const int p[16] = {15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}; MV<T> r; // signs of the named elements e31, e032, e021 relative to ascending order
    auto s = [](int i) { return i == 10 || i == 13 || i == 7; }; for (int i = 0; i < 16; i++) r.c[p[i]] = s(i) != s(p[i]) ? -a.c[i] : a.c[i]; return r; }
template<typename T> static void eq(const MV<T>& a, const MV<T>& b, const char* m) { for (int i = 0; i < 16; i++) CHECK(a.c[i] == b.c[i], m); }
// ---- Cl(3,0): bits e1 = 2, e2 = 4, e3 = 8
template<typename T> static MV<T> ex(const cl3::rotor<T>& r) { MV<T> m; m.c[0] = r.s; m.c[12] = r.yz; m.c[10] = -r.zx; m.c[6] = r.xy; return m; }
template<typename T> static MV<T> ex(const cl3::vector<T>& v) { MV<T> m; m.c[2] = v.x; m.c[4] = v.y; m.c[8] = v.z; m.c[14] = v.w; return m; }
template<typename T> static MV<T> ex(const cl3::multivector<T>& x) { return add(ex(x.r), ex(x.v)); }
template<typename T> static MV<T> ex0(T s) { MV<T> m; m.c[0] = s; return m; }
static W32 W(const char* n) { return w32(n); }
static cl3::rotor<W32> rot(const char* n) { W32 a = W(n), b = W(n), c = W(n), d = W(n); return cl3::rotor<W32>(a, b, c, d); }
static cl3::vector<W32> vec(const char* n) { W32 a = W(n), b = W(n), c = W(n), d = W(n); return cl3::vector<W32>(a, b, c, d); }
//@ G04 cl3_ops t=60 -- every product, sum, difference, conjugate of rotors, vectors and multivectors of Cl(3,0)
ENTRY cl3_ops() {
    typedef cl3::rotor<W32> R; typedef cl3::vector<W32> V; typedef cl3::multivector<W32> M; R r = rot("r"), s = rot("s"); V v = vec("v"), u = vec("u"); M m(r, v), n(s, u); W32 t = W("t"); auto X = [](auto const& a, auto const& b) { return mul(ex(a), ex(b)); }; auto A = [](auto const& a, auto const& b) { return add(ex(a), ex(b)); }; auto D = [](auto const& a, auto const& b) { return add(ex(a), neg(ex(b))); }; auto S = [&](auto const& a) { return scale(ex(a), t); };
    eq(ex(r * s), X(r, s), "rotor * rotor"); eq(ex(v * u), X(v, u), "vector * vector"); eq(ex(v * s), X(v, s), "vector * rotor"); eq(ex(r * u), X(r, u), "rotor * vector"); eq(ex(m * n), X(m, n), "multivector * multivector"); eq(ex(m * s), X(m, s), "multivector * rotor"); eq(ex(m * u), X(m, u), "multivector * vector"); eq(ex(r * n), X(r, n), "rotor * multivector"); eq(ex(v * n), X(v, n), "vector * multivector");
    eq(ex(r + s), A(r, s), "rotor +"); eq(ex(r - s), D(r, s), "rotor -"); eq(ex(v + u), A(v, u), "vector +"); eq(ex(v - u), D(v, u), "vector -"); eq(ex(m + n), A(m, n), "multivector +"); eq(ex(m - n), D(m, n), "multivector -"); eq(ex(r + u), A(r, u), "rotor + vector"); eq(ex(v + s), A(v, s), "vector + rotor"); eq(ex(r - u), D(r, u), "rotor - vector"); eq(ex(v - s), D(v, s), "vector - rotor"); eq(ex(m + s), A(m, s), "multivector + rotor"); eq(ex(m - s), D(m, s), "multivector - rotor"); eq(ex(m + u), A(m, u), "multivector + vector"); eq(ex(m - u), D(m, u), "multivector - vector"); eq(ex(r + n), A(r, n), "rotor + multivector"); eq(ex(r - n), D(r, n), "rotor - multivector"); eq(ex(v + n), A(v, n), "vector + multivector"); eq(ex(v - n), D(v, n), "vector - multivector");
    eq(ex(-r), neg(ex(r)), "-rotor"); eq(ex(-v), neg(ex(v)), "-vector"); eq(ex(-m), neg(ex(m)), "-multivector"); eq(ex(r * t), S(r), "rotor * scalar"); eq(ex(v * t), S(v), "vector * scalar"); eq(ex(m * t), S(m), "multivector * scalar"); eq(ex(t * r), S(r), "scalar * rotor"); eq(ex(t * v), S(v), "scalar * vector"); eq(ex(t * m), S(m), "scalar * multivector");
    eq(ex(r.rev()), rev(ex(r)), "rotor reverse"); eq(ex(v.rev()), rev(ex(v)), "vector reverse"); eq(ex(m.rev()), rev(ex(m)), "multivector reverse"); eq(ex(r.conj()), conj(ex(r)), "rotor conjugate"); eq(ex(v.conj()), conj(ex(v)), "vector conjugate"); eq(ex(m.conj()), conj(ex(m)), "multivector conjugate"); CHECK(r.abs2() == mul(ex(r), rev(ex(r))).c[0] && v.abs2() == mul(ex(v), rev(ex(v))).c[0], "abs2");
    eq(ex(conjugateT<R>::of(r)), conj(ex(r)), "conjugateT"); eq(ex(conjugateT<V>::of(v)), conj(ex(v)), "conjugateT"); eq(ex(conjugateT<M>::of(m)), conj(ex(m)), "conjugateT"); eq(ex(identityOf(r)), ex0(W32(1)), "identity rotor"); eq(ex(identityOf(m)), ex0(W32(1)), "identity multivector"); eq(ex(zeroOf(r)), ex0(W32(0)), "zero rotor"); eq(ex(zeroOf(v)), ex0(W32(0)), "zero vector"); eq(ex(zeroOf(m)), ex0(W32(0)), "zero multivector");
    eq(ex(v.reflect(u)), neg(mul(mul(ex(u), ex(v)), rev(ex(u)))), "reflect"); eq(ex(v.rotate(s)), mul(mul(ex(s), ex(v)), rev(ex(s))), "rotate");
}
//@ G04 cl3_self t=60 -- in-place forms, also when the argument is part of the object itself
ENTRY cl3_self() {
    typedef cl3::rotor<W32> R; typedef cl3::vector<W32> V; typedef cl3::multivector<W32> M; R r = rot("r"), s = rot("s"); V v = vec("v"), u = vec("u"); M m(r, v), n(s, u); W32 t = W("t"); auto X = [](auto const& a, auto const& b) { return mul(ex(a), ex(b)); };
    { R z = r; z += s; eq(ex(z), add(ex(r), ex(s)), "rotor +="); z = r; z -= s; eq(ex(z), ex(r - s), "rotor -="); z = r; z *= s; eq(ex(z), X(r, s), "rotor *="); z = r; z *= z; eq(ex(z), X(r, r), "rotor *= self"); z = r; z += z; eq(ex(z), add(ex(r), ex(r)), "rotor += self"); z = r; z -= z; eq(ex(z), ex0(W32(0)), "rotor -= self"); z = r; z *= t; eq(ex(z), scale(ex(r), t), "rotor *= scalar"); z = r; z *= z.yz; eq(ex(z), scale(ex(r), r.yz), "rotor *= own part"); }
    { V z = v; z += u; eq(ex(z), add(ex(v), ex(u)), "vector +="); z = v; z -= u; eq(ex(z), ex(v - u), "vector -="); z = v; z *= s; eq(ex(z), X(v, s), "vector *= rotor"); z = v; z += z; eq(ex(z), add(ex(v), ex(v)), "vector += self"); z = v; z -= z; eq(ex(z), ex0(W32(0)), "vector -= self"); z = v; z *= t; eq(ex(z), scale(ex(v), t), "vector *= scalar"); z = v; z *= z.y; eq(ex(z), scale(ex(v), v.y), "vector *= own part"); }
    { M z = m; z += n; eq(ex(z), add(ex(m), ex(n)), "mv +="); z = m; z -= n; eq(ex(z), ex(m - n), "mv -="); z = m; z += s; eq(ex(z), add(ex(m), ex(s)), "mv += rotor"); z = m; z -= s; eq(ex(z), ex(m - s), "mv -= rotor"); z = m; z += u; eq(ex(z), add(ex(m), ex(u)), "mv += vector"); z = m; z -= u; eq(ex(z), ex(m - u), "mv -= vector"); z = m; z *= n; eq(ex(z), X(m, n), "mv *= mv"); z = m; z *= s; eq(ex(z), X(m, s), "mv *= rotor"); z = m; z *= u; eq(ex(z), X(m, u), "mv *= vector"); z = m; z *= t; eq(ex(z), scale(ex(m), t), "mv *= scalar");
      z = m; z *= z; eq(ex(z), X(m, m), "mv *= self"); z = m; z *= z.r; eq(ex(z), X(m, r), "mv *= own rotor"); z = m; z *= z.v; eq(ex(z), X(m, v), "mv *= own vector"); z = m; z += z.r; eq(ex(z), add(ex(m), ex(r)), "mv += own rotor"); z = m; z -= z.v; eq(ex(z), ex(r), "mv -= own vector"); z = m; z *= z.r.zx; eq(ex(z), scale(ex(m), r.zx), "mv *= own part"); }
}
// n / d^k for one fixed d: division is only ever by d itself
struct Lz { W32 n; int k; static W32 d; Lz() : n(0), k(0) {} Lz(int x) : n(x), k(0) {} Lz(W32 x, int y = 0) : n(x), k(y) {} W32 up(int q) const { W32 r = n; for (int i = k; i < q; i++) r *= d; return r; }
    Lz operator+(Lz o) const { int q = k > o.k ? k : o.k; return Lz(up(q) + o.up(q), q); } Lz operator-(Lz o) const { int q = k > o.k ? k : o.k; return Lz(up(q) - o.up(q), q); } Lz operator-() const { return Lz(-n, k); } Lz operator+() const { return *this; } Lz operator*(Lz o) const { return Lz(n * o.n, k + o.k); } Lz operator/(Lz o) const { CHECK(o.k == 0 && o.n == d, "divides by the norm"); return Lz(n, k + 1); }
    Lz& operator+=(Lz o) { return *this = *this + o; } Lz& operator-=(Lz o) { return *this = *this - o; } Lz& operator*=(Lz o) { return *this = *this * o; } Lz& operator/=(Lz o) { return *this = *this / o; } bool operator==(Lz o) const { int q = k > o.k ? k : o.k; return up(q) == o.up(q); } bool operator!=(Lz o) const { return !(*this == o); } };
W32 Lz::d;
static Lz L(const char* n) { return Lz(w32(n)); }
//@ G04 cl3_inv t=60 -- inverses and quotients of rotors and vectors (any ring in which the norm is invertible)
ENTRY cl3_inv() {
    typedef cl3::rotor<Lz> R; typedef cl3::vector<Lz> V; typedef cl3::multivector<Lz> M; Lz a = L("a"), b = L("b"), c = L("c"), d = L("d"), e = L("e"), f = L("f"), g = L("g"), h = L("h"); R r(a, b, c, d), s(e, f, g, h); V v(a, b, c, d), u(e, f, g, h); Lz::d = s.abs2().n;
    eq(ex(s * s.inv()), ex0(Lz(1)), "rotor inverse"); eq(ex(u * u.inv()), ex0(Lz(1)), "vector inverse"); eq(mul(ex(r / s), ex(s)), ex(r), "rotor / rotor"); eq(mul(ex(v / u), ex(u)), ex(v), "vector / vector"); eq(mul(ex(v / s), ex(s)), ex(v), "vector / rotor"); eq(mul(ex(r / u), ex(u)), ex(r), "rotor / vector"); M m(r, v); eq(mul(ex(m / s), ex(s)), ex(m), "mv / rotor"); eq(mul(ex(m / u), ex(u)), ex(m), "mv / vector"); eq(mul(ex(a / s), ex(s)), ex0(a), "scalar / rotor"); eq(mul(ex(a / u), ex(u)), ex0(a), "scalar / vector");
    { R z = r; z /= s; eq(ex(z), ex(r / s), "rotor /="); z = s; z /= z; eq(ex(z), ex0(Lz(1)), "rotor /= self"); } { V z = v; z /= s; eq(ex(z), ex(v / s), "vector /= rotor"); } { M z = m; z /= s; eq(ex(z), ex(m / s), "mv /= rotor"); z = m; z /= u; eq(ex(z), ex(m / u), "mv /= vector"); z = M(s, v); z /= z.r; eq(ex(z), add(ex0(Lz(1)), ex(v / s)), "mv /= own rotor"); }
}
//@ G04 cl3_minv t=100 T=800 q:K=11 Q:K=1 -- inverses of multivectors over the field with 3 elements
ENTRY cl3_minv() {
    typedef cl3::multivector<G3> M; typedef cl3::rotor<G3> R; typedef cl3::vector<G3> V; G3 c[8]; int K = (int)sv_param("K", 5), q = (int)sv_choose("rotor", (81 + K - 1) / K) * K; int q2 = (int)sv_choose("odd", 9) * 81 + q; for (int i = 0; i < 8; i++, q2 /= 3) c[i] = i < 6 ? G3(q2 % 3) : G3::sym("c"); R r(c[0], c[1], c[2], c[3]); V v(c[4], c[5], c[6], c[7]); M m(r, v); bool rz = r == R(0, 0, 0, 0); if (rz) { sv_assume(v.abs2().v != 0); eq(mul(ex(m), ex(m.inv())), ex0(G3(1)), "inverse of an odd multivector"); }
    else { sv_assume(r.abs2().v != 0); R q = r - v * r.inv() * v; sv_assume(q.abs2().v != 0); M i = m.inv(); eq(mul(ex(m), ex(i)), ex0(G3(1)), "m * m.inv() = 1"); eq(mul(ex(i), ex(m)), ex0(G3(1)), "m.inv() * m = 1"); M z = m; z /= z; eq(ex(z), ex0(G3(1)), "/= self"); }
}
//@ G04 cl3_cmp t=60 -- comparisons are lexicographic
ENTRY cl3_cmp() {
    uint8_t v[8], w[8]; for (int i = 0; i < 8; i++) v[i] = (uint8_t)SU("v", 0, 255), w[i] = (uint8_t)SU("w", 0, 255); uint64_t x = 0, y = 0; int n = 4; bool e, l, g, le, ge, ne; auto rel = [&](auto const& p, auto const& q) { e = p == q; ne = p != q; l = p < q; g = p > q; le = p <= q; ge = p >= q; };
    typedef cl3::rotor<int> R; typedef cl3::vector<int> V; typedef cl3::multivector<int> M; R r(v[0], v[1], v[2], v[3]), s(w[0], w[1], w[2], w[3]); switch (sv_choose("kind", 3)) { case 0: rel(r, s); break; case 1: rel(V(v[0], v[1], v[2], v[3]), V(w[0], w[1], w[2], w[3])); break; default: n = 8; rel(M(r, V(v[4], v[5], v[6], v[7])), M(s, V(w[4], w[5], w[6], w[7]))); }
    for (int i = 0; i < n; i++) x = x << 8 | v[i], y = y << 8 | w[i]; CHECK(e == (x == y) && ne == (x != y), "equality"); CHECK(l == (x < y) && g == (x > y) && le == (x <= y) && ge == (x >= y), "order");
}
// ---- plane-based algebra: bits e0 = 1, e1 = 2, e2 = 4, e3 = 8
using namespace pga;
template<typename T> static MV<T> px(const zero<T>&) { return MV<T>(); }
template<typename T> static MV<T> px(const blade0<T>& b) { MV<T> m; m.c[0] = b.s; return m; }
template<typename T> static MV<T> px(const blade1<T>& b) { MV<T> m; m.c[1] = b.e0; m.c[2] = b.v.x; m.c[4] = b.v.y; m.c[8] = b.v.z; return m; }
template<typename T> static MV<T> px(const blade2E<T>& b) { MV<T> m; m.c[12] = b.biE.x; m.c[10] = -b.biE.y; m.c[6] = b.biE.z; return m; }
template<typename T> static MV<T> px(const blade2e<T>& b) { MV<T> m; m.c[3] = b.bie.x; m.c[5] = b.bie.y; m.c[9] = b.bie.z; return m; }
template<typename T> static MV<T> px(const blade3<T>& b) { MV<T> m; m.c[14] = b.e123; m.c[13] = -b.triP.x; m.c[11] = b.triP.y; m.c[7] = -b.triP.z; return m; }
template<typename T> static MV<T> px(const blade4<T>& b) { MV<T> m; m.c[15] = b.e0123; return m; }
template<typename T> static MV<T> px(const blade02E<T>& b) { return add(px(b.b0), px(b.b2E)); }
template<typename T> static MV<T> px(const blade02e<T>& b) { return add(px(b.b0), px(b.b2e)); }
template<typename T> static MV<T> px(const blade22<T>& b) { return add(px(b.b2E), px(b.b2e)); }
template<typename T> static MV<T> px(const blade2E4<T>& b) { return add(px(b.b2E), px(b.b4)); }
template<typename T> static MV<T> px(const blade2e4<T>& b) { return add(px(b.b2e), px(b.b4)); }
template<typename T> static MV<T> px(const blade024<T>& b) { return add(px(b.b02), px(b.b24)); }
template<typename T> static MV<T> px(const blade13<T>& b) { return add(px(b.b1), px(b.b3)); }
template<typename T> static MV<T> px(const pga::multivector<T>& b) { return add(px(b.b024), px(b.b13)); }
template<typename T> static MV<T> dualp(const MV<T>& a) { return dual(a); }
template<typename T> struct Mk { T s, p, e0, e123; vector3d<T> v, E, e, P; Mk() {} };
template<typename T> static void put(blade0<T>& b, const Mk<T>& k) { b = blade0<T>(k.s); }
template<typename T> static void put(blade1<T>& b, const Mk<T>& k) { b = blade1<T>(k.e0, k.v); }
template<typename T> static void put(blade2E<T>& b, const Mk<T>& k) { b = blade2E<T>(k.E); }
template<typename T> static void put(blade2e<T>& b, const Mk<T>& k) { b = blade2e<T>(k.e); }
template<typename T> static void put(blade3<T>& b, const Mk<T>& k) { b = blade3<T>(k.e123, k.P); }
template<typename T> static void put(blade4<T>& b, const Mk<T>& k) { b = blade4<T>(k.p); }
template<typename T> static void put(blade02E<T>& b, const Mk<T>& k) { put(b.b0, k); put(b.b2E, k); }
template<typename T> static void put(blade02e<T>& b, const Mk<T>& k) { put(b.b0, k); put(b.b2e, k); }
template<typename T> static void put(blade22<T>& b, const Mk<T>& k) { put(b.b2E, k); put(b.b2e, k); }
template<typename T> static void put(blade2E4<T>& b, const Mk<T>& k) { put(b.b2E, k); put(b.b4, k); }
template<typename T> static void put(blade2e4<T>& b, const Mk<T>& k) { put(b.b2e, k); put(b.b4, k); }
template<typename T> static void put(blade024<T>& b, const Mk<T>& k) { put(b.b02, k); put(b.b24, k); }
template<typename T> static void put(blade13<T>& b, const Mk<T>& k) { put(b.b1, k); put(b.b3, k); }
template<typename T> static void put(pga::multivector<T>& b, const Mk<T>& k) { put(b.b024, k); put(b.b13, k); }
static vector3d<W32> V3(const char* n) { W32 a = W(n), b = W(n), c = W(n); return vector3d<W32>(a, b, c); }
static Mk<W32> gen(const char* n) { Mk<W32> k; k.s = W(n); k.p = W(n); k.e0 = W(n); k.e123 = W(n); k.v = V3(n); k.E = V3(n); k.e = V3(n); k.P = V3(n); return k; }
template<typename B, typename T> static B mk(const Mk<T>& k) { B b; put(b, k); return b; }
template<> blade024<W32> mk(const Mk<W32>& k) { blade024<W32> b{blade0<W32>(k.s)}; put(b, k); return b; }
template<> blade024<Lz> mk(const Mk<Lz>& k) { blade024<Lz> b{blade0<Lz>(k.s)}; put(b, k); return b; }
typedef std::tuple<blade0<W32>, blade1<W32>, blade2E<W32>, blade2e<W32>, blade3<W32>, blade4<W32>, blade02E<W32>, blade02e<W32>, blade22<W32>, blade2E4<W32>, blade2e4<W32>, blade024<W32>, blade13<W32>, pga::multivector<W32>> Types; enum { NT = 14 };
template<typename F, size_t... I> static void disp(int i, F f, std::index_sequence<I...>) { int q[] = {((int)I == i ? (f((typename std::tuple_element<I, Types>::type*)0), 0) : 0)...}; (void)q; }
template<typename F> static void with(int i, F f) { disp(i, f, std::make_index_sequence<NT>()); }
template<typename F, size_t... I> static void disp13(int i, F f, std::index_sequence<I...>) { int q[] = {((int)I == i ? (f((typename std::tuple_element<I, Types>::type*)0), 0) : 0)...}; (void)q; }
template<typename F> static void with13(int i, F f) { disp13(i, f, std::make_index_sequence<NT - 1>()); }
//@ G04 pga_sum t=60 -- sums and differences of any two of the 14 element types of the plane-based algebra
ENTRY pga_sum() { Mk<W32> x = gen("x"), y = gen("y"); int i = (int)sv_choose("left", NT), j = (int)sv_choose("right", NT); with(i, [&](auto* pa) { typedef std::remove_reference_t<decltype(*pa)> A; with(j, [&](auto* pb) { typedef std::remove_reference_t<decltype(*pb)> B; A a = mk<A>(x); B b = mk<B>(y); MV<W32> p = px(a), q = px(b); eq(px(a + b), add(p, q), "sum"); eq(px(a - b), add(p, neg(q)), "difference"); }); }); }
//@ G04 pga_mul t=60 -- geometric product of any two types
ENTRY pga_mul() { Mk<W32> x = gen("x"), y = gen("y"); int i = (int)sv_choose("left", NT), j = (int)sv_choose("right", NT); with(i, [&](auto* pa) { typedef std::remove_reference_t<decltype(*pa)> A; with(j, [&](auto* pb) { typedef std::remove_reference_t<decltype(*pb)> B; A a = mk<A>(x); B b = mk<B>(y); eq(px(a * b), mul(px(a), px(b)), "geometric product"); }); }); }
//@ G04 pga_meet t=60 -- outer, inner and regressive products of any two types
ENTRY pga_meet() { Mk<W32> x = gen("x"), y = gen("y"); int i = (int)sv_choose("left", NT), j = (int)sv_choose("right", NT), o = (int)sv_choose("op", 3); with(i, [&](auto* pa) { typedef std::remove_reference_t<decltype(*pa)> A; with(j, [&](auto* pb) { typedef std::remove_reference_t<decltype(*pb)> B; A a = mk<A>(x); B b = mk<B>(y); MV<W32> p = px(a), q = px(b); if (o == 0) eq(px(a ^ b), mul(p, q, WEDGE), "meet"); else if (o == 1) eq(px(a & b), mul(p, q, DOT), "inner product"); else eq(px(a | b), dual(mul(dual(p), dual(q), WEDGE)), "join"); }); }); }
//@ G04 pga_unary t=60 -- reverse, dual, norms, scaling and in-place forms of every type
ENTRY pga_unary() {
    Mk<W32> x = gen("x"), y = gen("y"); W32 t = W("t"); with((int)sv_choose("type", NT), [&](auto* pa) { typedef std::remove_reference_t<decltype(*pa)> A; A a = mk<A>(x), b = mk<A>(y); MV<W32> p = px(a), q = px(b); eq(px(~a), rev(p), "reverse"); eq(px(a.rev()), rev(p), "reverse"); eq(px(!a), dual(p), "dual"); eq(px(-a), neg(p), "negation"); eq(px(+a), p, "plus"); CHECK(a.norm2() == mul(p, rev(p)).c[0], "norm2"); CHECK(a.diff2() == mul(p, p).c[0], "diff2"); CHECK(a.ninf2() == mul(dual(p), rev(dual(p))).c[0], "ninf2"); eq(px(a * t), scale(p, t), "* scalar"); eq(px(t * a), scale(p, t), "scalar *");
        A z = a; z += b; eq(px(z), add(p, q), "+="); z = a; z -= b; eq(px(z), add(p, neg(q)), "-="); z = a; z *= t; eq(px(z), scale(p, t), "*= scalar"); z = a; z += z; eq(px(z), add(p, p), "+= self"); z = a; z -= z; eq(px(z), MV<W32>(), "-= self"); });
    { blade1<W32> z(x.e0, x.v); z *= z.e0; eq(px(z), scale(px(blade1<W32>(x.e0, x.v)), x.e0), "*= own part"); } { blade3<W32> z(x.e123, x.P); z *= z.e123; eq(px(z), scale(px(blade3<W32>(x.e123, x.P)), x.e123), "*= own part"); } { blade0<W32> z(x.s); z *= z.s; CHECK(z.s == x.s * x.s, "*= own part"); } { blade2E<W32> z(x.E); z *= z.biE.x; eq(px(z), scale(px(blade2E<W32>(x.E)), x.E.x), "*= own part"); }
    eq(px(blade1<W32>(x.e0)), px(blade1<W32>(x.e0, vector3d<W32>(W32(0), W32(0), W32(0)))), "from one part"); eq(px(blade1<W32>(x.v)), px(blade1<W32>(W32(0), x.v)), "from one part"); eq(px(blade3<W32>(x.e123)), px(blade3<W32>(x.e123, vector3d<W32>(W32(0), W32(0), W32(0)))), "from one part"); eq(px(blade3<W32>(x.P)), px(blade3<W32>(W32(0), x.P)), "from one part");
}
// versors: the components outside the free ones are determined by orthogonality
template<typename T> static void ortho024(Mk<T>& k, vector3d<T> f, vector3d<T> g) { k.e = f * k.s + (k.E ^ g); k.p = k.E & f; }
template<typename T> static void ortho13(Mk<T>& k, vector3d<T> f, vector3d<T> g) { k.P = f * k.e123 + (k.v ^ g); k.e0 = -(k.v & f); }
//@ G04 pga_sandwich t=100 -- sandwich product of any type with any versor
ENTRY pga_sandwich() {
    Mk<W32> x = gen("x"), y = gen("y"); vector3d<W32> f = V3("f"), g = V3("g"); int i = (int)sv_choose("left", NT), j = (int)sv_choose("right", NT - 1); if (j == 8) y.e = y.E ^ g; if (j == 11) ortho024(y, f, g); if (j == 12) ortho13(y, f, g); bool odd = j == 1 || j == 4 || j == 12;
    with(i, [&](auto* pa) { typedef std::remove_reference_t<decltype(*pa)> A; with13(j, [&](auto* pb) { typedef std::remove_reference_t<decltype(*pb)> B; A a = mk<A>(x); B b = mk<B>(y); MV<W32> p = px(a), q = px(b), r = mul(mul(q, p), rev(q)); eq(px(a % b), odd ? neg(r) : r, "a % b = (-1)^m b a ~b"); }); });
}
static vector3d<Lz> VL(const char* n) { Lz a = L(n), b = L(n), c = L(n); return vector3d<Lz>(a, b, c); }
template<typename B> static void pinv(const Mk<Lz>& k, const char* m) { B b = mk<B>(k); Lz::d = b.norm2().n; eq(px(b * b.inv()), px(blade0<Lz>(Lz(1))), m); eq(px(b.inv() * b), px(blade0<Lz>(Lz(1))), m); B z = b; z *= k.s; z /= Lz(Lz::d); eq(px(z), px(b * k.s / Lz(Lz::d)), "/= scalar"); }
//@ G04 pga_inv t=60 -- inverses (any ring in which the norm is invertible)
ENTRY pga_inv() {
    Mk<Lz> k; k.s = L("s"); k.p = L("p"); k.e0 = L("e0"); k.e123 = L("e123"); k.v = VL("v"); k.E = VL("E"); k.e = VL("e"); k.P = VL("P"); vector3d<Lz> g = VL("g"); switch (sv_choose("type", 10)) { case 0: pinv<blade0<Lz>>(k, "blade0"); break; case 1: pinv<blade1<Lz>>(k, "blade1"); break; case 2: pinv<blade2E<Lz>>(k, "blade2E"); break; case 3: pinv<blade3<Lz>>(k, "blade3"); break; case 4: pinv<blade02E<Lz>>(k, "blade02E"); break; case 5: pinv<blade02e<Lz>>(k, "blade02e"); break; case 6: k.e = k.E ^ g; pinv<blade22<Lz>>(k, "blade22"); break; case 7: pinv<blade2E4<Lz>>(k, "blade2E4"); break; case 8: pinv<blade024<Lz>>(k, "blade024"); break; default: pinv<blade13<Lz>>(k, "blade13"); }
}
//@ G04 pga_geom t=60 -- planes, lines and points: incidence, join, meet and translation
ENTRY pga_geom() {
    typedef vector3d<W32> V; V n = V3("n"), l = V3("l"), P = V3("P"), Q = V3("Q"), R = V3("R"), t = V3("t"); W32 d = W("d"), h = W("h"); auto p = point(P), q = point(Q), r = point(R); eq(px(point(P, W32(1))), px(p), "point"); CHECK(point(P, h).e123 == h, "homogeneous point"); auto pl = plane(n, d);
    CHECK((pl ^ p).e0123 == d - (n & P), "plane meets point exactly when n.P = d"); auto li = line(l, P); eq(px(li ^ p), MV<W32>(), "wedge"); eq(px(li | p), MV<W32>(), "the line contains its point"); { V S = P + l * h; eq(px(li | point(S)), MV<W32>(), "the line contains every P + h l"); } auto jl = p | q; eq(px(jl | p), MV<W32>(), "join of two points contains the first"); eq(px(jl | q), MV<W32>(), "join of two points contains the second"); V D = P - Q; eq(px(jl), px(line(D, P)), "join of two points is the line through them"); auto jp = jl | r; CHECK((jp ^ p).e0123 == W32(0) && (jp ^ q).e0123 == W32(0) && (jp ^ r).e0123 == W32(0), "join of three points contains them all");
    { blade02e<W32> T(blade0<W32>(W32(1)), blade2e<W32>(t)); V S = P + t + t; eq(px(p % T), px(point(S)), "1 + e t moves points by 2t"); V L2 = l; eq(px(li % T), px(line(L2, S)), "and lines"); W32 d2 = d + (n & t) + (n & t); eq(px(pl % T), px(plane(n, d2)), "and planes"); auto m = T * T; V U = t + t; eq(px(m), px(blade02e<W32>(blade0<W32>(W32(1)), blade2e<W32>(U))), "translations add up"); }
}

typedef Fp<5> S5; static S5 s5(const char* n) { return S5::sym(n); }
//@ G04 cl3_unit t=60 -- units, reflectors and the rotor from one vector to another, over the field with 5 elements where the roots exist
ENTRY cl3_unit() {
    typedef cl3::rotor<S5> R; typedef cl3::vector<S5> V; S5 a = s5("a"), b = s5("a"), c = s5("a"), d = s5("a"); switch (sv_choose("part", 3)) {
    case 0: { V v(a, b, c, d); sv_assume(v.abs2() != S5(0)); S5 n = v.abs1(); V u = v.unit(), w = cl3::make_reflector(v); CHECK(n * n == v.abs2(), "abs1 is the root of abs2"); eq(ex(u * n), ex(v), "unit vector"); CHECK(u.abs2() == S5(1), "unit length"); eq(ex(w), ex(u), "reflector"); break; }
    case 1: { R r(a, b, c, d); sv_assume(r.abs2() != S5(0)); S5 n = r.abs1(); R u = r.unit(); CHECK(n * n == r.abs2(), "abs1 is the root of abs2"); eq(ex(u * n), ex(r), "unit rotor"); CHECK(u.abs2() == S5(1), "unit length"); break; }
    default: { b.v = (uint32_t)sv_concretize(b.v); c.v = (uint32_t)sv_concretize(c.v); static const int to[4][3] = {{1, 0, 0}, {0, 0, 3}, {1, 1, 2}, {2, 3, 1}}; const int* z = to[sv_choose("to", 4)]; V f(a, b, c, S5(0)), t(S5(z[0]), S5(z[1]), S5(z[2]), S5(0)); sv_assume(f.abs2() != S5(0) && t.abs2() != S5(0)); V fu = f.unit(), tu = t.unit(); S5 h = S5(1) + fu.x * tu.x + fu.y * tu.y + fu.z * tu.z; sv_assume(h + h != S5(0)); R r = cl3::make_rotor(f, t); CHECK(r.abs2() == S5(1), "unit rotor"); eq(ex(fu.rotate(r)), ex(tu), "the rotor takes one direction to the other"); } }
    sv_reach("cl3_unit");
}
//@ G04 pga_rotor t=60 -- rotor about an axis by an angle given by the cosine and sine of its half: right-handed rotation of every point
ENTRY pga_rotor() {
    typedef vector3d<S5> V; V n(s5("n"), s5("n"), s5("n")), p(s5("p"), s5("p"), s5("p")); S5 c = s5("c"), s = s5("s"); c.v = (uint32_t)sv_concretize(c.v); s.v = (uint32_t)sv_concretize(s.v); sv_assume(c * c + s * s == S5(1) && n.abs2() != S5(0)); V u = n.unit(); S5 l = n.abs1(); CHECK(u.x * l == n.x && u.y * l == n.y && u.z * l == n.z && l * l == n.abs2(), "unit vector");
    auto r = pga::rotor(n, c, s); auto q = pga::point(p) % r; V e = p * (c * c - s * s) + (u ^ p) * (c * s + c * s) + u * ((u & p) * (s * s + s * s)); auto w = pga::point(e); eq(px(q), px(w), "rotated point"); sv_reach("pga_rotor");
}
