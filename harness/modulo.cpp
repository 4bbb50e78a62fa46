// Modular arithmetic (structure/math/modulo.h)
#include "sv.h"
#include "altruct/structure/math/modulo.h"
using namespace altruct::math;
typedef unsigned __int128 u128; typedef __int128 i128;
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
template<typename I> struct Lim { static const uint64_t max = std::is_signed<I>::value ? (uint64_t)((1ull << (sizeof(I) * 8 - 1)) - 1) : (uint64_t)(I)~(I)0; };
template<typename I> void addsub() {
    I M = (I)SU("M", 1, Lim<I>::max), x = (I)SU("x", 0, Lim<I>::max), y = (I)SU("y", 0, Lim<I>::max); sv_assume(x < M); sv_assume(y < M);
    u128 m = (u128)M, a = (u128)x, b = (u128)y;
    I s = modulo_add(x, y, M), d = modulo_sub(x, y, M), n = modulo_neg(x, M);
    u128 es = a + b; es = es >= m ? es - m : es; u128 ed = a >= b ? a - b : a + m - b; u128 en = x == 0 ? 0 : m - a;
    CHECK((u128)s == es, "modulo_add"); CHECK((u128)d == ed, "modulo_sub"); CHECK((u128)n == en, "modulo_neg");
    moduloX<I> mx(x, M), my(y, M);
    CHECK((mx + my).v == s && (mx - my).v == d && (-mx).v == n && (mx + my).M() == M, "moduloX operators");
    CHECK((mx == my) == (x == y) && (mx != my) == (x != y) && (mx < my) == (x < y) && (mx > my) == (x > y) && (mx <= my) == (x <= y) && (mx >= my) == (x >= y), "comparisons follow the representative");
}
//@ B01 mod_add_i32 automerge=1 t=60 -- add/sub/neg for every modulus and operand of the type
ENTRY mod_add_i32() { addsub<int32_t>(); }
//@ B01 mod_add_u32 automerge=1 t=60
ENTRY mod_add_u32() { addsub<uint32_t>(); }
//@ B01 mod_add_i64 automerge=1 t=60
ENTRY mod_add_i64() { addsub<int64_t>(); }
//@ B01 mod_add_u64 automerge=1 t=60
ENTRY mod_add_u64() { addsub<uint64_t>(); }
//@ B01 mod_add_i16 automerge=1 t=60
ENTRY mod_add_i16() { addsub<int16_t>(); addsub<uint16_t>(); addsub<int8_t>(); addsub<uint8_t>(); }

// normalisation: any value of S to 0..M-1, congruent. The value is built as q*M+r for small moduli, and checked directly for large ones
template<typename S, typename I> void norm_small(int64_t lo, int64_t hi, unsigned maxM) {
    I M = (I)sv_concretize(SU("M", 1, maxM)); S v = (S)sv_sym_i("v", lo, hi);
    I r = modulo_normalize(v, M);
    CHECK(r >= 0 && (i128)r < (i128)M, "normalized value lies in [0, M)"); CHECK((((i128)v - (i128)r) % (i128)M) == 0, "normalized value is congruent");
}
//@ B01 mod_norm_i8 automerge=1 t=100
ENTRY mod_norm_i8() { norm_small<int8_t, int32_t>(-128, 127, 12); norm_small<int16_t, int16_t>(-32768, 32767, 8); }
//@ B01 mod_norm_i32 automerge=1 t=100
ENTRY mod_norm_i32() { norm_small<int32_t, int32_t>(-2147483647 - 1, 2147483647, 5); }
//@ B01 mod_norm_i32u automerge=1 t=100
ENTRY mod_norm_i32u() { norm_small<int32_t, uint32_t>(-2147483647 - 1, 2147483647, 5); }
//@ B01 mod_norm_i64 automerge=1 t=100
ENTRY mod_norm_i64() { norm_small<int64_t, int32_t>(-(1ll << 32), 1ll << 32, 3); }
//@ B01 mod_norm_i64l automerge=1 t=100
ENTRY mod_norm_i64l() { norm_small<int64_t, int64_t>(INT64_MIN, INT64_MIN + 1000, 7); }
template<typename S, typename I> void norm_big() { // modulus of the order of the value: quotient in -4..3
    I M = (I)SU("M", (Lim<I>::max >> 1) + 1, Lim<I>::max); S v = std::is_signed<S>::value ? (S)sv_sym_i("v", -(int64_t)(Lim<S>::max) - 1, (int64_t)Lim<S>::max) : (S)sv_sym_u("v", 0, Lim<S>::max);
    I r = modulo_normalize(v, M); i128 d = (i128)v - (i128)r, m = (i128)M;
    bool ok = false; for (int k = -4; k <= 4; k++) ok |= d == m * k;
    CHECK(r >= 0 && (i128)r < m && ok, "normalized value is the representative in [0, M)");
}
//@ B01 mod_normbig_i32 automerge=1 t=100
ENTRY mod_normbig_i32() { norm_big<int32_t, int32_t>(); norm_big<uint32_t, int32_t>(); }
//@ B01 mod_normbig_u32 automerge=1 t=100
ENTRY mod_normbig_u32() { norm_big<int32_t, uint32_t>(); norm_big<uint32_t, uint32_t>(); }
//@ B01 mod_normbig_i64 automerge=1 t=100
ENTRY mod_normbig_i64() { norm_big<int64_t, int64_t>(); }

template<typename I> void mul_small(unsigned N) {
    I M = (I)SU("M", 1, N), x = (I)SU("x", 0, N), y = (I)SU("y", 0, N); sv_assume(x < M); sv_assume(y < M);
    uint32_t e = (uint32_t)x * (uint32_t)y; I p = modulo_mul(x, y, M);
    CHECK((uint32_t)p == e % (uint32_t)M, "modulo_mul is the product reduced modulo M");
    CHECK((moduloX<I>(x, M) * moduloX<I>(y, M)).v == p, "operator *");
}
//@ B01 mod_mul_small automerge=1 t=100
ENTRY mod_mul_small() { mul_small<int32_t>(200); mul_small<uint32_t>(200); mul_small<int64_t>(200); mul_small<uint64_t>(200); mul_small<int16_t>(200); mul_small<uint8_t>(200); }
template<typename I> void mul_wide() {
    I M = (I)SU("M", 1, Lim<I>::max), x = (I)SU("x", 0, Lim<I>::max), y = (I)SU("y", 0, Lim<I>::max); sv_assume(x < M); sv_assume(y < M);
    CHECK((uint64_t)modulo_mul(x, y, M) == (uint64_t)x * (uint64_t)y % (uint64_t)M, "32-bit modulo_mul uses the full 64-bit product");
}
//@ B01 mod_mul_wide t=60 -- 32-bit operands of any size: the full product is reduced
ENTRY mod_mul_wide() { mul_wide<uint32_t>(); mul_wide<int32_t>(); mul_wide<uint16_t>(); mul_wide<int16_t>(); }
//@ B01 mod_mul_u64mid t=60 -- 64-bit type, operands below 2^32
ENTRY mod_mul_u64mid() { uint64_t M = SU("M", 1, ~0ull), x = SU("x", 0, 0xffffffffu), y = SU("y", 0, 0xffffffffu); sv_assume(x < M); sv_assume(y < M);
    CHECK(modulo_mul(x, y, M) == x * y % M, "64-bit modulo_mul of 32-bit operands"); }
template<typename I> void mul_long(bool swap) {
    I M = (I)SU("M", (1ull << 33), Lim<I>::max), x = (I)SU("x", (1ull << 32), Lim<I>::max), y = (I)sv_choose("y", 4); sv_assume(x < M);
    I p = swap ? modulo_mul_int_long(x, y, M) : modulo_mul(x, y, M); u128 d = (u128)x * (u128)y - (u128)p; bool ok = false; u128 m = (u128)M, t = 0;
    for (int k = 0; k < 6; k++) { ok |= d == t; t += m; }
    CHECK(p < M && p >= 0 && ok, "64-bit modulo_mul beyond 2^32 does not lose the high part");
}
//@ B01 mod_mul_u64 automerge=1 t=100 -- 64-bit operands above 2^32 (multiplier below 4): nothing is lost to overflow
ENTRY mod_mul_u64() { mul_long<uint64_t>(false); }
//@ B01 mod_mul_i64 automerge=1 t=100
ENTRY mod_mul_i64() { mul_long<int64_t>(false); }
// wide multipliers: against double-and-add built on modulo_add (checked by itself), modulus fixed per path
template<typename I> void mul_mix() { const uint64_t Ms[4] = {(1ull << 33) + 17, (1ull << 40) + 15, (1ull << 62) + 135, (1ull << 63) - 25}, ys[7] = {0xffffffffu, 0xfffffffeu, 0x80000001u, 1ull << 32, (1ull << 32) + 1, (1ull << 33) - 1, (1ull << 31) - 1};
    I M = (I)Ms[sv_choose("M", 4)], y = (I)ys[sv_choose("y", 7)], x = (I)SU("x", 0, Lim<I>::max); sv_assume(x < M); sv_assume(y < M); if (!((uint64_t)y >> 32)) sv_assume(x >= (I)(1ull << 32)); uint64_t r = 0, t = x, m = M; for (uint64_t k = y; k > 0; k >>= 1) { if (k & 1) r = modulo_add(r, t, m); t = modulo_add(t, t, m); } CHECK((uint64_t)modulo_mul(x, y, M) == r, "64-bit modulo_mul with multipliers around 2^32"); }
//@ B01 mod_mul_mix64 automerge=1 t=100 -- 64-bit multiplication with one factor above 2^32 and multipliers around 2^32
ENTRY mod_mul_mix64() { mul_mix<uint64_t>(); }
//@ B01 mod_mul_mixi64 automerge=1 t=100
ENTRY mod_mul_mixi64() { mul_mix<int64_t>(); }
// the double-and-add loop for a full-width multiplier: additions counted in the integers (modulus larger than any partial sum)
//@ B01 mod_mul_long automerge=1 t=60
ENTRY mod_mul_long() { uint64_t x = sv_choose("x", 2) ? 5 : 1, y = SU("y", 0, (1ull << 12)); uint64_t M = SU("M", (1ull << 63), ~0ull); CHECK(modulo_mul_int_long(x, y, M) == x * y, "modulo_mul_int_long below the modulus is the plain product"); }

template<typename I> void inv_small(unsigned N) {
    I M = (I)SU("M", 2, N), v = (I)SU("v", 0, N), d = (I)SU("d", 2, N); sv_assume(v < M);
    I r = modulo_inv(v, M);
    CHECK(r >= 0 && r < M, "inverse is reduced");
    uint32_t p = (uint32_t)r * (uint32_t)v % (uint32_t)M;
    CHECK(p == 1 || r == 0, "inverse times value is one");
    CHECK(!(r == 0) || !((uint32_t)d * (uint32_t)v % (uint32_t)M == 1), "0 is returned only when there is no inverse");
}
//@ B01 mod_inv_i32 t=100 N=30 Q:N=150 -- modular inverse: correct when coprime, 0 otherwise
ENTRY mod_inv_i32() { inv_small<int32_t>(sv_param("N", 40)); }
//@ B01 mod_inv_u32 t=100 N=40 Q:N=150
ENTRY mod_inv_u32() { inv_small<uint32_t>(sv_param("N", 40)); }
//@ B01 mod_inv_i64 t=100 N=20 Q:N=150
ENTRY mod_inv_i64() { inv_small<int64_t>(sv_param("N", 40)); }
//@ B01 mod_inv_u64 t=100 N=16 Q:N=150
ENTRY mod_inv_u64() { inv_small<uint64_t>(sv_param("N", 40)); }
template<typename I> void div_small(unsigned N) {
    I M = (I)sv_concretize(SU("M", 1, N)), x = (I)SU("x", 0, N), y = (I)SU("y", 0, N), z = (I)SU("z", 0, N); sv_assume(x < M); sv_assume(y < M); sv_assume(z < M);
    sv_assume((uint32_t)z * (uint32_t)y % (uint32_t)M == (uint32_t)x); // solvable
    I r = modulo_div(x, y, M);
    CHECK(r >= 0 && r < M && (uint32_t)r * (uint32_t)y % (uint32_t)M == (uint32_t)x, "x/y times y is x whenever a quotient exists");
}
//@ B01 mod_div_i32 t=150 N=10 Q:N=30
ENTRY mod_div_i32() { div_small<int32_t>(sv_param("N", 12)); }
//@ B01 mod_div_u64 t=150 N=7 Q:N=24
ENTRY mod_div_u64() { div_small<uint64_t>(sv_param("N", 10)); }

typedef modulo<int, 7, modulo_storage::CONSTANT> c7; typedef modulo<int64_t, 1, modulo_storage::STATIC> st; typedef modulo<unsigned, 13, modulo_storage::STATIC> s13;
//@ B01 mod_storage automerge=1 t=100 -- CONSTANT, STATIC and INSTANCE storage agree with the free functions
ENTRY mod_storage() {
    int a = SI("a", -40, 40), b = SI("b", -40, 40); int na = ((a % 7) + 7) % 7, nb = ((b % 7) + 7) % 7;
    c7 x(a), y(b); moduloX<int> p(a, 7), q(b, 7); st::M() = 7; st u(a), v(b);
    CHECK(x.v == na && p.v == na && u.v == na, "construction normalizes");
    int s = (na + nb) % 7, d = (na - nb + 7) % 7, m = na * nb % 7;
    CHECK((x + y).v == s && (p + q).v == s && (u + v).v == s, "+"); CHECK((x - y).v == d && (p - q).v == d && (u - v).v == d, "-"); CHECK((x * y).v == m && (p * q).v == m && (u * v).v == m, "*");
    CHECK((-x).v == (7 - na) % 7 && (-p).v == (7 - na) % 7, "unary -");
    c7 w = x; w += y; CHECK(w == x + y, "+="); w -= y; CHECK(w == x, "-="); w *= y; CHECK(w == x * y, "*=");
    if (nb != 0) { w /= y; CHECK(w == x, "/="); CHECK((x / y * y) == x && (p / q * q).v == na && (u / v * v).v == na, "/"); CHECK((y.inv() * y).v == 1 && (q.inv() * q).v == 1, "inv"); }
    CHECK(identityOf(p).v == 1 && identityOf(p).M() == 7 && zeroOf(p).v == 0 && zeroOf(p).M() == 7 && identityOf(x).v == 1 && zeroOf(x).v == 0, "identityOf and zeroOf keep the modulus");
    CHECK(castOf(p, b).v == nb && castOf(p, b).M() == 7 && castOf<c7>(b).v == nb, "castOf");
}
//@ B01 mod_storage13 automerge=1 t=60
ENTRY mod_storage13() { unsigned a = SU("a", 0, ~0u), b = SU("b", 0, ~0u); sv_assume(a < 13); sv_assume(b < 13); s13 x(a), y(b); CHECK((x + y).v == (a + b) % 13 && (x - y).v == (a + 13 - b) % 13 && (x * y).v == a * b % 13, "unsigned STATIC modulus"); }
//@ B01 mod_power t=60 -- modulo_power agrees with repeated multiplication
ENTRY mod_power() {
    int M = (int)sv_concretize(SU("M", 1, 9)), x = SI("x", -9, 9), y = SI("y", 0, 6); int e = 1 % M, nx = ((x % M) + M) % M; for (int i = 0; i < y; i++) e = e * nx % M;
    CHECK(modulo_power(x, y, M) == e, "modulo_power");
    CHECK(modT(x, M) == nx, "modT");
}
