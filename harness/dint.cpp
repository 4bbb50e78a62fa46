// double_int over a wrapped machine integer: two's complement arithmetic of any width against 128-bit integers
#include "sv.h"
#include <stdint.h>
#include <string>
#include "altruct/structure/math/double_int.h"
using namespace altruct::math;
typedef unsigned __int128 u128; typedef __int128 i128;
template<typename U, typename W> struct Intr {
  U adc(U x, U y, int& c) const { CHECK(c == 0 || c == 1, "carry is 0 or 1"); W r = (W)x + y + (W)c; c = (int)((r >> (sizeof(U) * 8)) & 1); return (U)r; }
  U sbb(U x, U y, int& c) const { CHECK(c == 0 || c == 1, "borrow is 0 or 1"); W r = (W)x - y - (W)c; c = (int)((r >> (sizeof(U) * 8)) & 1); return (U)r; }
  U umul(U x, U y, U* hi) const { W r = (W)x * y; *hi = (U)(r >> (sizeof(U) * 8)); return (U)r; } };
typedef prim_int<int8_t, uint8_t, Intr<uint8_t, uint32_t>> P8; typedef prim_int<int16_t, uint16_t, Intr<uint16_t, uint32_t>> P16; typedef prim_int<int32_t, uint32_t, Intr<uint32_t, uint64_t>> P32; typedef prim_int<int64_t, uint64_t, Intr<uint64_t, u128>> P64;
typedef double_int<P8> A16; typedef double_int<A16> A32; typedef double_int<A32> A64; typedef double_int<P16> B32; typedef double_int<B32> B64; typedef double_int<P32> C64; typedef double_int<P64> D128; typedef double_int<C64> C128;
template<typename T> struct Mk; template<typename s, typename u, typename I> struct Mk<prim_int<s, u, I>> { typedef prim_int<s, u, I> P; static P of(u128 v) { P p; p.v = (s)(u)v; return p; } static u128 get(const P& p) { return (u)p.v; } };
template<typename T> struct Mk<double_int<T>> { static double_int<T> of(u128 v) { return double_int<T>(Mk<T>::of(v >> (T::type_bits % 128)), Mk<T>::of(v)); } static u128 get(const double_int<T>& d) { return (Mk<T>::get(d.hi) << (T::type_bits % 128)) | Mk<T>::get(d.lo); } };
template<typename T> u128 mask() { return T::type_bits >= 128 ? ~(u128)0 : (((u128)1 << (T::type_bits % 128)) - 1); }
template<typename T> i128 sgn(u128 v) { int s = 128 - T::type_bits; return (i128)(v << s) >> s; }
template<typename T> u128 symv(const char* n) { u128 v = sv_sym_u(n, 0, T::type_bits >= 64 ? UINT64_MAX : ((uint64_t)1 << (T::type_bits & 63)) - 1); if (T::type_bits > 64) v |= (u128)sv_sym_u(n, 0, UINT64_MAX) << 64; return v; }
template<typename T> void is(const T& d, u128 v, const char* m) { CHECK(Mk<T>::get(d) == (v & mask<T>()), m); }
template<typename T> void add() {
  u128 x = symv<T>("x"), y = symv<T>("y"); T a = Mk<T>::of(x), b = Mk<T>::of(y); i128 sx = sgn<T>(x), sy = sgn<T>(y);
  switch (sv_choose("part", 12)) {
  case 0: is(a, x, "construction"); is(a + b, x + y, "sum"); is(-a, -x, "negation"); is(+a, x, "plus"); break;
  case 1: is(a - b, x - y, "difference"); { T e = a; e.negate(); is(e, -x, "negate"); } break;
  case 2: is(~a, ~x, "complement"); is(a & b, x & y, "and"); is(a | b, x | y, "or"); is(a ^ b, x ^ y, "xor"); { T f = a; f &= b; f |= a; f ^= b; is(f, ((x & y) | x) ^ y, "in place"); } break;
  case 3: { T c = a; c += c; is(c, x + x, "aliased sum"); T d = a; d -= d; is(d, 0, "aliased difference"); break; }
  case 4: { T c = a; T r = ++c; is(c, x + 1, "increment"); is(r, x + 1, "value of ++a"); T d = a; T q = d++; is(d, x + 1, "a++ increments"); is(q, x, "value of a++"); break; }
  case 5: { T e = a; T s = --e; is(e, x - 1, "decrement"); is(s, x - 1, "value of --a"); T f = a; T t = f--; is(f, x - 1, "a-- decrements"); is(t, x, "value of a--"); break; }
  case 6: { int c = (int)sv_choose("carry", 2), k = c; T s = a; s.assign_adc(b, k); u128 m = mask<T>(), w = x + y + c; is(s, w, "sum with carry"); CHECK(k == (T::type_bits >= 128 ? (w < x || (c && w == x)) : (w > m)), "carry out"); break; }
  case 7: { int c = (int)sv_choose("borrow", 2), k = c; T s = a; s.assign_sbb(b, k); is(s, x - y - c, "difference with borrow"); CHECK(k == (c ? x <= y : x < y), "borrow out"); break; }
  case 8: CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality"); CHECK(a.is_negative() == (sx < 0), "sign"); { auto h = a.lo; h.negate(); typedef typename T::half_type H; CHECK(Mk<H>::get(h) == ((-y, -x) & mask<H>()), "negated half"); } CHECK(a.to_uint64() == (uint64_t)x, "to_uint64"); break;
  case 9: CHECK((a < b) == (sx < sy), "<"); CHECK((a > b) == (sx > sy), ">"); CHECK((a <= b) == (sx <= sy), "<="); CHECK((a >= b) == (sx >= sy), ">="); break;
  case 10: CHECK(a.unsigned_lt(b) == (x < y), "unsigned <"); CHECK(a.unsigned_gt(b) == (x > y), "unsigned >"); CHECK(a.unsigned_lte(b) == (x <= y), "unsigned <="); CHECK(a.unsigned_gte(b) == (x >= y), "unsigned >="); break;
  default: { int8_t w = (int8_t)sv_sym_i("w", -128, 127); T i((int)w); is(i, (u128)(i128)w, "from int"); is(a + (int)w, x + (u128)(i128)w, "mixed sum"); typedef typename T::half_type H; T h(Mk<H>::of(y)); is(h, (u128)sgn<H>(y & mask<H>()), "from the half type, sign extended"); is(zeroOf(a), 0, "zero"); is(identityOf(a), 1, "one"); } }
}
//@ G05 dint_add t=60 lo=0 n=2 -- 16 and 32 bits
//@ G05 dint_add t=60 lo=2 n=3 -- 32 and 64 bits
//@ G05 dint_add t=60 lo=5 n=1 -- 64 bits
//@ G05 dint_add t=60 T=300 lo=6 n=1 -- 128 bits
//@ G05 dint_add t=60 T=300 lo=7 n=1 -- 128 bits of 4 words: sums, differences, carries, increments, bitwise, comparisons and conversions for every value of 16 to 128 bits
ENTRY dint_add() { switch ((int)sv_param("lo", 0) + (int)sv_choose("type", (int)sv_param("n", 8))) { case 0: add<A16>(); break; case 1: add<A32>(); break; case 2: add<A64>(); break; case 3: add<B32>(); break; case 4: add<B64>(); break; case 5: add<C64>(); break; case 6: add<D128>(); break; default: add<C128>(); } sv_reach("dint_add"); }
template<typename T> void shifts() {
  int B = T::type_bits; u128 x = symv<T>("x"); T a = Mk<T>::of(x); int k = (int)sv_choose("count", B + 3); is(a << k, k >= B ? 0 : x << k, "shift left"); is(a >> k, (u128)(sgn<T>(x) >> (k >= B ? B - 1 : k)), "shift right extends the sign"); T u = a; u.assign_unsigned_shr(k); is(u, k >= B ? 0 : x >> k, "unsigned shift right"); T b = a; b <<= k; T c = a; c >>= k; CHECK(b == (a << k) && c == (a >> k), "in place");
  int z = 0; { sv_assume(x != 0 || k == 0); if (k < B) { T p = Mk<T>::of(((u128)1 << k) | (x & (((u128)1 << k) - 1))); CHECK(p.leading_zeros_count() == B - 1 - k, "leading zeros"); } else CHECK(Mk<T>::of(0).leading_zeros_count() == B, "leading zeros of 0"); (void)z; }
}
//@ G05 dint_shift t=60 -- shifts by every count and leading zeros
ENTRY dint_shift() { switch (sv_choose("type", 8)) { case 0: shifts<A16>(); break; case 1: shifts<A32>(); break; case 2: shifts<A64>(); break; case 3: shifts<B32>(); break; case 4: shifts<B64>(); break; case 5: shifts<C64>(); break; case 6: shifts<D128>(); break; default: shifts<C128>(); } sv_reach("dint_shift"); }
static const uint64_t bnd[] = {0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFF, 0xFF01, 0x01FF, 0x10000, 0x10001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFF0001, 0x00FFFF00, 0x100000001, 0xFFFFFFFF00000001, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF, 0xF9FF, 0xF9FFF9FF, 0xF9FFFFFF, 0xF9FFFFFFFFFFFFFF};
template<typename T> void mul() {
  int W = (int)sv_param("W", 8), B = T::type_bits; int S = (int)sv_param("S", W), at = (int)sv_choose("at", B / S) * S; if (at && S > W) at += S - W; u128 x = (u128)sv_sym_u("x", 0, (1u << W) - 1) << at; switch (sv_choose("fill", 3)) { case 0: break; case 1: x |= ~(((u128)((1u << W) - 1)) << at); break; default: if (at >= B / 2) x |= mask<typename T::half_type>() & (((u128)1 << at) - 1); else x |= ~mask<typename T::half_type>(); } x &= mask<T>(); u128 y = bnd[sv_choose("y", sizeof(bnd) / sizeof(bnd[0]))]; if (T::type_bits > 64) switch (sv_choose("high", 3)) { case 0: break; case 1: y |= ~(u128)0 << 64; break; default: y |= (u128)0x8000000000000001 << 64; } y &= mask<T>(); if (sv_choose("swap", 2)) std::swap(x, y); T a = Mk<T>::of(x), b = Mk<T>::of(y); is(a * b, x * y, "product"); T c = a; c *= b; is(c, x * y, "in-place product"); is(T::unsigned_mul(a, b), x * y, "unsigned product");
  if (T::type_bits <= 64) { auto f = T::unsigned_mul_full(a, b); u128 p = x * y; is(f.lo, p, "low half of the full product"); is(f.hi, p >> T::type_bits, "high half of the full product"); }
}
//@ G05 dint_mul16 t=60 W=8 Q:W=16 -- products: a window of W bits of one operand is symbolic (the rest 0, 1 or half of each), the other a boundary value
ENTRY dint_mul16() { mul<A16>(); sv_reach("dint_mul16"); }
//@ G05 dint_mul32 t=60 T=300 W=4 Q:W=8 A=0
//@ G05 dint_mul32 t=60 T=300 W=4 S=8 Q:S=4 A=1
ENTRY dint_mul32() { if (sv_param("A", 0)) mul<A32>(); else mul<B32>(); sv_reach("dint_mul32"); }
//@ G05 dint_mul64 t=120 T=300 W=4 S=16 Q:S=8 A=0
//@ G05 dint_mul64 t=120 T=300 W=4 S=32 Q:S=8 A=1
ENTRY dint_mul64() { if (sv_param("A", 0)) mul<B64>(); else mul<C64>(); sv_reach("dint_mul64"); }
//@ G05 dint_mul128 t=60 T=300 W=4 S=32 Q:S=8
ENTRY dint_mul128() { mul<D128>(); sv_reach("dint_mul128"); }
template<typename T> void divs() {
  int W = (int)sv_param("W", 3), B = T::type_bits, S = (int)sv_param("S", W), part = (int)sv_choose("part", 3), at = (int)sv_choose("at", (B + S - 1) / S) * S; u128 ys[80]; int n = 0; for (uint64_t v : bnd) for (int h = 0; h < (B > 64 ? 3 : 1); h++) { u128 y = (v | (h == 0 ? (u128)0 : h == 1 ? ~(u128)0 << 64 : (u128)0x8000000000000001 << 64)) & mask<T>(); bool dup = y == 0 || (n && ((v >> 3) & 1) != 0 && B > 32 && v < 0x10000); for (int i = 0; i < n; i++) dup = dup || ys[i] == y; if (!dup) ys[n++] = y; }
  int Y = (int)sv_param("Y", 1); u128 y = ys[sv_choose("y", (n + Y - 1) / Y) * Y], x = (u128)sv_sym_u("x", 0, (1u << W) - 1) << at; if (sv_choose("fill", 2)) x |= ~(((u128)((1u << W) - 1)) << at); x &= mask<T>(); if (sv_choose("swap", 2)) { std::swap(x, y); if (sv_concretize(y == 0)) return; }
  T a = Mk<T>::of(x), b = Mk<T>::of(y); i128 sx = sgn<T>(x), sy = sgn<T>(y);
  switch (part) {
  case 0: { T r; T q = T::unsigned_div(a, b, &r); u128 uq = Mk<T>::get(q), ur = Mk<T>::get(r); CHECK(ur < y, "unsigned remainder"); CHECK(uq * y + ur == x, "unsigned quotient"); CHECK(uq <= x && (B >= 64 || uq * y <= x), "no wrap"); break; }
  case 1: { bool nx = sv_concretize(sx < 0), ny = sv_concretize(sy < 0); T q = a / b, r = a % b; u128 ax = (nx ? -x : x) & mask<T>(), ay = (ny ? -y : y) & mask<T>(), tq = Mk<T>::get(q), tr = Mk<T>::get(r), nq = (nx != ny ? -tq : tq) & mask<T>(), nr = (nx ? -tr : tr) & mask<T>(); CHECK(nr < ay, "remainder has the sign of the dividend"); CHECK(nq * ay + nr == ax, "quotient truncates towards zero"); break; }
  default: { T c = a; c /= b; CHECK(c == a / b, "in place quotient"); T d = a; d %= b; CHECK(d == a % b, "in place remainder"); } }
}
//@ G05 dint_div16 t=60 T=600 W=2 S=4 Y=2 Q:W=3 Q:S=3 Q:Y=1
//@ G05 dint_div32 t=60 T=600 W=2 S=16 Y=3 Q:S=4 Q:Y=1 k=1
//@ G05 dint_div32 t=60 T=600 W=2 S=16 Y=3 Q:S=4 Q:Y=1 k=2
//@ G05 dint_div64 t=60 T=600 W=1 S=32 Y=7 Q:S=16 Q:Y=2 k=3
//@ G05 dint_div64 t=60 T=600 W=2 S=32 Y=5 Q:S=16 Q:Y=2 k=4
//@ G05 dint_div128 t=120 T=600 W=1 S=64 Y=8 Q:S=32 Q:Y=3 -- quotients and remainders, signed and unsigned: a window of W bits of one operand is symbolic, the other a boundary value
ENTRY dint_div16() { divs<A16>(); sv_reach("dint_div16"); }
ENTRY dint_div32() { if (sv_param("k", 1) == 1) divs<A32>(); else divs<B32>(); sv_reach("dint_div32"); }
ENTRY dint_div64() { if (sv_param("k", 3) == 3) divs<B64>(); else divs<C64>(); sv_reach("dint_div64"); }
ENTRY dint_div128() { divs<D128>(); sv_reach("dint_div128"); }
//@ G05 dint_hex t=60 -- to_string16: the hexadecimal digits of every value
ENTRY dint_hex() { auto dig = [](char c) { return sv_concretize(c >= '0' && c <= '9') ? c - '0' : sv_concretize(c >= 'a' && c <= 'f') ? c - 'a' + 10 : -1; }; switch (sv_choose("type", 2)) { case 0: { u128 x = symv<A16>("x"); std::string s = Mk<A16>::of(x).to_string16(); CHECK(s.size() == 4, "number of digits"); int v = 0; for (char c : s) v = v * 16 + dig(c); CHECK((u128)v == x, "value of the digits"); break; } default: { u128 y = sv_sym_u("y", 0, 0xFFFF); int k = (int)sv_choose("at", 7) * 8; u128 x = y << k; std::string s = Mk<B64>::of(x).to_string16(); CHECK(s.size() == 16, "number of digits"); u128 v = 0; for (char c : s) v = v * 16 + dig(c); CHECK(v == x, "value of the digits"); } } sv_reach("dint_hex"); }
