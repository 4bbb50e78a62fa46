// Nimbers
#include "field.h"
#include "altruct/structure/math/nimber.h"
using namespace altruct::math;
// Reference product of two nimbers by the definition through Fermat powers F = 2^(2^k): F*F = F ^ F/2 and F*x = F x for x < F
static uint64_t ref_mul(uint64_t a, uint64_t b, int k) {
    if (k == 0) return a & b; int h = 1 << (k - 1); uint64_t m = (1ull << h) - 1, ah = a >> h, al = a & m, bh = b >> h, bl = b & m, hh = ref_mul(ah, bh, k - 1);
    return (hh ^ ref_mul(ah, bl, k - 1) ^ ref_mul(al, bh, k - 1)) << h ^ ref_mul(al, bl, k - 1) ^ ref_mul(hh, 1ull << (h - 1), k - 1);
}
static int log2b(int B) { return B == 8 ? 3 : B == 16 ? 4 : B == 32 ? 5 : 6; }
template<typename I> static void table(int B) {
    typedef nimber<I> N; typedef typename std::make_unsigned<I>::type U; int i = (int)sv_choose("i", B), k = log2b(B); for (int j = 0; j < B; j++) { U r = (U)ref_mul(1ull << i, 1ull << j, k);
    CHECK(N::mul_pow2(i, j) == r, "product of two powers of 2"); CHECK(N::mul_pow2(j, i) == r, "same in the other order and from the table"); CHECK(N::mul_pow2_impl(i, j) == r, "without the table"); CHECK(N::pow2(i) == U(1) << i && N::pow2(B) == 0, "pow2"); }
}
//@ G03 nim_table t=60 q:B=8 Q:B=8 -- products of powers of two obey the Fermat power rules
//@ G03 nim_table t=60 q:B=16 Q:B=16
//@ G03 nim_table t=60 q:B=32 Q:B=32
//@ G03 nim_table t=60 q:B=64 Q:B=64
ENTRY nim_table() { int B = (int)sv_param("B", 8); switch (B) { case 8: table<uint8_t>(8); break; case 16: table<uint16_t>(16); break; case 32: table<int32_t>(32); break; default: table<uint64_t>(64); } }
template<typename I> static void linear(int B) {
    typedef nimber<I> N; typedef typename std::make_unsigned<I>::type U; int k = log2b(B), j = (int)sv_choose("j", B), A = (int)sv_param("A", 8); U a = (U)SU("a", 0, (1ull << A) - 1), e = 0; U b = U(1) << j; sv_automerge(1);
    for (int i = 0; i < A; i++) e ^= (U)(U(0) - (a >> i & 1)) & (U)ref_mul(1ull << i, 1ull << j, k);
    U r = N::mul(a, b), s = N::mul(b, a); sv_automerge(0); CHECK(r == e, "product is linear in the left factor"); CHECK(s == e, "product is linear in the right factor");
}
//@ G03 nim_linear t=100 B=8 A=8 -- a general number times a power of two, either way round
//@ G03 nim_linear t=100 B=16 A=16
//@ G03 nim_linear t=100 T=800 B=32 q:A=12 Q:A=22
//@ G03 nim_linear t=100 T=800 B=64 q:A=8 Q:A=16
ENTRY nim_linear() { int B = (int)sv_param("B", 8); switch (B) { case 8: linear<uint8_t>(8); break; case 16: linear<uint16_t>(16); break; case 32: linear<uint32_t>(32); break; default: linear<uint64_t>(64); } }
template<typename I> static void bilinear(int B) {
    typedef nimber<I> N; typedef typename std::make_unsigned<I>::type U; U a = (U)SU("a", 0, (1ull << B) - 1), b = (U)(SU("b", 0, 15) | sv_choose("bhigh", 1ull << (B - 4)) << 4), e = 0; int k = log2b(B); sv_automerge(1);
    for (int i = 0; i < B; i++) for (int j = 0; j < B; j++) e ^= (U)(U(0) - (a >> i & b >> j & 1)) & (U)ref_mul(1ull << i, 1ull << j, k);
    U r = (N(a) * N(b)).v; sv_automerge(0); CHECK(r == e, "product of any two nimbers");
}
//@ G03 nim_mul t=100 B=8 -- product of any two nimbers
ENTRY nim_mul() { bilinear<uint8_t>(8); }
template<typename I> static void ops(int B) {
    typedef nimber<I> N; typedef typename std::make_unsigned<I>::type U; U m = (U)~U(0), a = (U)SU("a", 0, m), b = (U)SU("b", 0, m); N x(a), y(b), z; CHECK((x + y).v == (U)(a ^ b) && (x - y).v == (U)(a ^ b) && (-x).v == a, "sum, difference, negation"); z = x; z += y; CHECK(z.v == (U)(a ^ b), "+="); z = x; z -= y; CHECK(z.v == (U)(a ^ b), "-="); z = x; z += z; CHECK(z.v == 0, "+= self"); z %= y; CHECK(z.v == 0 && (x % y).v == 0, "no remainder");
    CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparisons"); CHECK(identityOf(x).v == 1 && zeroOf(x).v == 0, "identity and zero");
    int k = (int)sv_choose("k", log2b(B)); U h = U(1) << (1 << k); CHECK(x.low(k).v == a % h && x.high(k).v == a / h, "low and high part"); CHECK(N::join(x.high(k), x.low(k), k) == x, "parts join again");
    int l = x.level(); l = (int)sv_concretize(l); CHECK(l <= log2b(B), "level"); for (int i = 0; i < log2b(B); i++) CHECK((a >= (U(1) << (1 << i))) == (l > i), "level counts the Fermat powers not above the number");
}
//@ G03 nim_ops t=60 -- addition, order, parts and level for 8..64 bits
ENTRY nim_ops() { switch (sv_choose("type", 4)) { case 0: ops<uint8_t>(8); break; case 1: ops<int16_t>(16); break; case 2: ops<uint32_t>(32); break; default: ops<uint64_t>(64); } }
template<typename I> static void fld(int B) {
    typedef nimber<I> N; typedef typename std::make_unsigned<I>::type U; U a = (U)SU("a", 1, (1ull << B) - 1), b = (U)SU("b", 0, (1ull << B) - 1); switch (sv_choose("op", 4)) {
    case 0: { N i = N(a).inverse(); sv_automerge(1); N p = N(a) * i; sv_automerge(0); CHECK(p.v == 1, "a * a.inverse() = 1"); N t(a); t /= t; CHECK(t.v == 1, "/= self"); break; }
    case 1: { N s = N(b).sqrt(); sv_automerge(1); N p = s * s; sv_automerge(0); CHECK(p.v == b, "square of the square root"); break; }
    case 2: { for (int k = 0; (1 << k) <= B; k++) { U c = (1 << k) < 8 * (int)sizeof(U) ? b & ((U(1) << (1 << k)) - 1) : b; N p = N::lift(N(c), k); sv_automerge(1); N q = N(c) * N(U(1) << ((1 << k) - 1)); sv_automerge(0); CHECK(p == q, "lift multiplies by half the Fermat power"); } break; }
    default: { a &= 15; b &= 15; N p = N::mul2(N(a), N(b)); sv_automerge(1); N q = N(a) * N(b); sv_automerge(0); CHECK(p == q, "mul2 equals mul"); } }
}
//@ G03 nim_field t=110 q:B=8 Q:B=8 -- inverse, square root, lift and the fast product
//@ G03 nim_field t=600 tier=thorough B=16
ENTRY nim_field() { switch ((int)sv_param("B", 8)) { case 8: fld<uint8_t>(8); break; default: fld<uint16_t>(16); } }
//@ G03 nim_mul2 t=110 q:B=8 Q:B=64 -- fast product of a power of two and a general number
ENTRY nim_mul2() { int B = (int)sv_param("B", 8); typedef nimber<uint64_t> N; int i = (int)sv_choose("i", B); uint64_t b = SU("b", 0, B == 64 ? ~0ull : (1ull << B) - 1); N p = N::mul2(N(1ull << i), N(b)); sv_automerge(1); N q = N(1ull << i) * N(b); sv_automerge(0); CHECK(p == q, "mul2 equals mul"); }
