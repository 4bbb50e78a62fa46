// Bit manipulation (algorithm/math/bits.h), all functions at full width for every unsigned type.
#include "sv.h"
#include "altruct/algorithm/math/bits.h"
#include "altruct/algorithm/math/intrinsic.h"
using namespace altruct::math;
template<typename I> I sym(const char* n) { return (I)sv_sym_u(n, 0, (uint64_t)(I)~(I)0); }
template<typename I> constexpr int W() { return (int)sizeof(I) * 8; }
template<typename I> int bitAt(I x, int i) { return (int)((uint64_t)x >> i & 1); }

template<typename I> void masks() {
    I x = sym<I>("x"), y = sym<I>("y"), m = sym<I>("m");
    int p = (int)sv_sym_u("p", 0, W<I>() - 1);
    I b = make_bit<I>(p), o = make_ones<I>(p), s = set_bit(x, p), f = flip_bit(x, p), c = clear_bit(x, p), e = erase_bit(x, p), g = get_bit(x, p), mx = mix_bits(x, y, m);
    bool okb = true, oko = true, oks = true, okf = true, okc = true, oke = true, okm = true;
    for (int i = 0; i < W<I>(); i++) {
        okb &= bitAt(b, i) == (i == p); oko &= bitAt(o, i) == (i < p);
        oks &= bitAt(s, i) == (bitAt(x, i) | (i == p)); okf &= bitAt(f, i) == (bitAt(x, i) ^ (i == p)); okc &= bitAt(c, i) == (bitAt(x, i) & (i != p));
        int up = i + 1 < W<I>() ? bitAt(x, i + 1) : 0; oke &= bitAt(e, i) == (i < p ? bitAt(x, i) : up);
        okm &= bitAt(mx, i) == (bitAt(m, i) ? bitAt(y, i) : bitAt(x, i));
    }
    CHECK(okb, "make_bit"); CHECK(oko, "make_ones"); CHECK(oks, "set_bit"); CHECK(okf, "flip_bit"); CHECK(okc, "clear_bit"); CHECK(oke, "erase_bit"); CHECK(okm, "mix_bits");
    CHECK((uint64_t)g == ((uint64_t)x >> p & 1), "get_bit");
}
//@ A03 bits_masks_8 automerge=1 -- make/get/set/flip/clear/erase/mix bit by bit
ENTRY bits_masks_8() { masks<uint8_t>(); }
//@ A03 bits_masks_16 automerge=1
ENTRY bits_masks_16() { masks<uint16_t>(); }
//@ A03 bits_masks_32 automerge=1
ENTRY bits_masks_32() { masks<uint32_t>(); }
//@ A03 bits_masks_64 automerge=1
ENTRY bits_masks_64() { masks<uint64_t>(); }

template<typename I> void counts() {
    I x = sym<I>("x");
    int cnt = 0, hi = -1, lo = W<I>();
    for (int g = 0; g < W<I>(); g += 16) { int c = 0; for (int i = g; i < g + 16 && i < W<I>(); i++) { int b = bitAt(x, i); c += b; hi = sv_ite(b, i, hi); } cnt += c; }
    for (int i = W<I>() - 1; i >= 0; i--) lo = sv_ite(bitAt(x, i), i, lo);
    if (W<I>() <= 16) CHECK(bit_cnt1(x) == cnt, "bit_cnt1 counts the set bits");
    else { int t = 0; for (int g = 0; g < W<I>(); g += 16) t += bit_cnt1((uint16_t)(x >> g)); CHECK(bit_cnt1(x) == t, "bit_cnt1 adds up the counts of the 16-bit parts (each proved bit by bit)"); }
    CHECK(ilog2(x) == (int)sv_ite(x == 0, 0, hi), "ilog2 is the index of the highest set bit (0 for 0)");
    CHECK(ilog2((typename std::make_signed<I>::type)x) == (int)sv_ite(x == 0, 0, hi), "ilog2 of a signed value is that of its bit pattern");
    CHECK(lzc(x) == W<I>() - 1 - hi, "lzc"); CHECK(tzc(x) == lo, "tzc");
    I hb = hi_bit(x), lb = lo_bit(x), od = or_down(x), np = next_pow2(x);
    bool okh = true, okl = true, oko = true;
    for (int i = 0; i < W<I>(); i++) { okh &= bitAt(hb, i) == (i == hi); okl &= bitAt(lb, i) == (i == lo); oko &= bitAt(od, i) == (i <= hi); }
    CHECK(okh, "hi_bit"); CHECK(okl, "lo_bit"); CHECK(oko, "or_down");
    bool one = x == 0 || hi == lo; CHECK(is_pow2(x) == one, "is_pow2"); CHECK(is_not_pow2(x) == !one, "is_not_pow2");
    if (hi < W<I>() - 1) { CHECK(is_pow2(np) && np > x && (np >> 1) <= x, "next_pow2 is the smallest power of two above x"); }
}
//@ A03 bits_counts_8 automerge=1 -- ilog2, popcount, lzc, tzc, hi/lo bit, or_down, pow2 tests against bit-by-bit definitions
ENTRY bits_counts_8() { counts<uint8_t>(); }
//@ A03 bits_counts_16 automerge=1
ENTRY bits_counts_16() { counts<uint16_t>(); }
//@ A03 bits_counts_32 automerge=1 t=120
ENTRY bits_counts_32() { counts<uint32_t>(); }
//@ A03 bits_counts_64 automerge=1 t=200
ENTRY bits_counts_64() { counts<uint64_t>(); }

template<typename I> void codes() {
    I x = sym<I>("x");
    I r = bit_reverse(x), xd = xor_down(x), gb = bin_to_gray(x), y = gray_to_bin(x);
    bool okr = true, okx = true; int acc = 0;
    for (int i = W<I>() - 1; i >= 0; i--) { okr &= bitAt(r, i) == bitAt(x, W<I>() - 1 - i); acc ^= bitAt(x, i); okx &= bitAt(xd, i) == acc; }
    CHECK(okr, "bit_reverse mirrors every bit"); CHECK(okx, "xor_down is the suffix xor");
    CHECK(gray_to_bin(gb) == x && bin_to_gray(y) == x, "gray code conversions are inverse");
    I g1 = bin_to_gray(I(x + 1)); CHECK(is_pow2(I(gb ^ g1)) && gb != g1, "consecutive gray codes differ in exactly one bit");
    CHECK(I(neg(x) + x) == 0, "neg"); 
    const I H = I(I(1) << (W<I>() - 1)); I sm = sign_mag(x);
    CHECK((x & H) ? (x == H || (I(sm & I(~H)) == I(I(0) - x) && (sm & H))) : sm == x, "sign_mag maps two's complement to sign and magnitude");
    CHECK(x == H || sign_mag(sm) == x, "sign_mag is an involution");
}
//@ A03 bits_codes_8 automerge=1 -- reversal, gray code, xor_down, neg, sign_mag
ENTRY bits_codes_8() { codes<uint8_t>(); }
//@ A03 bits_codes_16 automerge=1
ENTRY bits_codes_16() { codes<uint16_t>(); }
//@ A03 bits_codes_32 automerge=1
ENTRY bits_codes_32() { codes<uint32_t>(); }
//@ A03 bits_codes_64 automerge=1 t=120
ENTRY bits_codes_64() { codes<uint64_t>(); }

template<typename I> void nextcomb(int n) {
    I x = (I)sv_sym_u("x", 1, (1u << n) - 1), z = (I)sv_sym_u("z", 0, (1u << n) - 1);
    I y = x; bool r = next_combination(y, n);
    int cx = 0, cy = 0, cz = 0; for (int i = 0; i < n; i++) { cx += bitAt(x, i); cy += bitAt(y, i); cz += bitAt(z, i); }
    CHECK(cx == cy && (uint64_t)y < (1u << n), "next_combination keeps the number of ones");
    if (r) { CHECK(y > x && !(cz == cx && z > x && z < y), "next_combination gives the immediate successor"); }
    else { CHECK(!(cz == cx && z > x) && !(cz == cx && z < y), "next_combination reports the end exactly at the last one and wraps to the first"); }
}
//@ A03 bits_nextcomb_32 N=12 Q:N=20 automerge=1 t=120
ENTRY bits_nextcomb_32() { nextcomb<uint32_t>((int)sv_param("N", 12)); }
//@ A03 bits_nextcomb_16 N=10 Q:N=15 automerge=1 t=120
ENTRY bits_nextcomb_16() { nextcomb<uint16_t>((int)sv_param("N", 10)); }

template<typename I> void addov() { I x = sym<I>("x"), y = sym<I>("y"), r = 0; bool o = add_overflow(x, y, &r); unsigned __int128 t = (unsigned __int128)x + y; CHECK(r == (I)t && o == (t >> W<I>() != 0), "add_overflow returns the wrapped sum and the carry"); }
//@ A03 bits_addov -- add_overflow
ENTRY bits_addov() { addov<uint8_t>(); addov<uint16_t>(); addov<uint32_t>(); addov<uint64_t>(); }
