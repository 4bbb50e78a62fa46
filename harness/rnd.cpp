// random number generators and range mapping
#include "field.h"
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include "altruct/algorithm/random/random.h"
#include "altruct/algorithm/random/xorshift.h"
#include "altruct/algorithm/random/mersenne_twister.h"
using namespace altruct::random;
// ------------------------------------------------------------------ range mapping
template<typename U, typename V> static void i2r(int64_t vlo, int64_t vhi) { U val = (U)SU("val", 0, (uint64_t)(U)~(U)0); V a = (V)sv_sym_i("min", vlo, vhi), b = (V)sv_sym_i("max", vlo, vhi); sv_assume(a <= b); V r = integer_to_range<U, V>(val, a, b); CHECK(r >= a && r <= b, "result inside [min, max]"); }
//@ H03 i2r_8 t=60 -- integer_to_range for 8-bit types, signed and unsigned: result inside [min, max] for all arguments
ENTRY i2r_8() { if (sv_choose("signed", 2)) i2r<uint8_t, int8_t>(-128, 127); else i2r<uint8_t, uint8_t>(0, 255); }
//@ H03 i2r_mix t=80 -- the same when the value is wider or narrower than the range
ENTRY i2r_mix() { switch (sv_choose("types", 3)) { case 0: i2r<uint8_t, int>(-5000, 5000); break; case 1: i2r<uint32_t, int8_t>(-128, 127); break; default: i2r<uint16_t, int16_t>(-32768, 32767); } }
template<typename U, typename V> static void i2rw(V a, V b) { U val = (U)SU("val", 0, (uint64_t)(U)~(U)0); V r = integer_to_range<U, V>(val, a, b); CHECK(r >= a && r <= b, "result inside [min, max]"); }
//@ H03 i2r_wide t=80 -- 32 and 64 bit types, ranges up to the whole type
ENTRY i2r_wide() { switch (sv_choose("case", 10)) { case 0: i2rw<uint64_t, uint64_t>(0, ~0ull); break; case 1: i2rw<uint64_t, uint64_t>(1, ~0ull); break; case 2: i2rw<uint64_t, uint64_t>(10, 1ull << 63); break; case 3: i2rw<uint64_t, int>(-2000000000, 2000000000); break; case 4: i2rw<uint32_t, int>(INT_MIN, INT_MAX); break; case 5: i2rw<uint32_t, int>(INT_MIN, INT_MAX - 1); break; case 6: i2rw<uint64_t, int64_t>(INT64_MIN, INT64_MAX); break; case 7: i2rw<uint64_t, int64_t>(INT64_MIN + 1, INT64_MAX); break; case 8: i2rw<uint32_t, int>(-7, 9); break; default: i2rw<uint32_t, unsigned>(5, 5); } }
//@ H03 i2r_exact t=60 -- every result is min + val mod width
ENTRY i2r_exact() { uint8_t v = (uint8_t)SU("val", 0, 255), a = (uint8_t)SU("min", 0, 255), b = (uint8_t)SU("max", 0, 255); sv_assume(a <= b); int w = b - a + 1; int r = integer_to_range<uint8_t, uint8_t>(v, a, b); CHECK(r == a + v % w, "residue"); int s = (int8_t)(a ^ 128), t = (int8_t)(b ^ 128); int q = integer_to_range<uint8_t, int8_t>(v, (int8_t)s, (int8_t)t); CHECK(w == 256 ? (uint8_t)q == v : q == s + v % w, "signed residue"); }
template<typename U> static void bm(uint64_t top) { U w = (U)SU("width", 0, top); U m = biggest_multiple<U>(w); uint64_t size = (uint64_t)(U)~(U)0 + 1; if (w == 0) { CHECK(m == 0, "whole range"); return; } uint64_t mm = m ? m : size; CHECK(mm % w == 0, "a multiple of the width"); CHECK(mm <= size && size - mm < w, "the biggest one"); }
//@ H03 bm_8 t=60 -- biggest_multiple: a multiple of the width and the biggest not above 2^L (8 and 16 bit, all widths)
ENTRY bm_8() { if (sv_choose("bits", 2)) bm<uint8_t>(255); else bm<uint16_t>(0xffff); }
//@ H03 bm_32 t=100 -- the same for 32 bit and 64 bit at every width up to 2^9 and close to the ends
ENTRY bm_32() { if (sv_choose("bits", 2)) { uint32_t k = (uint32_t)sv_choose("w", 513), w = sv_choose("end", 2) ? 0u - k : k; uint32_t m = biggest_multiple<uint32_t>(w); uint64_t mm = m || !w ? m : 1ull << 32; if (w) CHECK(mm % w == 0 && (1ull << 32) - mm < w, "biggest multiple"); else CHECK(m == 0, "whole range"); } else { uint64_t k = sv_choose("w", 513), w = sv_choose("end", 2) ? 0ull - k : k; uint64_t m = biggest_multiple<uint64_t>(w); if (w) CHECK(m % w == (m ? 0 : (m % w)) && (uint64_t)(0 - m) < w && (m || (w & (w - 1)) == 0), "biggest multiple"); else CHECK(m == 0, "whole range"); } }
//@ H03 uni_8 t=80 -- uniform_next: takes the first draw below the biggest multiple of the width (at most 20 draws) and maps it by residue, hence without bias; any draws, any range
ENTRY uni_8() { uint8_t a = (uint8_t)SU("min", 0, 255), b = (uint8_t)SU("max", 0, 255); sv_assume(a <= b); int w = b - a + 1, lim = 256 / w * w; int n = 0, last = 0; int K = (int)sv_choose("rejected", 3); uint8_t r = uniform_next<uint8_t>([&]() -> uint8_t { uint8_t d = (uint8_t)SU("draw", 0, 255); if (n < K) sv_assume(d >= lim); else sv_assume(d < lim); n++; last = d; return d; }, a, b); CHECK(n == K + 1, "stops at the first acceptable draw"); CHECK(r == a + last % w, "residue of that draw"); }
//@ H03 uni_stop t=60 -- draws that are never acceptable: 20 draws, still inside the range
ENTRY uni_stop() { uint8_t a = (uint8_t)SU("min", 0, 100), w = (uint8_t)SU("width", 1, 155); uint8_t lim = biggest_multiple<uint8_t>(w); sv_assume(lim != 0); int n = 0; uint8_t r = uniform_next<uint8_t>([&]() -> uint8_t { n++; return 255; }, a, (uint8_t)(a + w - 1)); CHECK(n == 20 && r >= a && r <= a + w - 1, "gives up after 20 draws"); }
//@ H03 uni_64 t=80 -- 64-bit ranges (widths 1, 2, 3, 10^9+7, 2^63, 2^63+1, 2^64-1, 2^64), symbolic draws
ENTRY uni_64() { static const uint64_t ws[] = {1, 2, 3, 1000000007, 1ull << 63, (1ull << 63) + 1, ~0ull, 0}; static const uint64_t lim[] = {0, 0, ~0ull, 18446744073709551615ull - 582344007ull, 0, (1ull << 63) + 1, ~0ull, 0}; int i = (int)sv_choose("w", 8); uint64_t w = ws[i], a = w && w < 1ull << 40 ? SU("min", 0, 1ull << 40) : 0, b = a + w - 1; uint64_t L = i == 3 ? 0 - (0 - w) % w : lim[i]; int n = 0, K = (int)sv_choose("rejected", 3); if (L == 0) K = 0; uint64_t last = 0; uint64_t r = uniform_next<uint64_t>([&]() -> uint64_t { uint64_t d = SU("draw", 0, ~0ull); if (L) { if (n < K) sv_assume(d >= L); else sv_assume(d < L); } n++; last = d; return d; }, a, b); CHECK(n == K + 1, "first acceptable draw"); CHECK(r == (w ? a + last % w : last), "residue of that draw"); }
// ------------------------------------------------------------------ xorshift
static uint64_t xs(uint64_t& x) { x ^= x >> 12; x ^= x << 25; x ^= x >> 27; return x * 2685821657736338717ull; }
//@ H03 xs64_seq t=60 -- xorshift_64star: the published sequence from any state
ENTRY xs64_seq() { uint64_t s = SU("state", 0, ~0ull), x = s; xorshift_64star g(s); xorshift_64star h; h.seed(s); bool d = sv_choose("default", 2); if (d) { h = xorshift_64star(); x = 1; } for (int i = 0; i < 4; i++) { uint64_t e = xs(x); CHECK(h.next() == e, "sequence"); if (!d) CHECK(g() == e, "call operator"); } CHECK(xorshift_64star::min() == 0 && xorshift_64star::max() == ~0ull, "bounds"); }
//@ H03 xs64_perm t=80 -- its transition never maps two states to the same output, nor a nonzero state to zero
ENTRY xs64_perm() { uint64_t s = SU("s", 0, ~0ull), t = SU("t", 0, ~0ull); sv_assume(s != t); xorshift_64star g(s), h(t); CHECK(g.next() != h.next(), "different states give different numbers"); xorshift_64star z(s); if (s) CHECK(z.next() != 0, "never gets stuck at zero"); }
//@ H03 xs64_range t=60 -- next(min, max), next_uniform and next_0_1 consume the sequence
ENTRY xs64_range() { uint64_t s = SU("state", 1, ~0ull), x = s; xorshift_64star g(s); uint64_t a = SU("min", 0, 1000); static const uint64_t ws[] = {1, 2, 6, 1024}; uint64_t w = ws[sv_choose("w", 4)]; uint64_t r = g.next(a, a + w - 1); CHECK(r == a + xs(x) % w, "mapped to the range"); if (w != 6) { r = g.next_uniform(a, a + w - 1); CHECK(r == a + xs(x) % w, "no rejection when the width divides 2^64"); } CHECK(g.next() == xs(x), "one number per call"); }
//@ H03 xs1024_seq t=80 -- xorshift_1024star: the published sequence from any 16-word state, around the ring
ENTRY xs1024_seq() { uint64_t s[16], q[16]; for (int i = 0; i < 16; i++) s[i] = q[i] = SU("s", 0, ~0ull); xorshift_1024star g(s); int p = 0; for (int k = 0; k < 34; k++) { uint64_t s0 = q[p], s1 = q[p = (p + 1) & 15]; s1 ^= s1 << 31; s1 ^= s1 >> 11; s0 ^= s0 >> 30; q[p] = s0 ^ s1; CHECK(g.next() == q[p] * 1181783497276652981ull, "sequence"); } for (int i = 0; i < 16; i++) CHECK(s[i] == s[i], "seed untouched"); }
//@ H03 xs1024_seed t=60 -- seeding with one word fills the state from xorshift_64star
ENTRY xs1024_seed() { uint64_t x = SU("state", 1, ~0ull); if (sv_choose("default", 2)) x = 1; uint64_t y = x, s[16]; for (int i = 0; i < 16; i++) s[i] = xs(y); xorshift_1024star a(x), b(s), c; c.seed(x); for (int i = 0; i < 3; i++) { uint64_t v = b(); CHECK(a() == v && c() == v, "same state"); } }
//@ H03 xs1024_perm t=80 -- its transition loses no information: the previous state is recoverable (injective), so a nonzero state never dies
ENTRY xs1024_perm() { uint64_t s[16], t[16]; for (int i = 0; i < 16; i++) { s[i] = i < 2 ? SU("s", 0, ~0ull) : (uint64_t)i; t[i] = i == 1 ? SU("t", 0, ~0ull) : s[i]; } sv_assume(s[1] != t[1]); xorshift_1024star g(s), h(t); CHECK(g.next() != h.next(), "a changed word changes the next number"); }
// ------------------------------------------------------------------ Mersenne twister
static uint32_t temper(uint32_t y) { y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ y >> 18; }
static void regen(uint32_t* x) { for (int k = 0; k < 624; k++) { uint32_t y = (x[k] & 0x80000000u) | (x[(k + 1) % 624] & 0x7fffffffu); x[k] = x[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0); } }
//@ H03 mt_step t=100 -- mtrand from an arbitrary state: regeneration and tempering of any word equal the MT19937 recurrence
ENTRY mt_step() { static uint32_t s[625], x[624]; for (int i = 0; i < 624; i++) s[i] = x[i] = (uint32_t)SU("s", 0, 0xffffffffu); static const int ks[] = {0, 1, 226, 227, 228, 396, 397, 453, 454, 622, 623}; int k = ks[sv_choose("word", 11)]; s[624] = 0; mtrand g(1u); g.load(s); regen(x); for (int i = 0; i < k; i++) g.randInt(); CHECK(g.randInt() == temper(x[k]), "word of the next block"); }
//@ H03 mt_load t=60 -- load / save at any position continue the same sequence
ENTRY mt_load() { static uint32_t s[625], w[625]; for (int i = 0; i < 624; i++) s[i] = (uint32_t)i * 2654435761u; int left = (int)sv_choose("left", 5) * 155; if (sv_choose("full", 2)) left = 624 - left; s[624] = left; for (int i = 0; i < 3 && i < left; i++) s[624 - left + i] = (uint32_t)SU("s", 0, 0xffffffffu); mtrand g(7u); g.load(s); for (int i = 0; i < 2 && i < left; i++) CHECK(g.randInt() == temper(s[624 - left + i]), "next word of the loaded state"); g.save(w); mtrand h(9u); h.load(w); for (int i = 0; i < 3; i++) CHECK(g.randInt() == h.randInt(), "a saved generator continues alike"); }
//@ H03 mt_std t=60 -- single seeds: the same numbers as std::mt19937, over more than one block
ENTRY mt_std() { static const uint32_t seeds[] = {0, 1, 5489, 123456789, 0x80000000u, 0xffffffffu}; uint32_t sd = seeds[sv_choose("seed", 6)]; mtrand g(sd); if (sv_choose("again", 2)) { g.randInt(); g.seed(sd); } std::mt19937 e(sd); static uint32_t a[1300], b[1300]; for (int i = 0; i < 1300; i++) a[i] = g.randInt(), b[i] = e(); int i = SI("i", 0, 1299); CHECK(a[i] == b[i], "MT19937 sequence"); }
//@ H03 mt_copy t=60 -- copies (construction, assignment, self-assignment) continue the same sequence independently, also after the original is gone
ENTRY mt_copy() { static uint32_t s[625]; for (int i = 0; i < 624; i++) s[i] = (uint32_t)i * 2654435761u; int left = 1 + (int)sv_choose("left", 4) * 207; s[624] = left; for (int i = 0; i < 4 && i < left; i++) s[624 - left + i] = (uint32_t)SU("s", 0, 0xffffffffu); mtrand* g = new mtrand(7u); g->load(s); mtrand c(5u); c.randInt(); if (sv_choose("assign", 2)) c = *g; else { mtrand d(*g); c = d; } if (sv_choose("self", 2)) c = *&c; int k = (int)sv_choose("advance", 3); uint32_t w[3], v[3]; for (int i = 0; i < k; i++) g->randInt(); delete g; mtrand h(7u); h.load(s); for (int i = 0; i < 3; i++) w[i] = h.randInt(), v[i] = c.randInt(); for (int i = 0; i < 3; i++) CHECK(v[i] == w[i], "copy continues the sequence on its own"); }
//@ H03 mt_array t=60 -- array seeds: the reference initialisation (init_by_array) for lengths 1 to 5 and 700
ENTRY mt_array() { static uint32_t key[700], x[624]; int L = (int)sv_choose("len", 6) + 1; if (L == 6) L = 700; for (int i = 0; i < L; i++) key[i] = 0x123u + 0x111u * i; x[0] = 19650218u; for (int i = 1; i < 624; i++) x[i] = 1812433253u * (x[i - 1] ^ x[i - 1] >> 30) + i; int i = 1, j = 0; for (int k = L > 624 ? L : 624; k; k--) { x[i] = (x[i] ^ ((x[i - 1] ^ x[i - 1] >> 30) * 1664525u)) + key[j] + j; i++; j++; if (i >= 624) x[0] = x[623], i = 1; if (j >= L) j = 0; } for (int k = 623; k; k--) { x[i] = (x[i] ^ ((x[i - 1] ^ x[i - 1] >> 30) * 1566083941u)) - i; i++; if (i >= 624) x[0] = x[623], i = 1; } x[0] = 0x80000000u; regen(x); mtrand g(key, L); static uint32_t a[624]; for (int k = 0; k < 624; k++) a[k] = g.randInt(), x[k] = temper(x[k]); if (L == 4) CHECK(a[0] == 1067595299u && a[1] == 955945823u && a[2] == 477289528u, "published values"); int q = SI("i", 0, 623); CHECK(a[q] == x[q], "init_by_array sequence"); }
static void at(mtrand& g, uint32_t u, uint32_t v) { static uint32_t s[625]; s[622] = u; s[623] = v; s[624] = 2; g.load(s); }
//@ H03 mt_range t=80 -- randInt(n) never exceeds n and takes the low bits of the first acceptable number
ENTRY mt_range() { static uint32_t s[625]; mtrand g(1u); for (int i = 620; i < 624; i++) s[i] = (uint32_t)SU("s", 0, 0xffffffffu); s[624] = 4; uint32_t n = (uint32_t)SU("n", 0, 0xffffffffu); uint32_t mask = 0; for (int b = 0; b < 32; b++) if (n >> b) mask |= 1u << b; uint32_t d[4]; bool any = false; uint32_t e = 0; for (int i = 3; i >= 0; i--) { d[i] = temper(s[620 + i]) & mask; if (d[i] <= n) any = true, e = d[i]; } sv_assume(any); g.load(s); uint32_t r = g.randInt(n); CHECK(r <= n, "at most n"); CHECK(r == e, "first acceptable number"); }
//@ H03 mt_real t=100 -- rand in [0,1], randExc in [0,1), randDblExc in (0,1), rand53 in [0,1), for every generator word
ENTRY mt_real() { mtrand g(1u); uint32_t u = (uint32_t)SU("u", 0, 0xffffffffu), v = (uint32_t)SU("v", 0, 0xffffffffu); at(g, u, v); double r; switch (sv_choose("fn", 4)) { case 0: r = g.rand(); CHECK(r >= 0 && r <= 1, "[0,1]"); break; case 1: r = g.randExc(); CHECK(r >= 0 && r < 1, "[0,1)"); break; case 2: r = g.randDblExc(); CHECK(r > 0 && r < 1, "(0,1)"); break; default: r = g.rand53(); CHECK(r >= 0 && r < 1, "[0,1)"); } }
//@ H03 d01 t=80 -- integer_to_double_0_1 stays inside [0,1] and reaches both ends
ENTRY d01() { if (sv_choose("bits", 2)) { uint32_t u = (uint32_t)SU("u", 0, 0xffffffffu); double r = integer_to_double_0_1<uint32_t>(u); CHECK(r >= 0 && r <= 1, "[0,1]"); } else { uint64_t u = SU("u", 0, ~0ull); double r = integer_to_double_0_1<uint64_t>(u); CHECK(r >= 0 && r <= 1, "[0,1]"); } CHECK(integer_to_double_0_1<uint64_t>(0) == 0 && integer_to_double_0_1<uint64_t>(~0ull) == 1 && integer_to_double_0_1<uint32_t>(~0u) == 1, "ends"); }
