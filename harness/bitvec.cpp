// bit_vector against an integer model; 8-bit words make 20-bit vectors span three words
#include "sv.h"
#include "altruct/structure/container/bit_vector.h"
using namespace altruct::container;
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
typedef uint64_t m_t; typedef bit_vector<uint8_t> b8; typedef bit_vector<uint64_t> b64; typedef bit_vector<uint16_t> b16;
static m_t mask(int n) { return n >= 64 ? ~0ull : ((m_t)1 << n) - 1; }
template<typename B> B mk(int n, m_t x) { B b(n); sv_automerge(1); for (int i = 0; i < n; i++) b.set(i, (int)(x >> i & 1)); sv_automerge(0); return b; }
template<typename B> m_t val(const B& b) { m_t r = 0; for (int i = 0; i < (int)b.size(); i++) r |= (m_t)(b.bit_at(i) & 1) << i; return r; }
template<typename B> void clean(const B& b, const char* m) { bool ok = true; for (size_t w = 0; w < b.words.size(); w++) for (int i = 0; i < B::L; i++) if (w * B::L + i >= b.size()) ok = ok && !(b.words[w] >> i & 1); (void)m; CHECK(ok, "bits beyond the size stay zero"); }
template<typename B> void eqv(const B& b, int n, m_t x, const char* msg) { sv_assert_((int)b.size() == n, "size"); sv_assert_(val(b) == (x & mask(n)), msg); clean(b, msg); }
#define SZ 20
//@ D02 bv_basic t=100 automerge=1 -- construction, set/get/flip, proxies, push/pop/resize, to_string for every size to 19
ENTRY bv_basic() {
    int n = (int)sv_choose("n", SZ); m_t x = SU("x", 0, mask(SZ)) & mask(n); b8 b = mk<b8>(n, x); eqv(b, n, x, "set and bit_at"); sv_automerge(1); int v[SZ]; for (int i = 0; i < n; i++) v[i] = (int)(x >> i & 1) + 2; b8 c(v, v + n); eqv(c, n, x, "iterator range constructor");
    CHECK(c == b, "=="); b.push_back(1); eqv(b, n + 1, x | (m_t)1 << n, "push_back(1)"); b.pop_back(); eqv(b, n, x, "pop_back"); b.push_back(0); eqv(b, n + 1, x, "push_back(0)"); b.pop_back();
    int m = (int)sv_choose("m", SZ); b.resize(m); eqv(b, m, x & mask(m < n ? m : n), "resize keeps the prefix and clears the rest"); b.resize(n); eqv(b, n, x & mask(m < n ? m : n), "resize back");
    b = c; if (n) { int p = (int)sv_choose("p", n), o = (int)SU("o", 0, 1); b[p] = o; eqv(b, n, (x & ~((m_t)1 << p)) | (m_t)o << p, "proxy ="); CHECK((int)b[p] == o, "proxy read"); b = c; b[p] ^= o; eqv(b, n, x ^ (m_t)o << p, "proxy ^="); b = c; b[p] |= o; eqv(b, n, x | (m_t)o << p, "proxy |="); b = c; b[p] &= o; eqv(b, n, o ? x : x & ~((m_t)1 << p), "proxy &="); b = c; b.set(p, -1); eqv(b, n, x ^ (m_t)1 << p, "flip"); }
    int bg = n * (int)sv_choose("bg", 3) / 2; std::string s = c.to_string(bg, n); CHECK((int)s.size() == n - bg, "to_string length"); for (int i = bg; i < n; i++) CHECK(s[i - bg] == '0' + (char)(x >> i & 1), "to_string");
}
//@ D02 bv_shift t=100 -- >>= and <<= by any amount up to the word count, bits leaving the vector are lost
ENTRY bv_shift() {
    int n = (int)sv_choose("n", 26); m_t x = SU("x", 0, mask(26)) & mask(n); int c = (int)sv_choose("c", 34); b8 b = mk<b8>(n, x); b >>= c; eqv(b, n, x >> c, ">>="); b8 d = mk<b8>(n, x); d <<= c; eqv(d, n, x << c, "<<="); b8 e = mk<b8>(n, x); eqv(e << c, n, x << c, "<<"); eqv(e >> c, n, x >> c, ">>"); d >>= c; eqv(d, n, ((x << c) & mask(n)) >> c, "<< then >>");
}
//@ D02 bv_logic t=100 -- & | ^ ~ and their assignments, operands of different sizes
ENTRY bv_logic() {
    int n = (int)sv_choose("n", SZ), m = (int)sv_choose("m", SZ); m_t x = SU("x", 0, mask(SZ)) & mask(n), y = SU("y", 0, mask(SZ)) & mask(m); int mx = n > m ? n : m; b8 a = mk<b8>(n, x), b = mk<b8>(m, y);
    eqv(a & b, mx, x & y, "&"); eqv(a | b, mx, x | y, "|"); eqv(a ^ b, mx, x ^ y, "^"); eqv(~a, n, ~x, "~");
}
template<typename A> void cmpT(A x, int n, A y, int m, int r) { CHECK((x < y) == (r < 0) && (x > y) == (r > 0) && (x == y) == (r == 0) && (x != y) == (r != 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0), "lexicographic comparison"); }
//@ D02 bv_compare t=100 -- lexicographic order (position 0 first, prefix smaller)
ENTRY bv_compare() {
    int n = (int)sv_choose("n", 18), m = (int)sv_choose("m", 18); m_t x = SU("x", 0, mask(SZ)) & mask(n), y = SU("y", 0, mask(SZ)) & mask(m); b8 a = mk<b8>(n, x), b = mk<b8>(m, y); int k = n < m ? n : m;
    m_t d = (x ^ y) & mask(k), low = d & (~d + 1); int r = d == 0 ? (n < m ? -1 : n > m) : (x & low) ? 1 : -1; cmpT<b8>(a, n, b, m, r);

}
//@ D02 bv_hamming t=100 -- Hamming distance of subranges at any pair of offsets
ENTRY bv_hamming() { const int n = 20; m_t x = 0x9a5c6, y = x ^ (SU("y", 0, mask(n)) & 0x2d593); b8 a = mk<b8>(n, x), b = mk<b8>(n, y); int p = (int)sv_choose("p", 5) * 3, q = (int)sv_choose("q", 9), len = (int)sv_choose("len", 12); if (p + len > n || q + len > n) return; m_t z = ((x >> p) ^ (y >> q)) & mask(len); size_t h = b8::hamming_distance(a, p, b, q, len); int c = 0; for (int i = 0; i < 20; i++) c += (int)(z >> i & 1); CHECK((int)h == c, "hamming_distance"); }
static m_t revr(m_t x, int b, int e) { m_t r = x; for (int i = b; i < e; i++) r = (r & ~((m_t)1 << i)) | (x >> (b + e - 1 - i) & 1) << i; return r; }
//@ D02 bv_reverse t=100 N=26 -- reverse of every subrange
ENTRY bv_reverse() { int n = sv_param("N", 26); m_t x = SU("x", 0, mask(n)); int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("len", n + 1 - b); b8 v = mk<b8>(n, x); v.reverse(b, e); eqv(v, n, revr(x, b, e), "reverse"); }
//@ D02 bv_rotate t=100 N=18 -- rotate_left / rotate_right of every subrange by every count
ENTRY bv_rotate() { int n = sv_param("N", 18); m_t x = SU("x", 0, mask(n)); int b = (int)sv_choose("b", n), e = b + (int)sv_choose("len", n + 1 - b); static const int cs[] = {0, 1, 3, 8, 13, 20}; int c = cs[sv_choose("c", 6)]; int len = e - b; b8 v = mk<b8>(n, x); m_t y = x; if (len) { m_t s = x >> b & mask(len); int k = c % len; s = (s >> k | s << (len - k)) & mask(len); y = (x & ~(mask(len) << b)) | s << b; } v.rotate_left(b, e, c); eqv(v, n, y, "rotate_left"); v.rotate_right(b, e, c); eqv(v, n, x, "rotate_right undoes rotate_left"); }
//@ D02 bv_swap t=100 N=18 -- swap of two disjoint ranges (of different lengths: the part between moves)
ENTRY bv_swap() { int n = sv_param("N", 18); m_t x = SU("x", 0, mask(n)); int b1 = (int)sv_choose("b1", 6), l1 = (int)sv_choose("l1", 6), g = (int)sv_choose("g", 4), l2 = (int)sv_choose("l2", 5); int e1 = b1 + l1, b2 = e1 + g, e2 = b2 + l2; if (e2 > n) return; if (b1 == b2) return; b8 v = mk<b8>(n, x); if (sv_choose("order", 2)) v.swap(b1, e1, b2, e2); else v.swap(b2, e2, b1, e1);
    m_t A = x >> b1 & mask(l1), G = x >> e1 & mask(g), Bq = x >> b2 & mask(l2); m_t y = (x & mask(b1)) | (Bq | G << l2 | A << (l2 + g)) << b1 | (x >> e2 << e2); eqv(v, n, y, "swap"); }
//@ D02 bv_apply t=100 N=20 -- two-range operations (copy, and, or, xor, not-and, equality) between vectors and within one vector, overlapping ranges included
ENTRY bv_apply() {
    int n = sv_param("N", 20); m_t x = SU("x", 0, mask(n)), y = SU("y", 0, mask(n)); int b1 = (int)sv_choose("b1", 12), b2 = (int)sv_choose("b2", 12), len = (int)sv_choose("len", 10); bool self = sv_choose("self", 2); m_t src = (self ? x : y) >> b2 & mask(len), old = x >> b1 & mask(len); b8 a = mk<b8>(n, x), o = mk<b8>(n, y); const b8& s = self ? a : o;
    m_t r; switch (sv_choose("op", 8)) { case 0: b8::apply(a, b1, s, b2, len, b8::op_set); r = src; break; case 5: b8::apply(a, b1, s, b2, len, b8::op_nor); r = ~(old | src); break; case 6: b8::apply(a, b1, s, b2, len, b8::op_setn); r = ~src; break; case 1: b8::apply(a, b1, s, b2, len, b8::op_and); r = old & src; break; case 2: b8::apply(a, b1, s, b2, len, b8::op_or); r = old | src; break; case 3: b8::apply(a, b1, s, b2, len, b8::op_xor); r = old ^ src; break; case 4: b8::apply(a, b1, s, b2, len, b8::op_nand); r = ~(old & src); break; default: b8::apply(a, b1, s, b2, len, b8::op_eq); r = ~(old ^ src); break; }
    eqv(a, n, (x & ~(mask(len) << b1)) | (r & mask(len)) << b1, "range operation");
}
//@ D02 bv_long t=60 N=47 S=5 Q:S=2 -- long copies and exclusive ors within one vector (several whole words), in both directions
ENTRY bv_long() { int n = sv_param("N", 47), S = sv_param("S", 5); m_t x = SU("x", 0, mask(n)); int b1 = (int)sv_choose("b1", 11), b2 = (int)sv_choose("b2", 11), len = n - 11 - S * (int)sv_choose("len", 12 / S + 1); m_t src = x >> b2 & mask(len), old = x >> b1 & mask(len); b8 a = mk<b8>(n, x); m_t r; if (sv_choose("op", 2)) { b8::apply(a, b1, a, b2, len, b8::op_set); r = src; } else { b8::apply(a, b1, a, b2, len, b8::op_xor); r = old ^ src; } eqv(a, n, (x & ~(mask(len) << b1)) | (r & mask(len)) << b1, "range operation"); }
//@ D02 bv_fill t=60 N=20 -- set0/set1/flip of every subrange
ENTRY bv_fill() { int n = sv_param("N", 20); m_t x = SU("x", 0, mask(n)); int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("len", n + 1 - b); m_t w = mask(e - b) << b; b8 v = mk<b8>(n, x); v.apply(b, e, b8::op_set0); eqv(v, n, x & ~w, "clear range"); v.apply(b, e, b8::op_set1); eqv(v, n, x | w, "fill range"); v.apply(b, e, b8::op_flip); eqv(v, n, x & ~w, "flip range"); }
//@ D02 bv_word64 t=60 -- 64-bit words: shift, reverse and logic across word boundaries (two words and more)
ENTRY bv_word64() { int n = 60 + (int)sv_choose("n", 75); uint64_t x = SU("x", 0, ~0ull), y = SU("y", 0, ~0ull); b64 b(n); sv_automerge(1); for (int i = 0; i < n; i++) b.set(i, (int)(i < 64 ? x >> i & 1 : y >> (i & 63) & 1)); sv_automerge(0); auto at = [&](int i) { return i < 0 || i >= n ? 0 : (int)(i < 64 ? x >> i & 1 : y >> (i & 63) & 1); };
    int c = (int)sv_choose("c", 10); static const int cs[] = {0, 1, 7, 31, 63, 64, 65, 100, 127, 128}; int s = cs[c]; b64 l = b << s, r = b >> s; bool okl = true, okr = true; for (int i = 0; i < n; i++) okl = okl & (l.bit_at(i) == at(i - s)), okr = okr & (r.bit_at(i) == at(i + s)); CHECK(okl, "<< across 64-bit words"); CHECK(okr, ">> across 64-bit words");
    b64 v = b; v.reverse(3, n - 2); bool ok = true; for (int i = 3; i < n - 2; i++) ok = ok & (v.bit_at(i) == at(3 + n - 2 - 1 - i)); CHECK(ok, "reverse across 64-bit words"); CHECK(b.to_string(0, n).size() == (size_t)n, "to_string"); }
