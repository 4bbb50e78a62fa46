// Range-query trees: the elements are letters of a free monoid (packed words), so every answer shows order and multiplicity
#include "sv.h"
#include "altruct/structure/container/segment_tree.h"
#include "altruct/structure/container/lazy_segment_tree.h"
#include "altruct/structure/math/fenwick_tree.h"
using namespace altruct::container; using namespace altruct::math;
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
struct W { int len = 0; uint64_t w = 0; bool lazy = false; uint64_t lv = 0; bool operator==(const W& r) const { return len == r.len && w == r.w; } };
static W cat(const W& a, const W& b) { W r; r.len = a.len + b.len; r.w = a.w << (4 * b.len) | b.w; return r; }
static W letter(uint64_t v) { W r; r.len = 1; r.w = v; return r; }
static W letter0() { return letter(SU("e", 0, 15)); }
static W ref(const W* a, int b, int e) { W r; for (int i = b; i < e; i++) r = cat(r, a[i]); return r; }
struct Cat { W operator()(const W& a, const W& b) const { return cat(a, b); } };
typedef segment_tree<W, Cat> st_t;
static void queries(const st_t& t, const W* a, int n) { int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("len", n + 1 - b); CHECK(t.get(b, e) == ref(a, b, e), "range query is the ordered product of the range"); if (b < n) CHECK(t.get(b) == a[b] && t[b] == a[b], "single element"); }
//@ D01 seg_build t=100 N=6 Q:N=9 -- segment_tree built from a range, every [b,e) query, symbolic elements
ENTRY seg_build() { int n = 1 + (int)sv_choose("n", sv_param("N", 6)); std::vector<W> a; for (int i = 0; i < n; i++) a.push_back(letter0()); st_t t(a.begin(), a.end(), Cat()); CHECK((int)t.size() >= n, "capacity"); queries(t, a.data(), n); }
//@ D01 seg_ops t=100 N=5 K=3 Q:N=8 Q:K=4 -- histories of set / operator[] with rebuild(all, one, range), then any query
ENTRY seg_ops() {
    int n = sv_param("N", 5), K = sv_param("K", 3); std::vector<W> a(n); st_t t(n, Cat()); 
    for (int k = 0; k < K; k++) { W x = letter0(); switch (sv_choose("op", 4)) {
        case 0: { int i = (int)sv_choose("i", n); t.set(i, x); a[i] = x; break; }
        case 1: { int i = (int)sv_choose("i", n); t[i] = x; a[i] = x; t.rebuild(i); break; }
        case 2: { int i = (int)sv_choose("i", n), j = i + 1 + (int)sv_choose("j", n - i); for (int q = i; q < j; q++) { t[q] = x; a[q] = x; } t.rebuild(i, j); break; }
        case 3: { t[0] = x; a[0] = x; t[n - 1] = x; a[n - 1] = x; t.rebuild(); break; } } }
    queries(t, a.data(), n);
}
//@ D01 seg_func t=60 -- std::function flavour with minimum and a non-trivial identity
ENTRY seg_func() { std::vector<int> a; for (int i = 0; i < 5; i++) a.push_back((int)sv_sym_i("v", -100, 100)); segment_tree<int> t(a.begin(), a.end(), [](int x, int y) { return x < y ? x : y; }, 1000); int b = (int)sv_choose("b", 6), e = (int)sv_choose("e", 6); int r = 1000; for (int i = b; i < e; i++) r = a[i] < r ? a[i] : r; CHECK(t.get(b, e) == r, "range minimum"); }

static uint64_t rep(int len, uint64_t c) { uint64_t r = 0; for (int i = 0; i < len; i++) r = r << 4 | c; return r; }
struct Up { void operator()(W& p, const W& l, const W& r) const { W t = cat(l, r); t.lazy = false; p = t; } };
static void assign(W& n, uint64_t c) { n.w = rep(n.len, c); n.lazy = true; n.lv = c; }
struct Down { void operator()(W& p, W& l, W& r) const { if (p.lazy) { assign(l, p.lv); assign(r, p.lv); p.lazy = false; } } };
typedef lazy_segment_tree<W, Up, Down> lz_t;
//@ D01 lazy_ops t=150 N=5 K=2 Q:N=6 Q:K=3 steps=400000000 -- lazy_segment_tree: range assignments, leaf-only updates, element writes, then any query
ENTRY lazy_ops() {
    int n = sv_param("N", 5), K = sv_param("K", 3); std::vector<W> a(n); std::vector<W> init; for (int i = 0; i < n; i++) { a[i] = letter0(); } lz_t t(a.begin(), a.end(), Up(), Down());
    for (int k = 0; k < K; k++) { int i = (int)sv_choose("i", n + 1), j = i + (int)sv_choose("j", n + 1 - i); uint64_t c = SU("c", 0, 15);
        switch (sv_choose("op", 4)) {
        case 0: t.update(i, j, [&](W& x) { assign(x, c); return true; }); for (int q = i; q < j; q++) a[q].w = c; break;
        case 1: t.update(i, j, [&](W& x) { if (x.len > 1) return false; x.w ^= c; x.lazy = false; return true; }); for (int q = i; q < j; q++) a[q].w ^= c; break;
        case 2: if (i < j) { t.restore(i, j); for (int q = i; q < j; q++) { CHECK(t[q] == a[q], "restore makes every element of the range current"); t[q].w = c; t[q].lazy = false; a[q].w = c; } t.rebuild(i, j); } break;
        case 3: { W g = t.get(i, j); CHECK(g == ref(a.data(), i, j), "intermediate query"); break; } } }
    int b = (int)sv_choose("b", n + 1), e = b + (int)sv_choose("len", n + 1 - b); CHECK(t.get(b, e) == ref(a.data(), b, e), "query after range updates");
    if (n > 0) { t.restore(0, n); for (int q = 0; q < n; q++) CHECK(t[q] == a[q], "restored elements"); }
}
//@ D01 lazy_rebuild t=60 -- manual fill + rebuild(), sizes 1..8
ENTRY lazy_rebuild() { int n = 1 + (int)sv_choose("n", 8); lz_t t(n, Up(), Down()); std::vector<W> a(n); for (int i = 0; i < n; i++) { a[i] = letter0(); t[i] = a[i]; } t.rebuild(); uint64_t c = SU("c", 0, 15); int m = (int)sv_choose("m", n); t.update(m, n, [&](W& x) { assign(x, c); return true; }); for (int i = m; i < n; i++) a[i].w = c; int b = (int)sv_choose("b", n + 1); CHECK(t.get(b, n) == ref(a.data(), b, n), "suffix"); CHECK(t.get(0, b) == ref(a.data(), 0, b), "prefix"); }
//@ D01 fenwick t=60 N=6 K=3 Q:N=8 Q:K=4 -- fenwick_tree prefix sums after any sequence of additions at symbolic indices
ENTRY fenwick() {
    int n = 1 + (int)sv_choose("n", sv_param("N", 6)), K = sv_param("K", 4); fenwick_tree<uint32_t> t(n, [](uint32_t a, uint32_t b) { return a + b; }); uint32_t a[16] = {};
    for (int k = 0; k < K; k++) { int i = (int)sv_choose("i", n); uint32_t v = (uint32_t)SU("v", 0, 0xffffffffu); t.add(i, v); a[i] += v; }
    uint32_t s = 0; for (int i = 0; i < n; i++) { s += a[i]; CHECK(t.get_sum(i) == s, "prefix sum including the index"); } t.reset(); CHECK(t.get_sum(n - 1) == 0, "reset");
    fenwick_tree<int, std::function<int(int, int)>> m(n, [](int a, int b) { return a > b ? a : b; }, -1000); int best = -1000, q = (int)sv_choose("q", n); for (int k = 0; k < 2; k++) { int i = (int)sv_choose("i", n), v = (int)sv_sym_i("w", -500, 500); m.add(i, v); if (i <= q && v > best) best = v; } CHECK(m.get_sum(q, -1000) == best, "prefix maximum");
}
