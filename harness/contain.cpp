// binary_heap, disjoint_set, lohi_map, sqrt_map
#include "sv.h"
#include <algorithm>
#include <functional>
#include "altruct/structure/container/binary_heap.h"
#include "altruct/structure/graph/disjoint_set.h"
#include "altruct/structure/container/lohi_map.h"
#include "altruct/structure/container/sqrt_map.h"
using namespace altruct::container;
typedef altruct::graph::disjoint_set ds_t;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
struct El { int key = 0, id = -1; };
struct Lt { int calls = 0; bool operator()(const El& a, const El& b) const { return sv_concretize(a.key < b.key) != 0; } };
typedef binary_heap<El, Lt> heap_t;
static void isHeap(const heap_t& h) { for (size_t i = 1; i < h.v.size(); i++) CHECK(!(h.v[i].key < h.v[(i - 1) / 2].key), "heap order"); }
//@ D03 heap_ops t=60 N=4 Q:N=6 K=4 Q:K=5 -- rebuild from a range, then any history of insert/pop_front; each pop returns the least element, nothing lost or duplicated
ENTRY heap_ops() {
    int n = (int)sv_choose("n", sv_param("N", 5)), K = sv_param("K", 4); std::vector<El> a; for (int i = 0; i < n; i++) { El e; e.key = SI("k", -100, 100); e.id = i; a.push_back(e); }
    heap_t h(a.begin(), a.end(), Lt()); CHECK((int)h.size() == n, "size"); isHeap(h); int next = n; unsigned in = (1u << n) - 1; std::vector<El> all = a;
    for (int k = 0; k < K; k++) { if (in && sv_choose("op", 2)) { El f = h.front(); CHECK(f.id >= 0 && f.id < next && (in >> f.id & 1), "front is an element of the heap"); CHECK(f.key == all[f.id].key, "unaltered"); for (int i = 0; i < next; i++) if (in >> i & 1) CHECK(!(all[i].key < f.key), "front is the least"); in &= ~(1u << f.id); h.pop_front(); }
        else { El e; e.key = SI("x", -100, 100); e.id = next++; all.push_back(e); h.insert(e); in |= 1u << e.id; } 
        isHeap(h); CHECK((int)h.size() == __builtin_popcount(in), "size"); }
    unsigned seen = 0; for (auto& e : h.v) seen |= 1u << e.id; CHECK(seen == in, "same elements");
}
//@ D03 heap_sort t=60 N=5 Q:N=7 -- rebuild() after arbitrary edits, sort() gives a sorted permutation
ENTRY heap_sort() { int n = (int)sv_choose("n", sv_param("N", 5) + 1); heap_t h((size_t)n, Lt()); for (int i = 0; i < n; i++) { h.v[i].key = SI("k", -100, 100); h.v[i].id = i; } std::vector<El> o = h.v; h.rebuild(); isHeap(h); h.sort(); unsigned seen = 0; for (int i = 0; i < n; i++) { seen |= 1u << h.v[i].id; CHECK(h.v[i].key == o[h.v[i].id].key, "unaltered"); if (i) CHECK(!(h.v[i].key < h.v[i - 1].key), "ascending"); } CHECK(seen == (1u << n) - 1, "permutation"); }
//@ D03 dset_ops t=60 N=4 K=4 Q:N=5 -- any history of unite/find/add_count against explicit labels; path compression keeps representatives
ENTRY dset_ops() {
    const int n = sv_param("N", 4), K = sv_param("K", 4); int s0 = (int)sv_choose("sz", n + 1); ds_t d(s0); int lab[8], sz = s0; long cnt[8]; for (int i = 0; i < n; i++) lab[i] = i, cnt[i] = 1;
    for (int k = 0; k < K; k++) { int x = (int)sv_choose("x", n), y = (int)sv_choose("y", n); int mx = x > y ? x : y; if (mx + 1 > sz) sz = mx + 1;
        if (x == y) { d.find(x); size_t c = sv_sym_u("c", 0, 1000); d.add_count(x, c); cnt[lab[x]] += c; }
        else { int a = lab[x], b = lab[y]; bool r = d.unite(x, y); CHECK(r == (a != b), "unite reports whether the sets were different"); if (a != b) { for (int i = 0; i < n; i++) if (lab[i] == b) lab[i] = a; cnt[a] += cnt[b]; } }
        CHECK((int)d.size() == sz, "size"); int dist = 0; for (int i = 0; i < sz; i++) if (lab[i] == i) dist++; CHECK((int)d.distinct() == dist, "number of sets"); }
    size_t r[8]; for (int i = 0; i < sz; i++) { r[i] = d.find(i); CHECK(r[i] < (size_t)sz && lab[r[i]] == lab[i], "representative is a member"); CHECK(d.find(r[i]) == r[i], "representative is a fixed point"); CHECK((long)d.count(i) == cnt[lab[i]], "count"); } for (int i = 0; i < sz; i++) for (int j = 0; j < i; j++) CHECK((r[i] == r[j]) == (lab[i] == lab[j]), "same representative iff same set");
    d.clear(2); CHECK(d.size() == 2 && d.distinct() == 2 && d.find(0) == 0 && d.find(1) == 1 && d.count(0) == 1, "clear");
}
//@ D03 dset_deep t=60 -- union by rank with 8 elements merged in every pairing order, symbolic member queried
ENTRY dset_deep() { ds_t d(8); int lab[8]; for (int i = 0; i < 8; i++) lab[i] = i; auto un = [&](int x, int y) { d.unite(x, y); int a = lab[x], b = lab[y]; for (int i = 0; i < 8; i++) if (lab[i] == b) lab[i] = a; }; for (int i = 0; i < 8; i += 2) { if (sv_choose("s", 2)) un(i, i + 1); else un(i + 1, i); } int p = (int)sv_choose("p", 2); un((int)sv_choose("a", 2), 2 + (int)sv_choose("b", 2)); if (p) un(4 + (int)sv_choose("c", 2), 6 + (int)sv_choose("d", 2)); un((int)sv_choose("e", 4), 4 + (int)sv_choose("f", 4)); int q = (int)sv_choose("q", 8); size_t r = d.find(q); CHECK(lab[r] == lab[q], "member"); int c = 0, w = 0; for (int i = 0; i < 8; i++) { if (lab[i] == lab[q]) c++, CHECK(d.find(i) == r, "same set"); else CHECK(d.find(i) != r, "other set"); if (lab[i] == i) w++; } CHECK((int)d.count(q) == c && (int)d.distinct() == w, "count"); }
//@ D03 lohi_ops t=60 K=4 Q:K=5 -- lohi_map: any history of insert/[]/erase/at/count, keys on both sides of the boundary
ENTRY lohi_ops() {
    int K = sv_param("K", 4); typedef lohi_map<int, int> map_t; map_t m(1); static const int keys[] = {0, 1, 2, 1000000007}; bool has[4] = {}; int val[4] = {};
    for (int k = 0; k < K; k++) { int i = (int)sv_choose("i", 4), x = keys[i], v = SI("v", -1000, 1000);
        switch (sv_choose("op", 4)) {
        case 0: { auto r = m.insert({x, v}); CHECK(r.first == x && r.second == !has[i], "insert result"); if (!has[i]) has[i] = true, val[i] = v; break; }
        case 1: CHECK(m[x] == (has[i] ? val[i] : 0), "[] gives the stored value or the default"); m[x] = v; has[i] = true; val[i] = v; break;
        case 2: CHECK(m.erase(x) == (int)has[i], "erase result"); has[i] = false; break;
        default: if (has[i]) { CHECK(m.at(x) == val[i], "at"); m.at(x) = v; val[i] = v; } break; } 
        for (int j = 0; j < 4; j++) { CHECK(m.count(keys[j]) == (int)has[j], "count"); if (has[j]) CHECK(const_cast<const map_t&>(m).at(keys[j]) == val[j], "value"); } }
}
//@ D03 sqrt_ops t=60 K=2 Q:K=3 -- sqrt_map: any history of insert/[]/erase/at/count/el over all keys k and floor(max/k), for several sizes and after reset_max and swap
ENTRY sqrt_ops() {
    int K = sv_param("K", 2); typedef sqrt_map<int, int> map_t; static const int mx[] = {1, 2, 5, 12, 16, 24, 30}; int M = mx[sv_choose("max", 7)]; int L = 1; while ((L + 1) * (L + 1) <= M) L++; L += (int)sv_choose("extra", 2); std::vector<int> keys; for (int k = 1; k <= L; k++) keys.push_back(k); for (int k = 1; k <= L; k++) { int q = M / k; if (q > L && (keys.empty() || std::find(keys.begin(), keys.end(), q) == keys.end())) keys.push_back(q); } int n = (int)keys.size();
    map_t m(L); map_t o(1, 1); int how = (int)sv_choose("how", 3); if (how == 0) m.reset_max(M); else if (how == 1) { map_t t(L, M); m = t; } else { map_t t(L, M); m.swap(t); } std::vector<char> has(n, 0); std::vector<int> val(n, 0); bool r0 = false;
    for (int k = 0; k < K; k++) { int i = (int)sv_choose("i", n), x = keys[i], v = SI("v", -1000, 1000);
        switch (sv_choose("op", 4)) {
        case 0: { auto r = m.insert({x, v}); CHECK(r.first == x && r.second == !has[i], "insert result"); if (!has[i]) has[i] = 1, val[i] = v; break; }
        case 1: CHECK(m[x] == (has[i] ? val[i] : 0), "[] gives the stored value or the default"); m[x] = v; has[i] = 1; val[i] = v; break;
        case 2: CHECK(m.erase(x) == (int)has[i], "erase result"); has[i] = 0; break;
        default: if (has[i]) { CHECK(m.at(x) == val[i], "at"); m.el(x) = v; val[i] = v; } else { bool th = false; try { m.at(x); } catch (std::out_of_range&) { th = true; } CHECK(th, "at throws for a missing key"); } break; } }
    const map_t& c = m; for (int j = 0; j < n; j++) { CHECK(c.count(keys[j]) == (int)has[j], "count"); if (has[j]) { CHECK(c.at(keys[j]) == val[j] && c[keys[j]] == val[j] && c(keys[j]) == val[j] && c.el(keys[j]) == val[j], "value"); CHECK((keys[j] <= L ? c.lo(keys[j]) : c.hi(M / keys[j])) == val[j], "lo/hi"); } }
    int M2 = M - (int)sv_choose("shrink", 2) * (M > L); m.reset_max(M2); for (int k = L + 1; k <= M2; k++) if (M2 / (M2 / k) == k) { CHECK(m.count(k) == 0, "reset_max forgets the large keys"); CHECK(m[k] == 0, "default after reset_max"); } for (int j = 0; j < n; j++) if (keys[j] <= L) CHECK(m.count(keys[j]) == (int)has[j], "reset_max keeps the small keys"); (void)r0;
}
