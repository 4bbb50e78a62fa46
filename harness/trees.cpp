// lowest_common_ancestor, heavy_light_decomposition
#include "sv.h"
#include <limits>
#include "altruct/algorithm/graph/lowest_common_ancestor.h"
#include "altruct/algorithm/graph/heavy_light_decomposition.h"
using namespace altruct::graph;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
// a forest on n nodes: every parent function with relabelling; par/dep/root are relative to the roots the DFS picks (smallest label of each tree)
template<class E> struct Forest { int n; bool adj[10][10]; int par[10], dep[10], root[10], size[10]; graph<E> g;
    Forest(int n, E (*mk)(int, int), bool forest) : n(n), adj(), g(n) { int lab[10]; int how = (int)sv_choose("naming", 4); for (int i = 0; i < n; i++) lab[i] = how == 0 ? i : how == 1 ? n - 1 - i : (i + how - 1) % n; bool rev = sv_choose("rev", 2);
        for (int i = 1; i < n; i++) { int p = (int)sv_choose("p", forest ? i + 1 : i); if (p < i) adj[lab[i]][lab[p]] = adj[lab[p]][lab[i]] = true; }
        for (int u = 0; u < n; u++) for (int k = 0; k < n; k++) { int v = rev ? n - 1 - k : k; if (adj[u][v]) g.add_edge(u, mk(u, v)); }
        for (int i = 0; i < n; i++) par[i] = dep[i] = root[i] = -1; for (int r = 0; r < n; r++) if (root[r] < 0) { root[r] = r; dep[r] = 0; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) if (root[u] == r) for (int v = 0; v < n; v++) if (adj[u][v] && root[v] < 0) root[v] = r, par[v] = u, dep[v] = dep[u] + 1; }
        for (int i = 0; i < n; i++) { size[i] = 0; for (int j = 0; j < n; j++) size[i] += isAnc(i, j); } }
    bool isAnc(int a, int x) const { while (x >= 0 && x != a) x = par[x]; return x == a; }
    int lca(int u, int v) const { while (u >= 0 && !isAnc(u, v)) u = par[u]; return u; } };
static edge mkE(int, int v) { return edge(v); }
//@ E03 lca_any t=100 N=6 Q:N=7 -- lowest_common_ancestor: every forest on N nodes (several namings and adjacency orders), depth, ancestor and distance of every pair, nodes of different trees, invalid ids
ENTRY lca_any() { int n = sv_param("N", 5); Forest<edge> f(n, mkE, true); lowest_common_ancestor l(f.g); CHECK(l.depth(-1) == -1 && l.ancestor(-1, 0) == -1 && l.ancestor(0, -1) == -1 && l.distance(-1, 0) == -1, "invalid ids"); for (int u = 0; u < n; u++) { CHECK(l.depth(u) == f.dep[u], "depth"); for (int v = 0; v < n; v++) { int a = f.lca(u, v); CHECK(l.ancestor(u, v) == a, "lowest common ancestor"); CHECK(l.distance(u, v) == (a < 0 ? -1 : f.dep[u] + f.dep[v] - 2 * f.dep[a]), "distance"); } } }
//@ E03 lca_deep t=60 -- a path with one branch at every position, 11 to 13 nodes, symbolic query nodes
ENTRY lca_deep() { int n = 11 + (int)sv_choose("n", 3), b = (int)sv_choose("branch", n - 2), s = (int)sv_choose("start", n - 2); graph<edge> g(n); int path = n - 3; int par[16], dep[16]; auto add = [&](int p, int c) { g.add_edge2(p, edge(c)); par[c] = p; dep[c] = dep[p] + 1; }; par[0] = -1; dep[0] = 0; for (int i = 1; i < path; i++) add(i - 1, i); add(b % path, path); add(path, path + 1); add(s % path, path + 2); lowest_common_ancestor l(g); int u = (int)sv_concretize((uint64_t)SI("u", 0, n - 1)), v = (int)sv_concretize((uint64_t)SI("v", 0, n - 1)); int x = u, y = v; while (x != y) if (dep[x] >= dep[y]) x = par[x]; else y = par[y]; CHECK(l.ancestor(u, v) == x, "ancestor"); CHECK(l.depth(u) == dep[u], "depth"); CHECK(l.distance(u, v) == dep[u] + dep[v] - 2 * dep[x], "distance"); }
template<class E> void hldCheck(Forest<E>& f, heavy_light_decomposition& h) { int n = f.n; unsigned seen = 0; for (int u = 0; u < n; u++) { int p = h.position(u); CHECK(p >= 0 && p < n && h.node(p) == u, "position and node are inverse"); seen |= 1u << p; CHECK(h.subtree_size(u) == f.size[u], "subtree size"); } CHECK(seen == (1u << n) - 1, "permutation");
    for (int u = 0; u < n; u++) { for (int v = 0; v < n; v++) if (f.isAnc(u, v)) CHECK(h.position(v) >= h.position(u) && h.position(v) < h.position(u) + f.size[u], "subtrees are contiguous");
        int heavy = 0, kids = 0, chained = 0; for (int v = 0; v < n; v++) if (f.par[v] == u) { kids++; heavy = f.size[v] > heavy ? f.size[v] : heavy; } for (int v = 0; v < n; v++) if (f.par[v] == u) { bool same = h.position(v) == h.position(u) + 1; if (same) { chained++; CHECK(f.size[v] == heavy, "the chain continues with the heaviest child"); CHECK(h.parent(v) == h.parent(u), "nodes of a chain share its parent"); } else CHECK(h.parent(v) == u, "a light child starts a chain below its parent"); } CHECK(chained == (kids > 0), "one child continues the chain"); if (f.par[u] < 0) CHECK(h.parent(u) == -1, "root chain has no parent"); } }
//@ E03 hld_any t=100 N=6 Q:N=7 -- heavy_light_decomposition: every forest on N nodes: inverse numbering, contiguous subtrees, chains follow the heaviest child; the graph stays the same up to the order of edges
ENTRY hld_any() { int n = sv_param("N", 5); Forest<edge> f(n, mkE, true); heavy_light_decomposition h(f.g); hldCheck(f, h); for (int u = 0; u < n; u++) { int c[10] = {}; for (auto& e : f.g[u]) c[e.v]++; for (int v = 0; v < n; v++) CHECK(c[v] == (int)f.adj[u][v], "edges unchanged"); } }
typedef weighted_edge<int> WE; static int wts[10][10]; static WE mkW(int u, int v) { return WE(v, wts[u][v]); }
//@ E03 hld_weight t=60 -- edges keep their weights
ENTRY hld_weight() { int n = 5; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) wts[u][v] = wts[v][u] = SI("w", 0, 1000); Forest<WE> f(n, mkW, false); heavy_light_decomposition h(f.g); hldCheck(f, h); for (int u = 0; u < n; u++) for (auto& e : f.g[u]) CHECK(f.adj[u][e.v] && e.w == wts[u][e.v], "weight"); }
//@ E03 hld_walk t=100 N=5 Q:N=6 -- heavy_light_decomposition_ex: k-th parents, node and edge walks between every pair: the segments cover exactly the path, at the right distances and in the right direction
ENTRY hld_walk() { int n = sv_param("N", 5); Forest<edge> f(n, mkE, true); heavy_light_decomposition_ex h(f.g); hldCheck(f, h.hld); for (int u = 0; u < n; u++) { CHECK(h.depth(u) == f.dep[u] && h.position(u) == h.hld.position(u) && h.node(h.position(u)) == u && h.subtree_size(u) == f.size[u], "forwarding"); for (int k = -1; k <= n; k++) { int x = k < 0 ? -1 : u; for (int i = 0; i < k && x >= 0; i++) x = f.par[x]; CHECK(h.parent(u, k) == x, "k-th parent"); } }
    int u = (int)sv_choose("u", n), v = (int)sv_choose("v", n); int a = f.lca(u, v); CHECK(h.ancestor(u, v) == a, "ancestor"); if (a < 0) return; int path[20], len = 0, edges[20], el = 0; for (int x = u; x != a; x = f.par[x]) path[len++] = x, edges[el++] = x; path[len++] = a; int down[10], dl = 0; for (int x = v; x != a; x = f.par[x]) down[dl++] = x; while (dl) path[len++] = down[--dl], edges[el++] = path[len - 1];
    for (int nodes = 0; nodes < 2; nodes++) { int got[20]; for (auto& x : got) x = -1; int L = nodes ? len : el; int* want = nodes ? path : edges; int cnt = 0, segs = 0; auto vis = [&](int b, int e, int pf, int pl, int total, bool up) { CHECK(total == L, "path length"); CHECK(b < e && b >= 0 && e <= n, "segment"); CHECK((up ? pf - pl : pl - pf) == e - b - 1, "segment length"); segs++; for (int i = b; i < e; i++) { int d = up ? pf - (i - b) : pf + (i - b); CHECK(d >= 0 && d < L && got[d] == -1, "distance"); got[d] = h.node(i); cnt++; } }; int r = nodes ? h.walk_nodes(u, v, vis) : h.walk_edges(u, v, vis); CHECK(r == L && cnt == L, "returns the path length"); for (int i = 0; i < L; i++) CHECK(got[i] == want[i], "path element"); CHECK(segs <= 7, "few segments"); } CHECK(h.distance(u, v) == el, "distance"); }
