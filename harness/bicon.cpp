// chain_decomposition, cut_edges, cut_vertices, biconnected_components, block_cut_tree, chromatic_polynomial
#include "sv.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/chain_decomposition.h"
#include "altruct/algorithm/graph/chromatic_polynomial.h"
using namespace altruct::graph;
typedef graph<edge> G;
struct U { int n; unsigned adj[10]; unsigned comp(int s, unsigned in) const { unsigned r = 1u << s & in; for (;;) { unsigned x = r; for (int u = 0; u < n; u++) if (r >> u & 1) x |= adj[u] & in; if (x == r) return r; r = x; } }
    int comps(unsigned in) const { int c = 0; while (in) { int s = __builtin_ctz(in); in &= ~comp(s, in); c++; } return c; }
    G g(int order) const { G r(n); for (int u = 0; u < n; u++) for (int k = 0; k < n; k++) { int v = order ? n - 1 - k : k; if (adj[u] >> v & 1) r.add_edge(u, v); } return r; }
    void add(int u, int v) { adj[u] |= 1u << v; adj[v] |= 1u << u; } void del(int u, int v) { adj[u] &= ~(1u << v); adj[v] &= ~(1u << u); } };
static U all(int n) { U x{n, {}}; for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) if (sv_choose("edge", 2)) x.add(u, v); return x; }
static void bicCheck(U x, int order) { int n = x.n; unsigned V = (1u << n) - 1; biconnectivity<edge> b(x.g(order)); int C = x.comps(V);
    // bridges and articulation points by removal
    unsigned isCut = 0, bridge[10] = {}; int nb = 0; for (int u = 0; u < n; u++) { if (x.comps(V & ~(1u << u)) > C - (x.adj[u] == 0)) isCut |= 1u << u; for (int v = u + 1; v < n; v++) if (x.adj[u] >> v & 1) { U y = x; y.del(u, v); if (y.comps(V) > C) bridge[u] |= 1u << v, nb++; } }
    CHECK((int)b.cut_edges.size() == nb, "number of bridges"); unsigned sb[10] = {}; for (auto& e : b.cut_edges) { CHECK(e.u < e.v && (bridge[e.u] >> e.v & 1) && !(sb[e.u] >> e.v & 1), "bridge"); sb[e.u] |= 1u << e.v; }
    unsigned cv = 0; for (int u : b.cut_vertices) { CHECK(!(cv >> u & 1), "listed once"); cv |= 1u << u; } CHECK(cv == isCut, "articulation points");
    // blocks with a cycle: maximal vertex sets inducing a connected graph without articulation point
    auto twoConn = [&](unsigned s) { if (__builtin_popcount(s) < 3 || x.comps(s) != 1) return false; for (int u = 0; u < n; u++) if ((s >> u & 1) && x.comps(s & ~(1u << u)) != 1) return false; return true; }; unsigned blocks[40]; int k = 0; for (unsigned s = V; s; s--) if (twoConn(s)) { bool sub = false; for (int i = 0; i < k; i++) sub = sub || (s & ~blocks[i]) == 0; if (!sub) { int w = 0; for (int i = 0; i < k; i++) if (blocks[i] & ~s) blocks[w++] = blocks[i]; k = w; blocks[k++] = s; } }
    CHECK((int)b.components.size() == k, "number of biconnected components"); unsigned got[40]; for (int i = 0; i < k; i++) { got[i] = 0; for (int u : b.components[i]) { CHECK(!(got[i] >> u & 1), "vertex listed once"); got[i] |= 1u << u; } int f = 0; for (int j = 0; j < k; j++) f += blocks[j] == got[i]; CHECK(f == 1, "biconnected component"); for (int j = 0; j < i; j++) CHECK(got[i] != got[j], "distinct"); }
    // chains: paths of edges, each non-bridge edge in exactly one chain, first chain of a block is a cycle
    CHECK((int)b.decomposition.size() == C, "one entry per connected component"); unsigned used[10] = {}; int ne = 0; for (auto& comp : b.decomposition) for (auto& bl : comp) for (size_t c = 0; c < bl.size(); c++) { auto& ch = bl[c]; CHECK(ch.size() >= 2, "chain"); if (c == 0) CHECK(ch.front() == ch.back(), "first chain is a cycle"); else CHECK(ch.front() != ch.back(), "other chains are paths"); for (size_t i = 1; i < ch.size(); i++) { int u = ch[i - 1], v = ch[i]; CHECK((x.adj[u] >> v & 1) && !(used[u] >> v & 1), "chain edge used once"); used[u] |= 1u << v; used[v] |= 1u << u; ne++; } } int m = 0; for (int u = 0; u < n; u++) m += __builtin_popcount(x.adj[u]); CHECK(ne == m / 2 - nb, "every edge on a cycle is in a chain");
    // block-cut tree
    auto& t = b.block_cut_tree; auto& ix = b.bc_tree_idx; int T = t.size(); U y{T, {}}; for (int i = 0; i < T; i++) for (auto& e : t[i]) { CHECK(e.v >= 0 && e.v < T && e.v != i, "tree edge"); y.adj[i] |= 1u << e.v; } int leaves = 0; for (int u = 0; u < n; u++) leaves += __builtin_popcount(x.adj[u]) <= 1; CHECK(T == k + (int)b.cut_vertices.size() + leaves, "nodes of the tree"); int te = 0; for (int i = 0; i < T; i++) te += __builtin_popcount(y.adj[i]); CHECK(y.comps((1u << T) - 1) == C && te / 2 == T - C && t.num_edges() == te, "forest with the same components");
    CHECK((int)ix.size() == n, "node map"); for (int u = 0; u < n; u++) { CHECK(ix[u] >= 0 && ix[u] < T, "node map"); if (isCut >> u & 1) { CHECK(ix[u] >= k && ix[u] < k + (int)b.cut_vertices.size() && b.cut_vertices[ix[u] - k] == u, "articulation point has its own node"); for (int i = 0; i < k; i++) CHECK((y.adj[ix[u]] >> i & 1) == (got[i] >> u & 1), "joined to exactly its blocks"); } else if (x.adj[u] & (x.adj[u] - 1)) CHECK(ix[u] < k && (got[ix[u]] >> u & 1), "inner vertex maps to its block"); }
    for (auto& e : b.cut_edges) CHECK(y.adj[ix[e.u]] >> ix[e.v] & 1, "bridge joins its nodes"); }
//@ E05 bic_any t=100 N=5 -- biconnectivity of every undirected graph on N vertices, both adjacency orders
ENTRY bic_any() { U x = all(sv_param("N", 4)); bicCheck(x, (int)sv_choose("order", 2)); }
//@ E05 bic_six t=100 -- 6 vertices: two triangles joined by any of the nine cross edges; a ring of six with any chords
ENTRY bic_six() { U x{6, {}}; if (sv_choose("kind", 2)) { for (int i = 0; i < 3; i++) x.add(i, (i + 1) % 3), x.add(3 + i, 3 + (i + 1) % 3); for (int i = 0; i < 3; i++) for (int j = 3; j < 6; j++) if (sv_choose("cross", 2)) x.add(i, j); } else { int skip = (int)sv_choose("skip", 7); for (int i = 0; i < 6; i++) if (i != skip) x.add(i, (i + 1) % 6); for (int i = 0; i < 3; i++) if (sv_choose("chord", 2)) x.add(i, i + 2); if (sv_choose("chord", 2)) x.add(1, 4); } bicCheck(x, (int)sv_choose("order", 2)); }
//@ E05 bic_cactus t=100 -- 8 vertices: cycles of three hung on any vertices of earlier ones, plus a pendant path
ENTRY bic_cactus() { U x{8, {}}; int lab[8]; int how = (int)sv_choose("naming", 3); for (int i = 0; i < 8; i++) lab[i] = how == 0 ? i : how == 1 ? 7 - i : (i * 3 + 2) % 8; auto add = [&](int u, int v) { x.add(lab[u], lab[v]); }; add(0, 1); add(1, 2); add(2, 0); int a = (int)sv_choose("a", 3); add(a, 3); add(3, 4); add(4, a); int b = (int)sv_choose("b", 5); add(b, 5); if (sv_choose("close", 2)) add(5, 6), add(6, b); int c = (int)sv_choose("c", 7); add(c, 7); bicCheck(x, (int)sv_choose("order", 2)); }
typedef altruct::math::polynom<int> poly;
static void chromCheck(const U& x, const poly& p) { int n = x.n; int cnt[10] = {}; // partitions into k independent sets
    struct P { static void go(const U& x, int u, int k, unsigned* bl, int* cnt) { if (u == x.n) { cnt[k]++; return; } for (int i = 0; i <= k; i++) { unsigned o = bl[i]; if (i < k && (o & x.adj[u])) continue; if (i == k) o = 0; unsigned sv = bl[i]; bl[i] = o | 1u << u; go(x, u + 1, i == k ? k + 1 : k, bl, cnt); bl[i] = sv; } } }; unsigned bl[10] = {}; P::go(x, 0, 0, bl, cnt);
    int c[12] = {}; int f[12] = {1}; for (int k = 0; k <= n; k++) { for (int i = 0; i <= k; i++) c[i] += cnt[k] * f[i]; int g[12] = {}; for (int i = 0; i <= k; i++) g[i + 1] += f[i], g[i] -= k * f[i]; for (int i = 0; i < 12; i++) f[i] = g[i]; } for (int i = 0; i <= n + 1; i++) CHECK(p[i] == c[i], "coefficient"); CHECK(p.deg() <= n, "degree"); }
//@ E05 chrom_any t=100 N=5 -- chromatic_polynomial of every graph on 0..N vertices, against the number of partitions into independent sets
ENTRY chrom_any() { U x = all((int)sv_choose("n", sv_param("N", 4) + 1)); chromCheck(x, chromatic_polynomial<int>(x.g((int)sv_choose("order", 2)))); }
//@ E05 chrom_five t=100 -- 5 vertices: a cycle with any chords, with and without one of its edges
ENTRY chrom_five() { U x{5, {}}; int skip = (int)sv_choose("skip", 2); for (int i = skip; i < 5; i++) x.add(i, (i + 1) % 5); for (int i = 0; i < 5; i++) if (sv_choose("chord", 2)) x.add(i, (i + 2) % 5); chromCheck(x, chromatic_polynomial<int>(x.g(0))); }
//@ E05 chrom_six t=100 -- 6 vertices: ring with any of five chords; two squares sharing an edge
ENTRY chrom_six() { U x{6, {}}; for (int i = 0; i < 6; i++) x.add(i, (i + 1) % 6); int c[5][2] = {{0, 2}, {1, 4}, {0, 3}, {2, 5}, {3, 5}}; for (auto& e : c) if (sv_choose("chord", 2)) x.add(e[0], e[1]); chromCheck(x, chromatic_polynomial<int>(x.g((int)sv_choose("order", 2)))); }
//@ E05 chrom_named t=60 -- closed forms for trees, cycles and complete graphs
ENTRY chrom_named() { int n = (int)sv_choose("n", 7); int k = (int)sv_choose("kind", 3); U x{n, {}}; if (k == 0) { if (n < 1) return; for (int i = 1; i < n; i++) x.add(i - 1, i); chromCheck(x, chromatic_polynomial_T<int>(n)); } else if (k == 1) { if (n < 3) return; for (int i = 0; i < n; i++) x.add(i, (i + 1) % n); chromCheck(x, chromatic_polynomial_C<int>(n)); } else { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) x.add(i, j); chromCheck(x, chromatic_polynomial_K<int>(n)); } }
