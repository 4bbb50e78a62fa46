// shortest paths, spanning trees, orders, components, closures, 2-SAT, graph edits
#include "sv.h"
#include <limits>
#include "altruct/algorithm/graph/dijkstra.h"
#include "altruct/algorithm/graph/floyd_warshall.h"
#include "altruct/algorithm/graph/prim_spanning_tree.h"
#include "altruct/algorithm/graph/iterative_dfs.h"
#include "altruct/algorithm/graph/topological_sort.h"
#include "altruct/algorithm/graph/tarjan_scc.h"
#include "altruct/algorithm/graph/transitive_closure.h"
#include "altruct/algorithm/graph/sat2.h"
using namespace altruct::graph;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
// a symbolic weight; every comparison is decided by the solver for the whole path
struct W { int v; W(int v = 0) : v(v) {} W operator+(const W& o) const { return W(v + o.v); } bool operator<(const W& o) const { return sv_concretize(v < o.v) != 0; } };
typedef weighted_edge<W> we; typedef graph<we> wg;
static const int INF = 1000000000;
static bool le(const W& a, const W& b) { return a.v <= b.v; }
static void reach(int n, bool r[8][8]) { for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = r[i][j] || (r[i][k] && r[k][j]); }
static void spCheck(const wg& g, int s) { int n = g.size(); auto r = dijkstra(g, s, W(INF)); CHECK((int)r.size() == n && r[s].v == s && r[s].w.v == 0, "source"); bool seen[8] = {}; seen[s] = true; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) if (seen[u]) for (auto& e : g[u]) seen[e.v] = true;
    for (int v = 0; v < n; v++) { if (!seen[v]) { CHECK(r[v].v == -1 && r[v].w.v == INF, "unreachable vertex"); continue; } CHECK(r[v].v >= 0 && r[v].v < n && seen[r[v].v], "predecessor"); if (v != s) { int p = r[v].v; bool ok = false; for (auto& e : g[p]) if (e.v == v) ok = ok | (r[p].w.v + e.w.v == r[v].w.v); CHECK(ok, "distance is realised by the last edge"); int x = v; for (int k = 0; k < n && x != s; k++) x = r[x].v; CHECK(x == s, "predecessors lead to the source"); } for (auto& e : g[v]) CHECK(le(r[e.v].w, W(r[v].w.v + e.w.v)), "no edge improves a distance"); } }
//@ E01 dij_any lia=1 t=100 N=3 Q:N=4 -- dijkstra: every directed graph on N vertices, symbolic weights (zero included)
ENTRY dij_any() { int n = sv_param("N", 3); wg g(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v && sv_choose("edge", 2)) g.add_edge(u, {v, SI("w", 0, 1000000)}); spCheck(g, (int)sv_choose("src", n)); }
//@ E01 dij_dense lia=1 t=100 -- dijkstra on K4 (undirected, symmetric symbolic weights), edges listed in several orders
ENTRY dij_dense() { wg g(4); int o = (int)sv_choose("order", 2); for (int u = 0; u < 4; u++) for (int i = 0; i < 4; i++) { int v = o ? 3 - i : i; if (v < u) { W w = SI("w", 0, 1000000); g.add_edge(u, {v, w}); g.add_edge(v, {u, w}); } } spCheck(g, (int)sv_choose("src", 4)); }
//@ E01 dij_multi lia=1 t=60 -- parallel edges and self loops, 5 vertices in layers
ENTRY dij_multi() { wg g(5); auto w = [] { return W(SI("w", 0, 1000000)); }; g.add_edge(0, {1, w()}); g.add_edge(0, {1, w()}); g.add_edge(1, {1, w()}); g.add_edge(1, {2, w()}); g.add_edge(0, {2, w()}); g.add_edge(2, {3, w()}); g.add_edge(1, {3, w()}); g.add_edge(3, {1, w()}); spCheck(g, (int)sv_choose("src", 3)); }
static void primCheck(const wg& g, int root) { int n = g.size(); auto r = prim_spanning_tree(g, root, W(INF)); bool seen[8] = {}; seen[root] = true; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) if (seen[u]) for (auto& e : g[u]) seen[e.v] = true; CHECK((int)r.size() == n && r[root].v == root && r[root].w.v == 0, "root");
    int dep[8]; for (int v = 0; v < n; v++) { if (!seen[v]) { CHECK(r[v].v == -1 && r[v].w.v == INF, "vertex outside the component"); continue; } int x = v, d = 0; while (x != root && d <= n) { CHECK(r[x].v >= 0 && r[x].v < n, "parent"); x = r[x].v; d++; } CHECK(x == root, "parents lead to the root (no cycle)"); dep[v] = d; if (v != root) { bool ok = false; for (auto& e : g[r[v].v]) if (e.v == v) ok = ok | (e.w.v == r[v].w.v); CHECK(ok, "tree edge exists with its weight"); } }
    for (int u = 0; u < n; u++) if (seen[u]) for (auto& e : g[u]) { int a = u, b = e.v; while (a != b) { int& x = dep[a] >= dep[b] ? a : b; CHECK(le(r[x].w, e.w), "no edge outside the tree is lighter than a tree edge it could replace"); x = r[x].v; } } }
//@ E01 prim_any lia=1 t=100 N=4 Q:N=5 -- prim_spanning_tree: every undirected graph on N vertices, symbolic weights (negative included)
ENTRY prim_any() { int n = sv_param("N", 4); wg g(n); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) if (sv_choose("edge", 2)) { W w = SI("w", -1000000, 1000000); g.add_edge(u, {v, w}); g.add_edge(v, {u, w}); } primCheck(g, (int)sv_choose("root", n)); }
//@ E01 prim_cycle lia=1 t=60 -- two triangles sharing an edge plus a tail, parallel edges
ENTRY prim_cycle() { wg g(5); auto add = [&](int u, int v) { W w = SI("w", 0, 1000000); g.add_edge(u, {v, w}); g.add_edge(v, {u, w}); }; add(0, 1); add(1, 2); add(1, 3); add(3, 2); add(2, 4); add(0, 1); primCheck(g, (int)sv_choose("root", 5)); }
static void fwCheck(const wg& g) { int n = g.size(); auto r = floyd_warshall(g, W(INF)); bool re[8][8] = {}; for (int i = 0; i < n; i++) { re[i][i] = true; for (auto& e : g[i]) re[i][e.v] = true; } reach(n, re);
    for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { if (!re[u][v]) { CHECK(r[u][v].v == -1 && r[u][v].w.v == INF, "unreachable pair"); continue; } if (u == v) CHECK(r[u][u].w.v == 0 && r[u][u].v == u, "distance to itself"); for (int k = 0; k < n; k++) if (re[v][k]) { bool best = true; for (auto& e : g[v]) if (e.v == k) best = best & le(r[u][k].w, W(r[u][v].w.v + e.w.v)); CHECK(best, "no edge improves a distance"); }
        int x = u, sum = 0; for (int k = 0; k < n && x != v; k++) { int y = r[x][v].v; CHECK(y >= 0 && y < n && y != x, "next vertex"); int w = INF; bool any = false; for (auto& e : g[x]) if (e.v == y) { w = any ? (int)sv_ite(e.w.v < w, e.w.v, w) : e.w.v; any = true; } CHECK(any, "next vertex is a neighbour"); sum += w; x = y; } CHECK(x == v && sum == r[u][v].w.v, "the next pointers walk a path of exactly that length"); } }
//@ E01 fw_any lia=1 t=100 -- floyd_warshall: every directed graph on 3 vertices, symbolic weights
ENTRY fw_any() { int n = 3; wg g(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v && sv_choose("edge", 2)) g.add_edge(u, {v, SI("w", 0, 1000000)}); fwCheck(g); }
//@ E01 fw_neg lia=1 t=100 -- negative weights without negative cycles (symbolic potentials), self loops, parallel edges, 4 vertices
ENTRY fw_neg() { int n = 4; wg g(n); int p[4]; for (int i = 0; i < n; i++) p[i] = i ? SI("potential", -1000000, 1000000) : 0; auto add = [&](int u, int v) { g.add_edge(u, {v, SI("w", 0, 1000000) + p[u] - p[v]}); }; add(0, 1); add(1, 2); add(2, 0); add(2, 3); if (sv_choose("more", 2)) add(0, 3), add(1, 1), add(3, 2), add(1, 0); else add(3, 1), add(0, 1), add(3, 0), add(1, 3); fwCheck(g); }
//@ E01 fw_ring lia=1 t=100 -- undirected graphs on 4 vertices: ring with one chord
ENTRY fw_ring() { wg g(4); auto add = [&](int u, int v) { W w = SI("w", 0, 1000000); g.add_edge(u, {v, w}); g.add_edge(v, {u, w}); }; add(0, 1); add(1, 2); add(2, 3); if (sv_choose("close", 2)) add(3, 0); else add(0, 2); fwCheck(g); }

typedef graph<edge> G;
static int permAt(int k, int n, int i) { int a[8]; for (int j = 0; j < n; j++) a[j] = j; int r = 0; for (int j = 0; j <= i; j++) { int f = 1; for (int q = 2; q < n - j; q++) f *= q; int x = (k / f) % (n - j); k %= f; r = a[x]; for (int q = x; q + 1 < n - j; q++) a[q] = a[q + 1]; } return r; }
// a directed graph where each ordered pair is present or not
static G digraph(int n, bool loops, bool m[8][8]) { G g(n); bool rev = sv_choose("rev", 2); for (int u = 0; u < n; u++) { for (int v = 0; v < n; v++) m[u][v] = (u != v || loops) && sv_choose("edge", 2); for (int i = 0; i < n; i++) { int v = rev ? n - 1 - i : i; if (m[u][v]) g.add_edge(u, v); } } return g; }
static G ugraph(int n, bool m[8][8]) { G g(n); for (int u = 0; u < n; u++) for (int v = 0; v < u; v++) m[u][v] = m[v][u] = sv_choose("edge", 2); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (m[u][v] && u != v) g.add_edge(u, v); return g; }
//@ E02 dfs_events t=100 N=3 Q:N=4 -- iterative_dfs: every directed graph, visitor refusing any set of nodes, with and without source: pre-order, depths, parents, closing events
ENTRY dfs_events() { int n = sv_param("N", 3); bool m[8][8] = {}; G g = digraph(n, true, m); unsigned deny = (unsigned)sv_choose("deny", 1u << n); int src = (int)sv_choose("source", n + 1) - 1; struct Ev { int r, p, v, d; }; std::vector<Ev> ev; iterative_dfs(g, [&](int r, int p, int v, int d) { ev.push_back({r, p, v, d}); return v < 0 || !(deny >> v & 1); }, src);
    // reference: recursion over the adjacency lists
    std::vector<Ev> ref; bool vis[8] = {}; struct R { G& g; std::vector<Ev>& ref; bool* vis; unsigned deny; void go(int r, int u, int d) { for (auto& e : g[u]) { if (vis[e.v]) continue; ref.push_back({r, u, e.v, d}); if (deny >> e.v & 1) continue; vis[e.v] = true; go(r, e.v, d + 1); } ref.push_back({r, u, -1, d}); } } R0{g, ref, vis, deny};
    for (int o = src < 0 ? 0 : src; o <= (src < 0 ? n - 1 : src); o++) { if (vis[o]) continue; ref.push_back({o, -1, o, 0}); if (deny >> o & 1) continue; vis[o] = true; R0.go(o, o, 1); }
    CHECK(ev.size() == ref.size(), "number of events"); for (size_t i = 0; i < ref.size(); i++) CHECK(ev[i].r == ref[i].r && ev[i].p == ref[i].p && ev[i].v == ref[i].v && ev[i].d == ref[i].d, "event"); auto vp = parents(g); CHECK((int)vp.size() == n, "parents size"); if (!deny && src < 0) for (auto& e : ref) if (e.v >= 0) CHECK(vp[e.v] == e.p, "parents"); }
//@ E02 topo_dag t=100 N=4 Q:N=5 -- in_degrees and topological_sort: every DAG on N vertices with vertices in any naming
ENTRY topo_dag() { int n = sv_param("N", 4); int p[8]; int k = (int)sv_choose("naming", n == 4 ? 24 : 120); for (int i = 0; i < n; i++) p[i] = permAt(k, n, i); G g(n); int in[8] = {}; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (sv_choose("edge", 2)) g.add_edge(p[i], p[j]), in[p[j]]++; auto d = in_degrees(g); for (int i = 0; i < n; i++) CHECK(d[i] == in[i], "in-degree"); auto t = topological_sort(g); CHECK((int)t.size() == n, "every vertex once"); int pos[8]; unsigned seen = 0; for (int i = 0; i < n; i++) { CHECK(t[i] >= 0 && t[i] < n, "vertex"); pos[t[i]] = i; seen |= 1u << t[i]; } CHECK(seen == (1u << n) - 1, "every vertex once"); for (int u = 0; u < n; u++) for (auto& e : g[u]) CHECK(pos[u] < pos[e.v], "edges go forward"); }
static void sccCheck(const G& g, bool m[8][8]) { int n = g.size(); bool r[8][8] = {}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = i == j || m[i][j]; reach(n, r); auto s = tarjan_scc(g); int c[8]; unsigned seen = 0; int cnt = 0; for (int k = 0; k < (int)s.size(); k++) { CHECK(!s[k].empty(), "no empty component"); for (int v : s[k]) { c[v] = k; seen |= 1u << v; cnt++; } } CHECK(cnt == n && seen == (1u << n) - 1, "partition"); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { CHECK((c[u] == c[v]) == (r[u][v] && r[v][u]), "same component iff mutually reachable"); if (m[u][v]) CHECK(c[u] <= c[v], "components in topological order"); } }
//@ E02 scc_any t=100 N=4 -- tarjan_scc: every directed graph on 4 vertices, both adjacency orders
ENTRY scc_any() { bool m[8][8] = {}; G g = digraph(sv_param("N", 4), false, m); sccCheck(g, m); }
//@ E02 scc_ring t=100 -- tarjan_scc: 6 vertices, two optional rings, two or three more edges anywhere, self loops
ENTRY scc_ring() { int n = 6; bool m[8][8] = {}; int a = (int)sv_choose("ring", 4); for (int i = 0; i < 3; i++) { if (a & 1) m[i][(i + 1) % 3] = true; if (a & 2) m[3 + i][3 + (i + 1) % 3] = true; } for (int k = 0; k < (a == 3 ? 3 : 2); k++) { int u = (int)sv_choose("u", a == 3 ? 3 : 6), v = (int)sv_choose("v", 6); m[u][v] = true; } G g(n); for (int u = 0; u < n; u++) for (int v = n - 1; v >= 0; v--) if (m[u][v]) g.add_edge(u, v); sccCheck(g, m); }
//@ E02 closure_any t=100 N=4 -- transitive_closure: every directed graph; transitive_reduction of every DAG (with duplicate edges) is the unique smallest graph with the same reachability
ENTRY closure_any() { int n = sv_param("N", 4); bool m[8][8] = {}, r[8][8] = {}; G g = digraph(n, false, m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = m[i][j]; reach(n, r); G c = transitive_closure(g); int tot = 0; CHECK(c.size() == n, "size"); bool cm[8][8] = {}; for (int u = 0; u < n; u++) for (auto& e : c[u]) { cm[u][e.v] = true; tot++; } int want = 0; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v) { want += r[u][v]; CHECK(cm[u][v] == r[u][v], "closure edge iff reachable"); } CHECK(tot == want, "no loops or duplicates"); }
//@ E02 reduction_dag t=100 N=5 -- transitive_reduction
ENTRY reduction_dag() { int n = sv_param("N", 4); int p[8]; int k = (int)sv_choose("naming", 4); for (int i = 0; i < n; i++) p[i] = k == 0 ? i : k == 1 ? n - 1 - i : (i * (k == 2 ? 2 : 3)) % n; bool m[8][8] = {}, r[8][8] = {}; G g(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (sv_choose("edge", 2)) { m[p[i]][p[j]] = true; g.add_edge(p[i], p[j]); if (i == 0) g.add_edge(p[i], p[j]); } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = m[i][j]; reach(n, r); G c = transitive_reduction(g); bool cm[8][8] = {}; int tot = 0, want = 0; for (int u = 0; u < n; u++) for (auto& e : c[u]) cm[u][e.v] = true, tot++; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { bool need = m[u][v]; for (int x = 0; x < n; x++) if (r[u][x] && r[x][v]) need = false; CHECK(cm[u][v] == need, "edge kept iff there is no other path"); want += need; } CHECK(tot == want, "no duplicates"); }
static void sat2Any(int V, int C, bool extra = true) { std::vector<std::pair<int, int>> c; for (int i = 0; i < C; i++) { int a = (int)sv_choose("a", 2 * V), b = (int)sv_choose("b", a + 2) - 1; if (extra && sv_choose("swap", 2)) std::swap(a, b); c.push_back({a, b}); } if (extra && sv_choose("empty", 4) == 3) c.push_back({-1, -1}); std::vector<int> sol; int pre = (int)sv_choose("preset", 5); std::vector<int> was(V, -1); if (pre) { was[(pre - 1) / 2] = (pre - 1) % 2; sol = was; }
    bool sat = false; for (int a = 0; a < 1 << V; a++) { bool ok = true; for (int i = 0; i < V; i++) if (was[i] != -1 && was[i] != (a >> i & 1)) ok = false; for (auto& t : c) { auto lit = [&](int l) { return l >= 0 && (a >> (l / 2) & 1) == (l & 1); }; ok = ok && (lit(t.first) || lit(t.second)); } sat = sat || ok; }
    auto cc = c; bool res = sat2(sol, c); CHECK(c == cc, "clauses unchanged"); CHECK(res == sat, "satisfiable iff some assignment satisfies it"); if (res) { for (auto& t : c) { auto lit = [&](int l) { return l >= 0 && sol[l / 2] == (l & 1); }; CHECK(lit(t.first) || lit(t.second), "solution satisfies every clause"); } for (int i = 0; i < V; i++) if (was[i] != -1) CHECK(sol[i] == was[i], "presets are respected"); }
    if (!pre) { auto s = sat2(c); CHECK(s.empty() == !sat, "vector version"); } }
//@ E02 sat2_any t=100 V=3 C=2 Q:C=3 -- sat2: every formula of C clauses over V variables with single literals, empty clauses and preset values
ENTRY sat2_any() { int C = sv_param("C", 2); sat2Any(sv_param("V", 3), C, C < 3); }
//@ E02 sat2_two t=60 -- three clauses over two variables
ENTRY sat2_two() { sat2Any(2, 3, false); }
//@ E02 sat2_chain t=60 -- implication rings over 4 variables: five clauses, two literals flipped anywhere
ENTRY sat2_chain() { std::vector<std::pair<int, int>> c; int f1 = (int)sv_choose("f1", 11), f2 = (int)sv_choose("f2", 11); int k = 0; auto lit = [&](int l) { bool f = (k == f1) != (k == f2); k++; return l ^ (int)f; }; int o = (int)sv_choose("rotate", 4); for (int i = 0; i < 4; i++) { int a = (i + o) % 4, b = (i + o + 1) % 4; int x = lit(2 * a), y = lit(2 * b + 1); c.push_back({x, y}); } { int x = lit(2 * (int)sv_choose("v", 4)); int y = lit(2 * (int)sv_choose("w", 4)); c.push_back({x, y}); } bool sat = false; for (int a = 0; a < 16; a++) { bool ok = true; for (auto& t : c) ok = ok && ((a >> (t.first / 2) & 1) == (t.first & 1) || (a >> (t.second / 2) & 1) == (t.second & 1)); sat = sat || ok; } auto s = sat2(c); CHECK(s.empty() == !sat, "satisfiable iff some assignment satisfies it"); if (!s.empty()) for (auto& t : c) CHECK(s[t.first / 2] == (t.first & 1) || s[t.second / 2] == (t.second & 1), "solution satisfies every clause"); }
//@ E02 graph_edit t=100 N=3 -- graph: add_node, add_edge2, delete_edge, delete_node, contract, deduplicate_edges on every directed multigraph pattern
ENTRY graph_edit() { int n = sv_param("N", 3); bool m[8][8] = {}; int c[8][8] = {}; G g(n); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { c[u][v] = (int)sv_choose("edges", u < 2 && v >= 2 ? 3 : 2); for (int k = 0; k < c[u][v]; k++) g.add_edge(u, v); } if (n == 0) return; int op = (int)sv_choose("op", 6); int u = (int)sv_choose("u", n), v = (int)sv_choose("v", n); int tot = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tot += c[i][j]; CHECK(g.num_edges() == tot && g.size() == n, "counts");
    auto expect = [&](int k, int (*e)[8], const char* msg) { CHECK(g.size() == k, "size"); int t = 0, w = 0; for (int i = 0; i < k; i++) { int cnt[8] = {}; for (auto& x : g[i]) { CHECK(x.v >= 0 && x.v < k, "target in range"); cnt[x.v]++; t++; } for (int j = 0; j < k; j++) { CHECK(cnt[j] == e[i][j], msg); w += e[i][j]; } } CHECK(t == w && g.num_edges() == w, "edge count"); };
    switch (op) { case 0: g.delete_edge(u, v); c[u][v] = 0; expect(n, c, "delete_edge"); break;
    case 1: { if (v) return; g.delete_node(u); int e[8][8] = {}; auto old = [&](int i) { return i == u ? n - 1 : i; }; for (int i = 0; i < n - 1; i++) for (int j = 0; j < n - 1; j++) e[i][j] = c[old(i)][old(j)]; expect(n - 1, e, "delete_node: the last node takes the freed index"); break; }
    case 2: { if (u == v) return; g.contract(u, v); int f[8][8] = {}; c[u][v] = c[v][u] = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f[i == v ? u : i][j == v ? u : j] |= c[i][j] > 0; int e[8][8] = {}; auto old = [&](int i) { return i == v ? n - 1 : i; }; for (int i = 0; i < n - 1; i++) for (int j = 0; j < n - 1; j++) e[i][j] = f[old(i)][old(j)]; expect(n - 1, e, "contract"); break; }
    case 3: if (v) return; g.deduplicate_edges(u); for (int j = 0; j < n; j++) c[u][j] = c[u][j] > 0; expect(n, c, "deduplicate_edges"); for (size_t i = 1; i < g[u].size(); i++) CHECK(g[u][i - 1].v < g[u][i].v, "sorted"); break;
    case 4: g.add_edge2(u, edge(v)); c[u][v]++; c[v][u]++; expect(n, c, "add_edge2"); break;
    default: if (u || v) return; CHECK(g.add_node() == n, "index of the new node"); expect(n + 1, c, "add_node"); break; } }
//@ E02 graph_weights t=60 -- weights stay with their edges through add_edge2, delete_edge, delete_node and contract; edges are ordered by vertex
ENTRY graph_weights() { typedef weighted_edge<int> E; graph<E> g(4); int w[6]; for (auto& x : w) x = SI("w", -100, 100); int k = 0; int id[4][4]; for (int u = 0; u < 4; u++) for (int v = 0; v < u; v++) { id[u][v] = id[v][u] = k; g.add_edge2(u, E(v, w[k++])); } auto chk = [&](int a, int b, int u, int v) { int c = 0; for (auto& e : g[u]) if (e.v == v) { CHECK(e.w == w[id[a][b]], "weight"); c++; } CHECK(c == 1, "edge present once"); };
    int u = (int)sv_choose("u", 4), v = (int)sv_choose("v", 4); switch (sv_choose("op", 3)) { case 0: if (u == v) return; g.delete_edge(u, v); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b && !(a == u && b == v)) chk(a, b, a, b); CHECK(g.num_edges() == 11, "edges"); break; case 1: { g.delete_node(u); auto now = [&](int i) { return i == 3 ? u : i; }; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b && a != u && b != u) chk(a, b, now(a), now(b)); CHECK(g.num_edges() == 6, "edges"); break; }
    default: { if (u == v) return; g.contract(u, v); auto now = [&](int i) { return i == v ? u : i; }; auto now2 = [&](int i) { i = now(i); return i == 3 ? v : i; }; int o[2], q = 0; for (int a = 0; a < 4; a++) if (a != u && a != v) o[q++] = a; chk(o[0], o[1], now2(o[0]), now2(o[1])); chk(o[1], o[0], now2(o[1]), now2(o[0])); for (int i = 0; i < 2; i++) { int a = now2(o[i]), b = now2(u); int c1 = 0; for (auto& e : g[a]) if (e.v == b) { c1++; CHECK((e.w == w[id[o[i]][u]]) | (e.w == w[id[o[i]][v]]), "one of the merged weights"); } CHECK(c1 == 1, "merged edge"); } CHECK(g.size() == 3 && g.num_edges() == 6, "size"); } }
    typedef weighted_full_edge<int> F; F x(SI("xu", 0, 5), SI("xv", 0, 5), SI("xw", 0, 5)), y(SI("yu", 0, 5), SI("yv", 0, 5), SI("yw", 0, 5)); CHECK((x < y) == (x.u < y.u || (x.u == y.u && x.v < y.v)), "order of weighted edges"); CHECK((x == y) == (x.u == y.u && x.v == y.v), "equality of weighted edges"); full_edge p(x.u, x.v), q2(y.u, y.v); CHECK((p < q2) == (x < y) && (p == q2) == (x == y), "full edges"); E s(x.u, x.w), t(y.u, y.w); CHECK((s < t) == (x.u < y.u) && (s == t) == (x.u == y.u), "edges compare by vertex"); }
