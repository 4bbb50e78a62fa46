// dinic_flow, push_relabel_flow, bipartite_matching, hungarian
#include "sv.h"
#include <limits>
#include <algorithm>
#include "altruct/algorithm/graph/dinic_flow.h"
#include "altruct/algorithm/graph/push_relabel_flow.h"
#include "altruct/algorithm/graph/bipartite_matching.h"
#include "altruct/algorithm/graph/hungarian.h"
using namespace altruct::graph;
#define SI(n, lo, hi) (int)sv_sym_i(n, lo, hi)
// a symbolic amount: every comparison is decided by the solver for the whole path
struct W { int v; W(int v = 0) : v(v) {} W operator+(const W& o) const { return v + o.v; } W operator-(const W& o) const { return v - o.v; } W operator-() const { return -v; } W& operator+=(const W& o) { v += o.v; return *this; } W& operator-=(const W& o) { v -= o.v; return *this; }
    bool operator<(const W& o) const { return sv_concretize(v < o.v) != 0; } bool operator>(const W& o) const { return o < *this; } bool operator==(const W& o) const { return sv_concretize(v == o.v) != 0; } };
template<class T> using Mat = std::vector<std::vector<T>>;
static int val(const W& w) { return w.v; } static int val(int w) { return w; }
static bool pos(int x) { return sv_concretize(x > 0) != 0; }
// net[u][v]: what the flow sends from u to v (antisymmetric)
template<class T> void flowCheck(const Mat<T>& cap, int s, int t, int value, int net[8][8]) { int n = (int)cap.size(); bool ok = true; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v) ok = ok & (net[u][v] <= val(cap[u][v])); CHECK(ok, "capacities are respected"); for (int u = 0; u < n; u++) { int sum = 0; for (int v = 0; v < n; v++) if (v != u) sum += net[u][v]; CHECK(sum == (u == s ? value : u == t ? -value : 0), "flow is conserved"); }
    bool r[8] = {}; r[s] = true; for (int k = 0; k < n; k++) for (int u = 0; u < n; u++) if (r[u]) for (int v = 0; v < n; v++) if (!r[v] && u != v && pos(val(cap[u][v]) - net[u][v])) r[v] = true; CHECK(!r[t], "no augmenting path is left"); }
template<class T> void dinicCheck(const Mat<T>& cap, int s, int t, T inf) { int n = (int)cap.size(); dinic_flow<T> d(cap, inf); T f = d.calc_max_flow(s, t); int net[8][8]; bool ok = true; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { net[u][v] = val(d.flow[u][v]) - val(d.flow[v][u]); if (u != v) ok = ok & (val(d.flow[u][v]) >= 0) & (val(d.flow[u][v]) <= val(cap[u][v])); } CHECK(ok, "occupied flow within capacity"); flowCheck(cap, s, t, val(f), net); T f2 = d.calc_max_flow(s, t); CHECK(val(f2) == val(f), "repeated call"); }
template<class T> void prCheck(const Mat<T>& cap, int s, int t, T inf, int rule) { int n = (int)cap.size(); push_relabel_flow<T> d(cap, inf); T f = d.calc_max_flow(s, t, rule); int net[8][8]; bool ok = true; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { net[u][v] = val(d.flow[u][v]); ok = ok & (net[u][v] == -val(d.flow[v][u])); } CHECK(ok, "antisymmetric"); flowCheck(cap, s, t, val(f), net); }
static int C(const char*) { return SI("cap", 0, 1000000); }
static Mat<W> network(int which) { Mat<W> c; auto add = [&](int u, int v) { c[u][v] = W(C("")); }; auto size = [&](int n) { c.assign(n, std::vector<W>(n)); };
    switch (which) { case 0: size(4); add(0, 1); add(0, 2); add(1, 2); add(2, 1); add(1, 3); add(2, 3); break; // diamond, both cross edges
    case 1: size(5); add(0, 2); add(2, 1); add(1, 4); add(0, 3); add(3, 4); add(2, 3); break; // longer paths
    case 2: size(5); add(0, 1); add(1, 2); add(2, 3); add(3, 1); add(3, 4); add(4, 0); break; // a cycle inside, an edge back into the source
    case 3: size(6); add(0, 1); add(0, 2); add(1, 3); add(2, 4); add(1, 4); add(3, 5); add(4, 5); break; // two layers
    default: size(4); add(1, 0); add(0, 3); add(3, 1); add(1, 2); add(2, 3); break; } return c; }
//@ E04 dinic_sym t=100 lia=1 -- dinic_flow on five small networks, every capacity symbolic: capacities, conservation, no augmenting path left (max-flow = min-cut)
ENTRY dinic_sym() { int w = (int)sv_choose("net", 5); auto c = network(w); int n = (int)c.size(); dinicCheck<W>(c, w == 4 ? 3 : 0, w == 4 ? 2 : n - 1, W(1000000000)); }
//@ E04 pr_sym t=100 lia=1 -- push_relabel_flow (both selection rules) on the same networks
ENTRY pr_sym() { int w = (int)sv_choose("net", 5); auto c = network(w); int n = (int)c.size(); int rule = (int)sv_choose("rule", 2); prCheck<W>(c, w == 4 ? 3 : 0, w == 4 ? 2 : n - 1, W(1000000000), rule); }
//@ E04 flow_graphs t=100 -- all three algorithms on every 4-vertex unit network (any pair of directions), any source and sink
ENTRY flow_graphs() { int n = 4; Mat<int> c(n, std::vector<int>(n)); int s = (int)sv_choose("s", 2), t = 3 - (int)sv_choose("t", 2); for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v) c[u][v] = (int)sv_choose("cap", 2) * (u == 1 ? 2 : 1); int which = (int)sv_choose("alg", 3); if (which == 0) dinicCheck<int>(c, s, t, 1000); else prCheck<int>(c, s, t, 1000, which - 1); }
//@ E04 flow_caps t=100 -- a 5-vertex network with capacities 0..2 on nine edges, two of them antiparallel
ENTRY flow_caps() { int n = 5; Mat<int> c(n, std::vector<int>(n)); int E[9][2] = {{0, 1}, {0, 2}, {1, 2}, {2, 1}, {1, 3}, {2, 3}, {3, 4}, {1, 4}, {3, 0}}; for (int i = 0; i < 9; i++) c[E[i][0]][E[i][1]] = (int)sv_choose("cap", i < 8 ? 3 : 2); int which = (int)sv_choose("alg", 3); if (which == 0) dinicCheck<int>(c, 0, 4, 1000); else prCheck<int>(c, 0, 4, 1000, which - 1); }
//@ E04 flow_cross t=60 P=3 Q:P=24 lia=1 -- a 6-vertex network in which later phases use an antiparallel pair of edges in the other direction than earlier ones, in several vertex numberings
ENTRY flow_cross() { static const int E[8][4] = {{0, 1, 1, 2}, {0, 2, 1, 3}, {2, 3, 1, 3}, {1, 3, 0, 2}, {3, 1, 0, 2}, {3, 5, 1, 2}, {1, 4, 1, 2}, {4, 5, 2, 3}}; int q[6] = {0, 1, 2, 3, 4, 5}; for (int k = (int)sv_choose("order", (int)sv_param("P", 3)) * (24 / (int)sv_param("P", 3)); k > 0; k--) std::next_permutation(q + 1, q + 5); Mat<W> c(6, std::vector<W>(6)); for (int i = 0; i < 8; i++) c[q[E[i][0]]][q[E[i][1]]] = i == 4 || i == 7 ? W(SI("cap", 0, 4)) : W(E[i][2] + (int)sv_choose("cap", E[i][3] - E[i][2] + 1)); int which = (int)sv_choose("alg", 3); if (which == 0) dinicCheck<W>(c, 0, 5, W(1000)); else prCheck<W>(c, 0, 5, W(1000), which - 1); }
//@ E04 dinic_inf t=60 lia=1 -- edges of unlimited capacity, default infinity, a chain of six vertices; source equal to sink gives 0
ENTRY dinic_inf() { int n = 6; int I = std::numeric_limits<int>::max(); Mat<int> c(n, std::vector<int>(n)); int a = SI("a", 0, 1000000), b = SI("b", 0, 1000000); int at = (int)sv_choose("at", 4); for (int i = 0; i + 1 < n; i++) c[i][i + 1] = I; c[at][at + 1] = a; c[at + 1][at + 2] = b; dinic_flow<int> d(c); CHECK(d.calc_max_flow(0, 5) == (a < b ? a : b), "bottleneck"); CHECK(d.calc_max_flow(2, 2) == 0, "source is the sink"); Mat<W> cw(3, std::vector<W>(3)); push_relabel_flow<W> p(cw, W(5)); CHECK(p.calc_max_flow(1, 1).v == 0, "source is the sink"); }
//@ E04 matching_any t=60 L=2 R=2 M=2 -- the same with parallel edges
//@ E04 matching_any t=100 L=3 R=3 -- bipartite_matching: every bipartite graph of 3+3 vertices in both edge orders: selected edges are disjoint and as many as possible
ENTRY matching_any() { int L = sv_param("L", 3), R = sv_param("R", 3); std::vector<full_edge> e; for (int i = 0; i < L; i++) for (int j = 0; j < R; j++) for (int q = (int)sv_choose("edge", sv_param("M", 1) + 1); q-- > 0;) e.push_back({i, L + j}); if (sv_choose("rev", 2)) std::reverse(e.begin(), e.end()); auto m = bipartite_matching(L + R, e); unsigned used = 0; for (auto& x : m) { CHECK(std::find(e.begin(), e.end(), x) != e.end(), "selected edge exists"); CHECK(!(used >> x.u & 1) && !(used >> x.v & 1), "vertices matched once"); used |= 1u << x.u | 1u << x.v; } int best = 0; for (unsigned s = 0; s < 1u << e.size(); s++) { unsigned us = 0; int c = 0; for (size_t i = 0; i < e.size(); i++) if (s >> i & 1) { if ((us >> e[i].u & 1) || (us >> e[i].v & 1)) { c = -100; break; } us |= 1u << e[i].u | 1u << e[i].v; c++; } if (c > best) best = c; } CHECK((int)m.size() == best, "maximum matching"); }
//@ E04 matching_mixed t=60 -- 4+4 vertices with interleaved numbering and extra isolated vertices: the graph is a subset of an 8-cycle plus chords
ENTRY matching_mixed() { std::vector<full_edge> e; int l[4] = {0, 3, 4, 7}, r[4] = {1, 2, 6, 8}; for (int i = 0; i < 4; i++) { if (sv_choose("a", 2)) e.push_back({l[i], r[i]}); if (sv_choose("b", 2)) e.push_back({l[i], r[(i + 1) % 4]}); } if (sv_choose("c", 2)) e.push_back({l[0], r[2]}); struct { int m[10]; } g; for (auto& x : g.m) x = -1; auto m = bipartite_matching(10, e); unsigned used = 0; for (auto& x : m) { CHECK(!(used >> x.u & 1) && !(used >> x.v & 1), "vertices matched once"); used |= 1u << x.u | 1u << x.v; }
    struct K { static bool go(const std::vector<full_edge>& e, int u, int* mt, unsigned& seen) { for (auto& x : e) if (x.u == u && !(seen >> x.v & 1)) { seen |= 1u << x.v; if (mt[x.v] < 0 || go(e, mt[x.v], mt, seen)) { mt[x.v] = u; return true; } } return false; } }; int best = 0; for (int u : l) { unsigned seen = 0; best += K::go(e, u, g.m, seen); } CHECK((int)m.size() == best, "maximum matching"); }
template<class I> void hunCheck(hungarian<I>& h, int n, int cost[4][4]) { for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) h.cost(x, y) = I(cost[x][y]); bool mn = sv_choose("min", 2); int r = val(mn ? h.calc_min_cost() : h.calc_max_cost()); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) CHECK(val(h.cost(x, y)) == cost[x][y], "costs unchanged"); auto mx = h.get_matches_for_x(); auto my = h.get_matches_for_y(); int sum = 0; unsigned used = 0; for (int x = 0; x < n; x++) { CHECK(mx[x] >= 0 && mx[x] < n && my[mx[x]] == x, "matches are inverse"); used |= 1u << mx[x]; sum += cost[x][mx[x]]; } CHECK(used == (1u << n) - 1 && sum == r, "the matching has the returned cost");
    int p[4] = {0, 1, 2, 3}; do { int s = 0; for (int x = 0; x < n; x++) s += cost[x][p[x]]; CHECK(mn ? r <= s : r >= s, "no assignment is better"); } while (std::next_permutation(p, p + n)); }
//@ E04 hun_sym t=100 lia=1 N=3 -- hungarian: minimum and maximum assignment of 1..3 workers, every cost symbolic (negative too), against every permutation
ENTRY hun_sym() { int n = 1 + (int)sv_choose("n", sv_param("N", 3)); int c[4][4]; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) c[x][y] = SI("cost", -1000000, 1000000); hungarian<W> h; h.resize(n); hunCheck(h, n, c); }
//@ E04 hun_four t=100 lia=1 -- 4 workers, four symbolic costs
ENTRY hun_four() { int c[4][4]; for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) c[x][y] = ((x * 7 + y * 5 + x * y * 3) % 11) * 100; int o = (int)sv_choose("o", 3); for (int i = 0; i < 4; i++) { int k = (i * 5 + o * 3) % 16; c[k / 4][k % 4] = SI("cost", 0, 1000); } hungarian<W> h; h.resize(4); hunCheck(h, 4, c); }
//@ E04 hun_reuse t=60 -- the same object for sizes 3, 2, 4 in any order, costs 0..2
ENTRY hun_reuse() { hungarian<int> h; for (int k = 0; k < 2; k++) { int n = 2 + (int)sv_choose("n", 3); int c[4][4]; int p = (int)sv_choose("pattern", 12); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) c[x][y] = (x * (p + 1) + y * (p / 2 + 3) + (x ^ y) * p) % 5; h.resize(n); hunCheck(h, n, c); } }
