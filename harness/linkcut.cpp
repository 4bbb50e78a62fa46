// link_cut_tree: any history of link/cut/queries against a parent array; path aggregates in a free monoid (order and multiplicity visible)
#include "sv.h"
#include "altruct/structure/container/link_cut_tree.h"
using namespace altruct::container;
struct V { uint64_t own = 0; int len = 0; uint64_t w = 0; };
struct Up { void operator()(V& p, const V& l, const V& r) const { int n = l.len + 1 + r.len; uint64_t w = ((l.w << 4 | p.own) << (4 * r.len)) | r.w; p.len = n; p.w = w; } };
typedef link_cut_tree<V, Up> lc_t;
static V leaf(uint64_t own) { V v; v.own = own; v.len = 1; v.w = own; return v; }
static int rootOf(const int* par, int v) { while (par[v]) v = par[v]; return v; }
static int depthOf(const int* par, int v) { int d = 0; while (par[v]) v = par[v], d++; return d; }
static int lcaOf(const int* par, int a, int b) { if (rootOf(par, a) != rootOf(par, b)) return 0; int da = depthOf(par, a), db = depthOf(par, b); for (; da > db; da--) a = par[a]; for (; db > da; db--) b = par[b]; while (a != b) a = par[a], b = par[b]; return a; }
static void query(lc_t& t, const int* par, const uint64_t* own, int n, int kind) {
    int v = 1 + (int)sv_choose("v", n); switch (kind) {
    case 0: CHECK(t.find_root(v) == rootOf(par, v), "find_root"); break;
    case 1: CHECK(t.find_parent(v) == par[v], "find_parent"); break;
    case 2: { int u = 1 + (int)sv_choose("u", n); CHECK(t.find_lca(v, u) == lcaOf(par, v, u), "find_lca"); break; }
    case 3: CHECK(t.depth(v) == depthOf(par, v), "depth"); break;
    case 4: { V& r = t.get(v); uint64_t w = 0; int d = depthOf(par, v); int x = v; for (int i = 0; i <= d; i++, x = par[x]) w |= own[x] << (4 * i); CHECK(r.len == d + 1 && r.w == w, "path aggregate in order from the root to the node"); break; }
    default: { int d = depthOf(par, v), want = (int)sv_choose("d", d + 1); int x = v; for (int i = d; i > want; i--) x = par[x]; int bad = 0; int r = t.traverse(v, [&](const V& a, const V& l, const V& rr, int dep) { if (a.len != l.len + 1 + rr.len) bad = 1; return want < dep ? -1 : want > dep ? 1 : 0; }); CHECK(!bad && r == x, "traverse finds the ancestor at a depth"); break; } } }
static void history(int n, int K, bool q) {
    uint64_t live = sv_heap_live(); { uint64_t own[8]; int par[8] = {}; lc_t t{Up(), V()}; for (int i = 1; i <= n; i++) { own[i] = sv_sym_u("own", 0, 15); CHECK(t.add(leaf(own[i])) == i, "index"); } CHECK(t.size() == n, "size");
    for (int k = 0; k < K; k++) { int op = (int)sv_choose("op", q ? 3 : 2); if (op == 0) { int v = 1 + (int)sv_choose("node", n); if (par[v]) { continue; } int u = 1 + (int)sv_choose("parent", n); if (rootOf(par, u) == v) continue; t.link(v, u); par[v] = u; } else if (op == 1) { int v = 1 + (int)sv_choose("cut", n); t.cut(v); par[v] = 0; } else query(t, par, own, n, (int)sv_choose("kind", 5)); }
    query(t, par, own, n, (int)sv_choose("kind", 6)); query(t, par, own, n, 4); } CHECK(sv_heap_live() == live, "everything released"); }
//@ D05 lct_ops t=80 N=3 K=3 Q:N=4 -- link/cut/query histories
ENTRY lct_ops() { history(sv_param("N", 3), sv_param("K", 3), true); }
//@ D05 lct_links t=80 N=4 K=3 Q:N=5 Q:K=4 -- link/cut only histories, then two queries
ENTRY lct_links() { history(sv_param("N", 4), sv_param("K", 3), false); }
//@ D05 lct_forest t=80 N=5 Q:N=6 -- every rooted forest on N nodes, two accesses, a cut, and any query
ENTRY lct_forest() { int n = sv_param("N", 5); uint64_t own[8]; int par[8] = {}; lc_t t{Up(), V()}; for (int i = 1; i <= n; i++) { own[i] = sv_sym_u("own", 0, 15); t.add(leaf(own[i])); } for (int i = 2; i <= n; i++) { int p = (int)sv_choose("p", i); if (p) { t.link(i, p); par[i] = p; } } t.get(1 + (int)sv_choose("a", n)); int c = 1 + (int)sv_choose("c", n); t.cut(c); par[c] = 0; int k = (int)sv_choose("kind", 6); query(t, par, own, n, k); }
//@ D05 lct_build t=30 -- constructors from a size and from a range
ENTRY lct_build() { V a[3]; for (int i = 0; i < 3; i++) a[i] = leaf(sv_sym_u("own", 0, 15)); lc_t t(a, a + 3, Up(), V()); CHECK(t.size() == 3, "size"); t.link(2, 1); t.link(3, 2); CHECK(t.get(3).w == (a[0].own << 8 | a[1].own << 4 | a[2].own), "path"); lc_t s((size_t)3, Up(), V()); CHECK(s.size() == 3, "size"); s.link(1, 2); CHECK(s.get(1).len == 2 && s.get(3).len == 1 && s.find_root(1) == 2 && s.find_root(3) == 3, "path"); }
