// lazy_treap: any history of insertions, erasures and range updates against an ordered sequence; payloads and updates are symbolic
#include "sv.h"
#include "field.h"
#include <limits>
#include <functional>
#include "altruct/structure/container/lazy_treap.h"
using namespace altruct::container;
typedef W32 W;
// payload v; aggregate: h = v0 X^(n-1) + .. + v(n-1) (not commutative), s = 1 + X + .. + X^(n-1), p = X^n; pending update: v -> a v + b for the nodes below
static W X;
struct Nd { int key, n; W v, h, s, p, a, b; Nd() : key(0), n(0), v(W(0)), h(W(0)), s(W(0)), p(W(1)), a(W(1)), b(W(0)) {} Nd(int k, W w) : key(k), n(1), v(w), h(w), s(W(1)), p(X), a(W(1)), b(W(0)) {} void apply(W x, W y) { v = x * v + y; h = x * h + y * s; a = x * a; b = x * b + y; } };
struct Lt { bool operator()(const Nd& x, const Nd& y) const { return x.key < y.key; } };
struct Up { int tag; Up(int t = 0) : tag(t) {} void operator()(Nd& q, const Nd& l, const Nd& r) const { q.n = tag == 1 ? l.n + 1 + r.n : 99; q.h = (l.h * X + q.v) * r.p + r.h; q.s = (l.s * X + W(1)) * r.p + r.s; q.p = l.p * X * r.p; } };
struct Dn { int tag; Dn(int t = 0) : tag(t) {} void operator()(Nd& q, Nd& l, Nd& r) const { if (tag == 1) l.apply(q.a, q.b), r.apply(q.a, q.b); q.a = W(1); q.b = W(0); } };
static int forced = -1; // >= 0: the next priority
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() const { return forced >= 0 ? forced : (int)sv_choose("priority", (int)sv_param("R", 3)); } };
typedef lazy_treap<Nd, Lt, Up, Dn, Rnd> LT;
struct Model { int key[8]; W v[8]; int n = 0; int lo(int k) const { int i = 0; while (i < n && key[i] < k) i++; return i; } int up(int k) const { int i = 0; while (i < n && key[i] <= k) i++; return i; } void put(int at, int k, W w) { for (int j = n; j > at; j--) key[j] = key[j - 1], v[j] = v[j - 1]; key[at] = k; v[at] = w; n++; } void cut(int b, int c) { for (int j = c; j < n; j++) key[b + j - c] = key[j], v[b + j - c] = v[j]; n -= c - b; } W hash(int i, int j) const { W r(0); for (; i < j; i++) r = r * X + v[i]; return r; } };
static int rankKey(const Model& m) { int d[8], n = 0; for (int i = 0; i < m.n; i++) if (!n || d[n - 1] != m.key[i]) d[n++] = m.key[i]; int c = (int)sv_choose("rank", 2 * n + 1), g = c / 2; if (c & 1) return d[g]; int lo = g ? d[g - 1] : -(1 << 20), hi = g < n ? d[g] : 1 << 20; return (lo + hi) / 2; }
template<typename IT> int shape(IT x, int depth) { if (x.size() == 0) return 0; CHECK(depth < 10, "no cycle"); int l = shape(x.left(), depth + 1), r = shape(x.right(), depth + 1); if (l) CHECK(x.left().parent() == x && x.left().it.balance() >= x.it.balance(), "links and heap order"); if (r) CHECK(x.right().parent() == x && x.right().it.balance() >= x.it.balance(), "links and heap order"); CHECK(x.size() == l + r + 1, "subtree sizes"); return x.size(); }
static LT::iterator at(LT& t, int i) { auto it = t.begin(); while (i-- > 0) ++it; return it; }
static void same(W x, W y, const char* m) { CHECK(x.v == y.v, m); }
static void verify(LT& t, const Model& m) {
  CHECK(t.size() == m.n && t.empty() == (m.n == 0), "size"); int i = 0; for (auto it = t.begin(); it != t.end(); ++it, i++) CHECK(i < m.n && (*it).key == m.key[i], "in-order key"); CHECK(i == m.n, "number of elements"); shape(t.root(), 0);
  for (int b = 0; b <= m.n; b++) for (int e = b; e <= m.n; e++) { LT c(t); Nd r = c.get(at(c, b), at(c, e)); CHECK(r.n == e - b, "number of aggregated elements"); same(r.h, m.hash(b, e), "aggregate of a range"); }
  for (int k = 0; k < m.n; k++) { LT c(t); auto it = at(c, k); c.propagate_down_to(it); same((*it).v, m.v[k], "value of an element"); }
}
//@ D08 lazy_hist t=60 T=300 N=2 K=2 R=2 Q:R=3
//@ D08 lazy_hist t=60 T=300 N=3 K=1 Q:N=4
//@ D08 lazy_hist t=60 N=0 K=3 -- from N elements of every order type and treap shape, K operations: insert, insert_before, erase by key, position or range, update of a range (given by positions or keys), lookups, copy, assignment, move, swap; then the aggregate of every range and every value
ENTRY lazy_hist() {
  X = w32("X"); int N = (int)sv_param("N", 2), K = (int)sv_param("K", 2); LT t{Up(1), Dn(1), Lt(), Rnd()}; Model m; for (int i = 0; i < N; i++) { int k = i ? rankKey(m) : 0; W w = w32("v"); t.insert(Nd(k, w)); m.put(m.up(k), k, w); }
  for (int s = 0; s < K; s++) switch (sv_choose("op", 8)) {
  case 0: { int k = rankKey(m); W w = w32("v"); auto it = t.insert(Nd(k, w)); int q = m.up(k); m.put(q, k, w); CHECK(it == at(t, q), "insert returns the new element"); break; }
  case 1: { int q = (int)sv_choose("pos", m.n + 1), k = q < m.n ? m.key[q] : q ? m.key[q - 1] : 0; W w = w32("v"); auto it = t.insert_before(at(t, q), Nd(k, w)); m.put(q, k, w); CHECK(it == at(t, q), "insert_before returns the new element"); break; }
  case 2: { int k = rankKey(m); t.erase(Nd(k, W(0))); m.cut(m.lo(k), m.up(k)); break; }
  case 3: { int q = (int)sv_choose("pos", m.n + 1); if (q < m.n) { t.erase(at(t, q)); m.cut(q, q + 1); } break; }
  case 4: { int b = (int)sv_choose("b", m.n + 1), e = b + (int)sv_choose("e", m.n - b + 1); t.erase(at(t, b), at(t, e)); m.cut(b, e); break; }
  case 5: { int b = (int)sv_choose("b", m.n + 1), e = b + (int)sv_choose("e", m.n - b + 1); W x = w32("a"), y = w32("b"); t.update(at(t, b), at(t, e), [&](Nd& q) { q.apply(x, y); }); for (int i = b; i < e; i++) m.v[i] = x * m.v[i] + y; break; }
  case 6: { int k = rankKey(m); W x = w32("a"), y = w32("b"); int b = m.lo(k), e = m.up(k); auto er = t.equal_range(Nd(k, W(0))); CHECK(er.first == at(t, b) && er.second == at(t, e) && t.find(Nd(k, W(0))) == at(t, b < e ? b : m.n), "lower_bound, upper_bound, find"); if (b < e) same((*er.first).v, m.v[b], "value of a found element"); t.update(t.lower_bound(Nd(k, W(0))), t.end(), [&](Nd& q) { q.apply(x, y); }); for (int i = b; i < m.n; i++) m.v[i] = x * m.v[i] + y; break; }
  default: { LT u{Up(2), Dn(2), Lt(), Rnd()}; u.insert(Nd(5, W(7))); switch (sv_choose("how", 4)) { case 0: u = t; CHECK(u == t && !(u < t), "copies compare equal"); t.clear(); CHECK(t.empty(), "clear"); t.swap(u); break; case 1: { LT w(std::move(t)); t = std::move(w); break; } case 2: { u.swap(t); CHECK(t.size() == 1 && (*t.begin()).key == 5, "swap"); LT w(u); t = w; break; } default: { LT w(t); t = t; t.swap(w); } } W x = w32("a"); t.update(t.begin(), t.end(), [&](Nd& q) { q.apply(x, W(1)); }); for (int i = 0; i < m.n; i++) m.v[i] = x * m.v[i] + W(1); } }
  verify(t, m); sv_reach("lazy_hist");
}
// every treap shape of N elements: the root of each interval is chosen
static void shapes(int* pr, int b, int e, int d) { if (b == e) return; int r = b + (int)sv_choose("root", e - b); pr[r] = d * 4; shapes(pr, b, r, d + 1); shapes(pr, r + 1, e, d + 1); }
//@ D08 lazy_deep t=60 N=6 K=0 -- every treap shape of N distinct elements, an update of every range, then K=1: an update, insert (new root or deep), insert_before or erase at every position; then the aggregate of every range and every value
//@ D08 lazy_deep t=100 T=300 N=4 K=1 Q:N=5
//@ D08 lazy_deep t=100 T=600 N=5 K=1 U=1 Q:U=0 -- updates of suffixes only
ENTRY lazy_deep() {
  X = w32("X"); int N = (int)sv_param("N", 5); LT t{Up(1), Dn(1), Lt(), Rnd()}; Model m; int pr[8]; shapes(pr, 0, N, 1); for (int i = 0; i < N; i++) { W w = w32("v"); forced = pr[i]; t.insert(Nd(2 * i, w)); m.put(i, 2 * i, w); }
  for (int s = 0; s <= (int)sv_param("K", 0); s++) { int op = s ? (int)sv_choose("op", 4) : 0; int b = (int)sv_choose("b", m.n + (op != 0 && op != 3)); W x = w32("a"), y = w32("b"); if (op == 1 || op == 2) forced = (int)sv_choose("deep", 2) ? 50 : 0; switch (op) {
    case 0: { int e = sv_param("U", 0) ? m.n : b + 1 + (int)sv_choose("e", m.n - b); t.update(at(t, b), at(t, e), [&](Nd& q) { q.apply(x, y); }); for (int i = b; i < e; i++) m.v[i] = x * m.v[i] + y; break; }
    case 1: t.insert(Nd(2 * b - 1, x)); m.put(b, 2 * b - 1, x); break;
    case 2: t.insert_before(at(t, b), Nd(2 * b - 1, x)); m.put(b, 2 * b - 1, x); break;
    default: t.erase(at(t, b)); m.cut(b, b + 1); } }
  verify(t, m); sv_reach("lazy_deep");
}
