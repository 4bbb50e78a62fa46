// bounded_contiguous_allocator: any history of allocations and releases, copies, moves and swaps; containers on top of it
#include "sv.h"
#include <new>
#include <functional>
#include <utility>
#include "altruct/structure/container/bounded_contiguous_allocator.h"
#include "altruct/structure/container/treap.h"
using namespace altruct::container;
struct Cell { uint64_t v; uint32_t w; };
typedef bounded_contiguous_allocator<Cell> A;
struct Out { Cell* p[8]; uint64_t v[8]; int n = 0; };
// one step of the owner of `a`: take a slot or give one back
static void use(A& a, Out& o, int cap) {
  if (o.n == 0 || sv_choose("take", 2)) {
    size_t k = sv_choose("single", 2) ? 1 : 2; bool thrown = false; Cell* p = nullptr; try { p = a.allocate(k); } catch (const std::bad_alloc&) { thrown = true; }
    CHECK(thrown == (k != 1 || o.n == cap), "bad_alloc exactly when exhausted or when more than one element is asked for"); if (thrown) return;
    for (int i = 0; i < o.n; i++) CHECK(p != o.p[i], "a slot is not given out twice"); for (int i = 0; i < o.n; i++) { long d = (long)((char*)p - (char*)o.p[i]); CHECK(d % (long)sizeof(Cell) == 0 && d < (long)(cap * sizeof(Cell)) && d > -(long)(cap * sizeof(Cell)), "all slots lie in one contiguous range of `capacity` elements"); }
    uint64_t v = sv_sym_u("v", 0, UINT64_MAX); Cell c; c.v = v; c.w = (uint32_t)v; a.construct(p, c); o.p[o.n] = p; o.v[o.n++] = v;
  } else { int i = (int)sv_choose("give", o.n); a.destroy(o.p[i]); a.deallocate(o.p[i], 1); for (int j = i; j + 1 < o.n; j++) o.p[j] = o.p[j + 1], o.v[j] = o.v[j + 1]; o.n--; }
  for (int i = 0; i < o.n; i++) CHECK(o.p[i]->v == o.v[i] && o.p[i]->w == (uint32_t)o.v[i], "slots in use keep their contents");
}
//@ D07 alloc_history t=60 T=300 C=3 K=6 Q:C=4 Q:K=8 -- every history of allocate/deallocate up to the capacity and beyond
ENTRY alloc_history() { uint64_t live = sv_heap_live(); int cap = (int)sv_choose("capacity", (int)sv_param("C", 3) + 1), K = (int)sv_param("K", 6); { A a(cap); CHECK(a.capacity() == (size_t)cap, "capacity"); Out o; for (int k = 0; k < K; k++) use(a, o, cap); } CHECK(sv_heap_live() == live, "all memory is released"); sv_reach("alloc_history"); }
//@ D07 alloc_two t=60 T=300 K=3 L=2 Q:K=4 Q:L=3 -- copies take over the capacity only, moves and swaps carry the storage, and neither disturbs slots in use
ENTRY alloc_two() {
  uint64_t live = sv_heap_live(); int ca = 1 + (int)sv_choose("ca", 2), cb = 1 + (int)sv_choose("cb", 2), K = (int)sv_param("K", 3), L = (int)sv_param("L", 2);
  { A a(ca), b(cb); Out oa, ob; for (int k = 0; k < K; k++) use(a, oa, ca); if (sv_choose("used", 2)) use(b, ob, cb);
    switch (sv_choose("how", 6)) {
    case 0: { A c(a); CHECK(c.capacity() == (size_t)ca && c == c && c != a, "copy has the same capacity"); Out oc; for (int k = 0; k < L; k++) { use(c, oc, ca); use(a, oa, ca); } break; }
    case 1: { A c(std::move(a)); CHECK(c.capacity() == (size_t)ca, "moved allocator has the capacity"); for (int k = 0; k < L; k++) use(c, oa, ca); break; }
    case 2: { std::swap(a, b); CHECK(a.capacity() == (size_t)cb && b.capacity() == (size_t)ca, "swapped capacities"); for (int k = 0; k < L; k++) { use(a, ob, cb); use(b, oa, ca); } break; }
    case 3: { ob.n = 0; b = a; CHECK(b.capacity() == (size_t)ca, "assigned capacity"); for (int k = 0; k < L; k++) { use(b, ob, ca); use(a, oa, ca); } break; }
    case 4: { bounded_contiguous_allocator<uint16_t> c(a), d(5); d = a; CHECK(c.capacity() == (size_t)ca && d.capacity() == (size_t)ca, "rebound allocator has the same capacity"); uint16_t* p = c.allocate(1); uint16_t* q = d.allocate(1); CHECK((void*)p != (void*)q, "own storage"); *p = 1; *q = 2; for (int k = 0; k < L; k++) use(a, oa, ca); c.deallocate(p, 1); d.deallocate(q, 1); break; }
    default: { a = *&a; CHECK(a.capacity() == (size_t)ca, "self-assignment"); for (int k = 0; k < L; k++) use(a, oa, ca); break; } }
  }
  CHECK(sv_heap_live() == live, "all memory is released"); sv_reach("alloc_two");
}
struct Lt { bool operator()(int a, int b) const { return sv_concretize(a < b) != 0; } };
struct Rnd { Rnd() {} Rnd(int (*)()) {} int operator()() const { return (int)sv_choose("priority", 2); } };
typedef bounded_contiguous_allocator<bst_node<int>> NA;
typedef binary_search_tree<int, int, bst_duplicate_handling::STORE, Lt, NA> BT; typedef treap<int, int, bst_duplicate_handling::STORE, Lt, Rnd, NA> TT;
static BT mk(BT*, int cap) { return BT(Lt(), NA(cap)); } static TT mk(TT*, int cap) { return TT(Lt(), Rnd(), NA(cap)); }
struct Ms { int k[8]; int n = 0; void put(int x) { int i = n++; while (i > 0 && sv_concretize(x < k[i - 1])) { k[i] = k[i - 1]; i--; } k[i] = x; } void cut(int i) { for (int j = i; j + 1 < n; j++) k[j] = k[j + 1]; n--; } };
template<typename T> void same(T& t, const Ms& m) { CHECK((int)t.size() == m.n, "size"); int i = 0; for (int x : t) { CHECK(i < m.n && x == m.k[i], "contents in order"); i++; } CHECK(i == m.n, "all elements"); }
template<typename T> void stepT(T& t, Ms& m, int cap) { // one node of the capacity is the sentinel
  if (m.n == 0 || sv_choose("insert", 2)) { int x = (int)sv_sym_i("x", -20, 20); bool thrown = false; try { t.insert(x); } catch (const std::bad_alloc&) { thrown = true; } CHECK(thrown == (m.n + 1 >= cap), "insertion fails exactly when the storage is exhausted"); if (!thrown) m.put(x); }
  else { int i = (int)sv_choose("erase", m.n); auto it = t.begin(); for (int j = 0; j < i; j++) ++it; t.erase(it); m.cut(i); } same(t, m); }
template<typename T> void onAlloc(int K) {
  uint64_t live = sv_heap_live(); int cap = 3;
  { T t = T(mk((T*)0, cap)); Ms m; for (int k = 0; k < K; k++) stepT(t, m, cap);
    switch (sv_choose("how", 5)) { case 0: break;
    case 1: { T u(t); Ms n = m; same(u, n); stepT(u, n, cap); stepT(t, m, cap); break; }
    case 2: { T u(mk((T*)0, 2)); Ms n; stepT(u, n, 2); u.swap(t); same(u, m); same(t, n); stepT(u, m, cap); stepT(t, n, 2); break; }
    case 3: { T u(mk((T*)0, 2)); Ms n; stepT(u, n, 2); u = t; n = m; same(u, n); stepT(u, n, cap); stepT(t, m, cap); break; }
    default: { T u(std::move(t)); same(u, m); stepT(u, m, cap); break; } } }
  CHECK(sv_heap_live() == live, "all memory is released");
}
//@ D07 alloc_bst t=60 T=300 K=3 Q:K=5 -- binary_search_tree on a bounded allocator: contents, failure when full, copies, assignment, swap, move
ENTRY alloc_bst() { onAlloc<BT>((int)sv_param("K", 3)); sv_reach("alloc_bst"); }
//@ D07 alloc_treap t=60 T=300 K=3 Q:K=4 -- treap on a bounded allocator
ENTRY alloc_treap() { onAlloc<TT>((int)sv_param("K", 3)); sv_reach("alloc_treap"); }
