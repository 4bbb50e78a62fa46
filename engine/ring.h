// Polynomial normal form of bit-vector terms over Z/2^w (and over Z/m below unsigned remainders by a constant m).
// Two terms with the same normal form are equal for every value of their atoms.
#pragma once
#include "expr.h"
#include <memory>
#include <algorithm>
#include <iterator>
#include <set>
#include <map>

struct RingPoly { std::map<std::vector<uint32_t>, i128> t; };
class Ring {
public:
  ExprCtx& X; size_t cap = 6000; std::unordered_map<uint32_t, Expr*> atomOf;
  struct Inf { std::shared_ptr<RingPoly> p; bool flipped = false, ok = false, exU = false, exS = false; i128 lo = 0, hi = 0; };
  std::unordered_map<Expr*, Inf> memo; i128 M = 0; // M != 0: coefficients modulo M, remainders by M are transparent, everything else must be exact
  bool ov = false; uint64_t proved = 0;
  Ring(ExprCtx& x) : X(x) {}
  static i128 big() { return (i128)1 << 120; }
  static i128 clampi(i128 v) { return v > big() ? big() : v < -big() ? -big() : v; }
  static i128 mulI(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) return (a < 0) == (b < 0) ? big() : -big(); return clampi(r); }
  static i128 addI(i128 a, i128 b) { return clampi(a + b); }
  Inf atom(Expr* e) {
    Inf r; r.ok = true; r.p = std::make_shared<RingPoly>(); atomOf[e->id] = e; r.p->t[{e->id}] = 1;
    if (e->w == 1) { r.exU = true; r.lo = 0; r.hi = 1; return r; }
    if (e->w <= 64) { i128 um = (i128)(maskw(e->w) >> 1); bool sg = e->smin < 0 && (e->smax - e->smin < (i128)e->umax - (i128)e->umin || (e->k == KSym && X.syms[(size_t)e->val].isSigned));
      if (sg) { r.exS = true; r.lo = e->smin; r.hi = e->smax; } else { r.exU = true; r.lo = (i128)e->umin; r.hi = (i128)e->umax; if (r.hi <= um) r.exS = true; } }
    else { r.lo = -big(); r.hi = big(); if (e->umax < ((u128)1 << 118)) { r.exU = r.exS = true; r.lo = (i128)e->umin; r.hi = (i128)e->umax; } }
    return r;
  }
  static i128 red(i128 c, int w) { return w >= 128 ? c : sextw((u128)c & maskw(w), w); }
  bool lin(RingPoly& r, const RingPoly& a, i128 k, int w) { for (auto& m : a.t) { i128 c; if (__builtin_mul_overflow(m.second, k, &c)) { ov = true; c = (i128)((u128)m.second * (u128)k); } i128& d = r.t[m.first]; i128 o = d; if (__builtin_add_overflow(o, c, &d)) { ov = true; d = (i128)((u128)o + (u128)c); } if (!d) r.t.erase(m.first); } return r.t.size() <= cap; }
  bool mul(RingPoly& r, const RingPoly& a, const RingPoly& b) {
    for (auto& x : a.t) for (auto& y : b.t) {
      std::vector<uint32_t> m; m.reserve(x.first.size() + y.first.size()); std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m));
      for (size_t i = 1; i < m.size();) if (m[i] == m[i - 1] && atomOf[m[i]]->w == 1) m.erase(m.begin() + i); else i++; // b * b = b for truth values
      if (m.size() > 40) return false;
      i128 c; if (__builtin_mul_overflow(x.second, y.second, &c)) { ov = true; c = (i128)((u128)x.second * (u128)y.second); } i128& d = r.t[m]; i128 o = d; if (__builtin_add_overflow(o, c, &d)) { ov = true; d = (i128)((u128)o + (u128)c); } if (!d) r.t.erase(m); if (r.t.size() > cap) return false; }
    return true;
  }
  void finish(Inf& r, Expr* e) { // coefficients only matter modulo 2^w unless the value is exact
    int w = e->w; if (r.lo <= -big() || r.hi >= big()) { r.exU = r.exS = false; }
    if (!r.exU && !r.exS) { for (auto it = r.p->t.begin(); it != r.p->t.end();) { it->second = red(it->second, w); if (!it->second) it = r.p->t.erase(it); else ++it; } }
  }
  // exactness of an integer combination with bounds [lo, hi] computed from exact operands
  static void fit(Inf& r, int w, bool opsExact) { r.exU = r.exS = false; if (!opsExact) { r.lo = -big(); r.hi = big(); return; } if (w < 120) { if (r.lo >= 0 && r.hi < ((i128)1 << w)) r.exU = true; if (r.lo >= -((i128)1 << (w - 1)) && r.hi < ((i128)1 << (w - 1))) r.exS = true; } }
  Inf get(Expr* e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool so = ov; ov = false; Inf r = calc(e); if (!r.ok || (M && !r.exU && !r.exS)) r = atom(e); else if (M) { auto q = std::make_shared<RingPoly>(); for (auto& m : r.p->t) if (i128 v = ((m.second % M) + M) % M) q->t[m.first] = v; r.p = q; if (ov) r = atom(e); } else if (ov) { r.exU = r.exS = false; r.lo = -big(); r.hi = big(); auto q = std::make_shared<RingPoly>(); for (auto& m : r.p->t) if (i128 v = red(m.second, e->w)) q->t[m.first] = v; r.p = q; } ov = so;
    // tighten by what is known about the node
    if (r.exU && e->w < 120) { r.lo = std::max(r.lo, (i128)e->umin); r.hi = std::min(r.hi, (i128)e->umax); } 
    if (r.exS && e->w <= 64) { r.lo = std::max(r.lo, e->smin); r.hi = std::min(r.hi, e->smax); if (r.lo >= 0) r.exU = true; }
    if (memo.size() > 400000) memo.clear();
    return memo[e] = r;
  }
  Inf flip(Expr* e, Inf v) { if (e->k != KConst || e->w > 62 || !(e->val >> (e->w - 1))) return v; v.p = std::make_shared<RingPoly>(); v.lo = v.hi = (i128)e->val; i128 c = M ? v.lo % M : v.lo; if (c) v.p->t[{}] = c; v.exU = true; v.exS = false; v.flipped = true; return v; }
  Inf calc(Expr* e) {
    Inf r; int w = e->w; if (w == 1 && e->k != KConst) { if (e->k == KXor && e->b->k == KConst) { Inf a = get(e->a); r.p = std::make_shared<RingPoly>(); if (e->b->val) { r.p->t[{}] = 1; lin(*r.p, *a.p, -1, w); } else r.p = a.p; r.ok = r.exU = true; r.lo = 0; r.hi = 1; } 
      else if (e->k == KAnd) { Inf a = get(e->a), b = get(e->b); if (!a.exU || !b.exU) return r; r.p = std::make_shared<RingPoly>(); if (!mul(*r.p, *a.p, *b.p)) return r; r.ok = r.exU = true; r.hi = 1; } return r; }
    switch (e->k) {
    case KConst: r.ok = true; r.p = std::make_shared<RingPoly>(); if (w <= 64) { i128 v = sextw(e->val, w); r.exS = true; if (v >= 0) r.exU = true; r.lo = r.hi = v; if (v) r.p->t[{}] = v; } else { r.lo = r.hi = (i128)e->val; if (e->val < ((u128)1 << 118)) r.exU = r.exS = true; else { r.lo = -big(); r.hi = big(); } if (e->val) r.p->t[{}] = (i128)e->val; } return r;
    case KAdd: case KSub: case KMul: { Inf best; for (int alt = 0; alt < 2; alt++) { Inf a = alt ? flip(e->a, get(e->a)) : get(e->a), b = alt ? flip(e->b, get(e->b)) : get(e->b); if (alt && !(a.flipped || b.flipped)) break; Inf q; q.p = std::make_shared<RingPoly>(); bool ex = (a.exU || a.exS) && (b.exU || b.exS);
        if (e->k == KMul) { if (!mul(*q.p, *a.p, *b.p)) return r; i128 v[4] = {mulI(a.lo, b.lo), mulI(a.lo, b.hi), mulI(a.hi, b.lo), mulI(a.hi, b.hi)}; q.lo = *std::min_element(v, v + 4); q.hi = *std::max_element(v, v + 4); }
        else { i128 k = e->k == KSub ? -1 : 1; if (!lin(*q.p, *a.p, 1, w) || !lin(*q.p, *b.p, k, w)) return r; q.lo = k > 0 ? addI(a.lo, b.lo) : addI(a.lo, -b.hi); q.hi = k > 0 ? addI(a.hi, b.hi) : addI(a.hi, -b.lo); }
        fit(q, w, ex); q.ok = true; if (alt && !q.exU && !q.exS) break; best = q; if (q.exU || q.exS) break; } if (best.ok) finish(best, e); return best; }
    case KShl: if (e->b->k == KConst && e->b->val < (u128)w && e->b->val < 64) { Inf a = get(e->a); i128 k = (i128)1 << (int)e->b->val; r.p = std::make_shared<RingPoly>(); if (!lin(*r.p, *a.p, k, w)) return r; r.lo = mulI(a.lo, k); r.hi = mulI(a.hi, k); fit(r, w, a.exU || a.exS); r.ok = true; finish(r, e); } return r;
    case KXor: if (e->b->k == KConst && e->b->val == maskw(w)) { Inf a = get(e->a); r.p = std::make_shared<RingPoly>(); r.p->t[{}] = -1; lin(*r.p, *a.p, -1, w); r.lo = addI(-1, -a.hi); r.hi = addI(-1, -a.lo); fit(r, w, a.exS); r.ok = true; finish(r, e); } return r;
    case KExtract: if (e->val == 0) { Inf a = get(e->a); r.p = std::make_shared<RingPoly>(*a.p); r.lo = a.lo; r.hi = a.hi; fit(r, w, a.exU || a.exS); r.ok = true; finish(r, e); } return r;
    case KZExt: { Inf a = get(e->a); if (!a.exU) return r; r = a; fit(r, w, true); return r; }
    case KSExt: { Inf a = get(e->a); if (!a.exS) { if (e->a->w == 1) { r.p = std::make_shared<RingPoly>(); lin(*r.p, *a.p, -1, w); r.lo = -1; r.hi = 0; fit(r, w, true); r.ok = true; } return r; } r = a; fit(r, w, true); return r; }
    case KConcat: { Inf h = get(e->a), l = get(e->b); if (!(l.exU) || e->b->w >= 64) return r; i128 k = (i128)1 << e->b->w; r.p = std::make_shared<RingPoly>(); if (!lin(*r.p, *h.p, k, w) || !lin(*r.p, *l.p, 1, w)) return r; r.lo = addI(mulI(h.lo, k), l.lo); r.hi = addI(mulI(h.hi, k), l.hi); fit(r, w, h.exU || h.exS); r.ok = true; finish(r, e); return r; }
    case KIte: { Inf a = get(e->b), b = get(e->c), c = get(e->a); RingPoly d; if (!lin(d, *a.p, 1, w) || !lin(d, *b.p, -1, w)) return r; r.p = std::make_shared<RingPoly>(); if (!mul(*r.p, d, *c.p) || !lin(*r.p, *b.p, 1, w)) return r; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); bool u = a.exU && b.exU, s = a.exS && b.exS; fit(r, w, u || s); if (!u) r.exU = r.exU && s && r.lo >= 0; r.ok = true; finish(r, e); return r; }
    case KURem: case KSRem: if (e->b->k == KConst && e->b->val) { Inf a = get(e->a); bool sg = e->k == KSRem; if (!(sg ? a.exS : a.exU) || (sg && a.lo < 0)) return r; i128 m = (i128)e->b->val; if (sg && w <= 64 && sextw(e->b->val, w) <= 0) return r; if (M) { if (m != M) return r; r.p = a.p; r.lo = 0; r.hi = m - 1; fit(r, w, true); r.ok = true; return r; } Expr* q = sg ? X.mkSDiv(e->a, e->b) : X.mkUDiv(e->a, e->b); if (!q || q->w != w) return r; Inf qa = atom(q); r.p = std::make_shared<RingPoly>(); if (!lin(*r.p, *a.p, 1, w) || !lin(*r.p, *qa.p, -m, w)) return r; r.lo = 0; r.hi = m - 1; fit(r, w, true); r.ok = true; return r; } return r;
    default: return r;
    }
  }
  // 1: a == b always; 0: not decided; -1: they differ always
  void mode(i128 m) { if (m != M) { M = m; memo.clear(); } }
  int equal(Expr* x, Expr* y, const std::vector<Expr*>& rel) {
    int w = x->w; std::set<u128> ms; memoM.clear(); collect(x, ms); collect(y, ms);
    if (!ms.empty()) { i128 prod = 1; i128 span = -1; bool ok = false;
      for (u128 mu : ms) { i128 m = (i128)mu; if (m > ((i128)1 << 62)) continue; mode(m); Inf a = get(x), b = get(y); bool eU = a.exU && b.exU, eS = a.exS && b.exS; if (!eU && !eS) continue; RingPoly d; ov = false; if (!lin(d, *a.p, 1, w) || !lin(d, *b.p, -1, w) || ov) continue;
        reduce(d, rel, w);
        bool z = true; i128 c0 = 0; for (auto& t : d.t) if (t.second % m) { if (t.first.empty()) c0 = t.second % m; else z = false; }
        if (!z) continue; if (c0) return -1; i128 s = std::max(a.hi - b.lo, b.hi - a.lo); if (!ok || s < span) span = s; ok = true; i128 g = gcd(prod, m); i128 f = m / g; if (prod > big() / f) continue; prod *= f; if (span < prod) return 1; } }
    mode(0); Inf a = get(x), b = get(y); RingPoly d; ov = false; if (!lin(d, *a.p, 1, w) || !lin(d, *b.p, -1, w)) return 0;
    reduce(d, rel, w);
    bool zero = true, onlyC = true; for (auto& m : d.t) if (red(m.second, w)) { zero = false; if (!m.first.empty()) onlyC = false; }
    if (zero) return 1; if (onlyC) return -1;
    static bool dbg = getenv("SV_RING") != nullptr; if (dbg) { FILE* D = fopen(getenv("SV_RING"), "a"); fprintf(D, "ring undecided\n %s\n %s\n", X.str(x, 14).c_str(), X.str(y, 14).c_str()); for (u128 mu : ms) { mode((i128)mu); for (Expr* e : {x, y}) { Inf q = get(e); fprintf(D, "mod %lld exU %d exS %d lo %lld hi %lld:", (long long)mu, q.exU, q.exS, (long long)q.lo, (long long)q.hi); int n = 0; for (auto& t : q.p->t) { fprintf(D, " + %lld", (long long)t.second); for (auto v : t.first) fprintf(D, "*[%s]", X.str(atomOf[v], 6).c_str()); if (++n > 30) break; } fprintf(D, "\n"); } } fclose(D); }
    return 0;
  }
  // what the path condition says: equations that are linear in some atom are used as substitutions
  struct Sub { uint32_t a; RingPoly r; };
  static i128 invm(i128 a, i128 m) { i128 g = m, x = 0, y = 1; a = ((a % m) + m) % m; while (a) { i128 q = g / a, t = g % a; g = a; a = t; t = x - q * y; x = y; y = t; } return g == 1 ? ((x % m) + m) % m : 0; }
  void norm(RingPoly& p) { if (M) for (auto it = p.t.begin(); it != p.t.end();) { it->second = ((it->second % M) + M) % M; if (!it->second) it = p.t.erase(it); else ++it; } }
  bool subst(RingPoly& p, const Sub& s) { bool any = false; for (auto& t : p.t) if (std::binary_search(t.first.begin(), t.first.end(), s.a)) any = true; if (!any) return true; RingPoly r;
    for (auto& t : p.t) { std::vector<uint32_t> m; int k = 0; for (uint32_t v : t.first) if (v == s.a) k++; else m.push_back(v); RingPoly f; f.t[m] = t.second; for (int i = 0; i < k; i++) { RingPoly g; if (!mul(g, f, s.r)) return false; norm(g); f = g; } if (!lin(r, f, 1, 128)) return false; }
    norm(r); p = r; return true; }
  void reduce(RingPoly& d, const std::vector<Expr*>& rel, int w) {
    if (rel.empty() || d.t.size() > 400) return; std::vector<Sub> subs; ov = false; int used = 0;
    for (Expr* e : rel) { if (++used > 60) break; RingPoly p; bool neg = e->k == KXor && e->w == 1 && e->b == X.T; Expr* c = neg ? e->a : e; 
      if (!neg && c->k == KEq && c->a->w > 1) { Inf a = get(c->a), b = get(c->b); bool ex = (a.exU && b.exU) || (a.exS && b.exS); if (!ex && (M || c->a->w < w)) continue; if (!lin(p, *a.p, 1, 128) || !lin(p, *b.p, -1, 128)) continue; }
      else if (c->w == 1 && c->k != KEq) { Inf a = get(c); if (!a.exU) continue; if (!lin(p, *a.p, 1, 128)) continue; if (!neg) { p.t[{}] -= 1; if (!p.t[{}]) p.t.erase(std::vector<uint32_t>{}); } }
      else continue;
      norm(p); bool ok = p.t.size() <= 40; for (auto& s : subs) if (ok && (!subst(p, s) || p.t.size() > 40)) ok = false; if (!ok || ov) { ov = false; continue; }
      for (auto it = p.t.rbegin(); it != p.t.rend(); ++it) if (it->first.size() == 1) { uint32_t a = it->first[0]; i128 k = M ? invm(it->second, M) : (it->second == 1 || it->second == -1) ? it->second : 0; if (!k) continue; int occ = 0; for (auto& t : p.t) if (std::binary_search(t.first.begin(), t.first.end(), a)) occ++; if (occ != 1) continue;
        Sub s; s.a = a; for (auto& t : p.t) if (t.first != it->first) { i128 v = -t.second * k; if (M) v = ((v % M) + M) % M; if (v) s.r.t[t.first] = v; } RingPoly one; for (auto& o : subs) subst(o.r, s); subs.push_back(s); break; } }
    if (ov) return; RingPoly q = d; for (auto& s : subs) if (!subst(q, s)) return; if (!ov) d = q; ov = false;
  }
  static i128 gcd(i128 a, i128 b) { while (b) { i128 t = a % b; a = b; b = t; } return a; }
private:
  std::unordered_map<Expr*, char> memoM;
  void collect(Expr* e, std::set<u128>& ms) { if (!memoM.emplace(e, 1).second) return; if ((e->k == KURem || e->k == KSRem) && e->b->k == KConst && e->b->val) ms.insert(e->b->val); for (Expr* c : {e->a, e->b, e->c}) if (c) collect(c, ms); }
};
