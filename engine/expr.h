// Hash-consed bit-vector / floating-point expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <deque>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum K : uint8_t {
  KConst, KSym,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem,
  KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KEq, KUlt, KUle, KSlt, KSle,
  KIte, KConcat, KExtract, KZExt, KSExt,
  // floating point; operands are IEEE bit patterns (32 or 64 bit)
  KFAdd, KFSub, KFMul, KFDiv, KFSqrt, KFRound /* val = mode 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even */,
  KFEq, KFLt, KFLe, KFUno, KFPow3 /* pow(x, 1.0/3) */, KFOfSI, KFOfUI, KFToSI, KFToUI, KFCvt, KFNeg, KFAbs
};

struct SymSet { std::vector<uint64_t> bits; bool empty() const { for (auto b : bits) if (b) return false; return true; } };

struct Expr {
  K k; uint16_t w; uint32_t id;
  Expr *a, *b, *c;
  u128 val;            // constant value / symbol index / extract low bit / rounding mode
  u128 umin, umax;     // unsigned range
  i128 smin, smax;     // signed range (w <= 64 only; otherwise unused)
  const SymSet* sup;
  uint64_t ev_epoch; u128 ev_val;
  void* zb; void* zv;  // cached Z3 asts (bool / bv)
  size_t h; Expr* next;
};

struct SymInfo { std::string name; int w; uint64_t lo, hi; bool isSigned; Expr* e; };

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, int w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m)) - (i128)m; }
static inline int bitlen(u128 v) { int n = 0; if (v >> 64) { n = 64; v >>= 64; } uint64_t x = (uint64_t)v; return x ? n + 64 - __builtin_clzll(x) : n; }

static inline double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static inline float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline u128 ofD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static inline u128 ofF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

class ExprCtx {
public:
  std::vector<Expr*> table; size_t count = 0;
  std::vector<SymInfo> syms;
  std::deque<SymSet> setPool; std::map<std::vector<uint64_t>, const SymSet*> setIntern;
  std::map<std::pair<const SymSet*, const SymSet*>, const SymSet*> unionCache;
  const SymSet* emptySet;
  Expr *T, *F;
  uint64_t epoch = 1;
  std::vector<char*> arena; size_t arenaUsed = 0, arenaCap = 0;

  ExprCtx() {
    table.resize(1 << 16, nullptr);
    emptySet = internSet({});
    T = cst(1, 1); F = cst(0, 1);
  }
  const SymSet* internSet(std::vector<uint64_t> v) {
    while (!v.empty() && v.back() == 0) v.pop_back();
    auto it = setIntern.find(v); if (it != setIntern.end()) return it->second;
    setPool.push_back(SymSet{v}); auto* p = &setPool.back(); setIntern[v] = p; return p;
  }
  const SymSet* unite(const SymSet* x, const SymSet* y) {
    if (x == y || y == emptySet) return x; if (x == emptySet) return y;
    if (x > y) std::swap(x, y);
    auto key = std::make_pair(x, y);
    auto it = unionCache.find(key); if (it != unionCache.end()) return it->second;
    std::vector<uint64_t> v = x->bits; if (v.size() < y->bits.size()) v.resize(y->bits.size());
    for (size_t i = 0; i < y->bits.size(); i++) v[i] |= y->bits[i];
    return unionCache[key] = internSet(std::move(v));
  }
  static bool intersects(const SymSet* x, const SymSet* y) {
    size_t n = std::min(x->bits.size(), y->bits.size());
    for (size_t i = 0; i < n; i++) if (x->bits[i] & y->bits[i]) return true;
    return false;
  }

  Expr* raw(K k, int w, Expr* a, Expr* b, Expr* c, u128 val) {
    size_t h = (size_t)k * 0x9E3779B97F4A7C15ull + w * 1315423911u;
    h = (h ^ (a ? a->id : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (b ? b->id + 77 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ (c ? c->id + 991 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h ^ (uint64_t)val ^ (uint64_t)(val >> 64) * 31) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    size_t ix = h & (table.size() - 1);
    for (Expr* e = table[ix]; e; e = e->next)
      if (e->h == h && e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val) return e;
    if (count > table.size()) { grow(); ix = h & (table.size() - 1); }
    Expr* e = alloc();
    e->k = k; e->w = w; e->id = (uint32_t)(++count); e->a = a; e->b = b; e->c = c; e->val = val; e->h = h;
    e->ev_epoch = 0; e->zb = e->zv = nullptr;
    e->next = table[ix]; table[ix] = e;
    e->sup = emptySet;
    if (a) e->sup = a->sup; if (b) e->sup = unite(e->sup, b->sup); if (c) e->sup = unite(e->sup, c->sup);
    ranges(e);
    return e;
  }
  Expr* alloc() {
    if (arenaUsed + sizeof(Expr) > arenaCap) { arenaCap = 1 << 22; arenaUsed = 0; arena.push_back((char*)aligned_alloc(64, arenaCap)); }
    char* p = arena.back() + arenaUsed; arenaUsed += (sizeof(Expr) + 15) & ~15ull; return (Expr*)p;
  }
  void grow() {
    std::vector<Expr*> nt(table.size() * 2, nullptr);
    for (Expr* e : table) while (e) { Expr* n = e->next; size_t ix = e->h & (nt.size() - 1); e->next = nt[ix]; nt[ix] = e; e = n; }
    table.swap(nt);
  }

  static i128 sMinW(int w) { return -((i128)1 << (w - 1)); }
  static i128 sMaxW(int w) { return ((i128)1 << (w - 1)) - 1; }

  void ranges(Expr* e) {
    int w = e->w; u128 M = maskw(w);
    e->umin = 0; e->umax = M;
    bool S = w <= 64;
    if (S) { e->smin = sMinW(w); e->smax = sMaxW(w); } else { e->smin = e->smax = 0; }
    Expr *a = e->a, *b = e->b, *c = e->c;
    auto setU = [&](u128 lo, u128 hi) { if (lo > e->umin) e->umin = lo; if (hi < e->umax) e->umax = hi; };
    auto setS = [&](i128 lo, i128 hi) { if (!S) return; if (lo > e->smin) e->smin = lo; if (hi < e->smax) e->smax = hi; };
    switch (e->k) {
      case KConst: e->umin = e->umax = e->val; if (S) e->smin = e->smax = sextw(e->val, w); return;
      case KSym: {
        SymInfo& s = syms[(size_t)e->val];
        if (s.isSigned) setS((int64_t)s.lo, (int64_t)s.hi); else setU(s.lo, s.hi);
        std::vector<uint64_t> v((size_t)e->val / 64 + 1, 0); v[(size_t)e->val / 64] |= 1ull << ((size_t)e->val % 64);
        e->sup = internSet(v);
        break; }
      case KAdd: if (w <= 64) {
          u128 lo = a->umin + b->umin, hi = a->umax + b->umax; if (hi <= M) setU(lo, hi); else if (lo > M) setU(lo & M, hi & M);
          i128 l = a->smin + b->smin, h = a->smax + b->smax; if (l >= sMinW(w) && h <= sMaxW(w)) setS(l, h);
        } else if (bitlen(a->umax) < 127 && bitlen(b->umax) < 127 && a->umax + b->umax <= M) setU(a->umin + b->umin, a->umax + b->umax);
        break;
      case KSub: if (w <= 64) {
          if (a->umin >= b->umax) setU(a->umin - b->umax, a->umax - b->umin);
          i128 l = a->smin - b->smax, h = a->smax - b->smin; if (l >= sMinW(w) && h <= sMaxW(w)) setS(l, h);
        } else if (a->umin >= b->umax) setU(a->umin - b->umax, a->umax - b->umin);
        break;
      case KMul:
        if (bitlen(a->umax) + bitlen(b->umax) <= 127) { u128 hi = a->umax * b->umax; if (hi <= M) setU(a->umin * b->umin, hi); }
        if (S) {
          i128 p[4] = {0,0,0,0}; bool ok = true;
          i128 as[2] = {a->smin, a->smax}, bs[2] = {b->smin, b->smax};
          for (int i = 0; i < 4; i++) p[i] = as[i & 1] * bs[i >> 1]; // |.| <= 2^126
          i128 l = p[0], h = p[0]; for (int i = 1; i < 4; i++) { if (p[i] < l) l = p[i]; if (p[i] > h) h = p[i]; }
          if (a == b && l < 0) l = 0; // a square
          if (ok && l >= sMinW(w) && h <= sMaxW(w)) setS(l, h);
        }
        break;
      case KUDiv: if (b->umin > 0) setU(a->umin / b->umax, a->umax / b->umin); break;
      case KURem: if (b->umin > 0) setU(0, std::min(a->umax, b->umax - 1)); break;
      case KSDiv: if (S && (b->smin > 0)) { i128 m = std::max(a->smax, -a->smin); if (a->smin >= 0) setS(0, a->smax / b->smin); else if (m <= sMaxW(w)) setS(std::min(a->smin, (i128)0), std::max(a->smax, (i128)0)); } else if (S) { i128 m = std::max(a->smax, -a->smin); if (m <= sMaxW(w)) setS(-m, m); }
        break;
      case KSRem: if (S) { i128 m = std::max(b->smax, -b->smin) - 1; if (m < 0) m = 0; // b != 0 is checked by the engine before the node is used
          setS(a->smin >= 0 ? (i128)0 : std::max(a->smin, -m), a->smax <= 0 ? (i128)0 : std::min(a->smax, m)); }
        break;
      case KAnd: setU(0, std::min(a->umax, b->umax));
        if (S && a->smin >= 0) setS(0, a->smax); if (S && b->smin >= 0) setS(0, b->smax); break;
      case KOr: { int n = std::max(bitlen(a->umax), bitlen(b->umax)); setU(std::max(a->umin, b->umin), maskw(n)); break; }
      case KXor: { int n = std::max(bitlen(a->umax), bitlen(b->umax)); setU(0, maskw(n)); break; }
      case KShl: if (b->k == KConst && b->val < (u128)w && bitlen(a->umax) + (int)b->val <= w) setU(a->umin << (int)b->val, a->umax << (int)b->val); break;
      case KLShr: if (b->k == KConst && b->val < (u128)w) setU(a->umin >> (int)b->val, a->umax >> (int)b->val); else setU(0, a->umax); break;
      case KAShr: if (S && b->k == KConst && b->val < (u128)w) setS(a->smin >> (int)b->val, a->smax >> (int)b->val); break;
      case KIte: setU(std::min(b->umin, c->umin), std::max(b->umax, c->umax)); if (S) setS(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); break;
      case KConcat: setU((a->umin << b->w) | b->umin, (a->umax << b->w) | b->umax); break;
      case KExtract: if (e->val == 0) {
          if (a->umax <= M) setU(a->umin, a->umax);
          if (S && a->w <= 64 && a->smin >= sMinW(w) && a->smax <= sMaxW(w)) setS(a->smin, a->smax);
        } else { u128 hi = a->umax >> (int)e->val, lo = a->umin >> (int)e->val; if (hi <= M) setU(lo, hi); }
        break;
      case KZExt: setU(a->umin, a->umax); break;
      case KSExt: if (S) setS(a->smin, a->smax); if (a->w <= 64 && a->smin >= 0) setU(a->umin, a->umax); break;
      default: break;
    }
    if (S) { // reconcile
      for (int it = 0; it < 2; it++) {
        if (e->smin >= 0) { setU((u128)e->smin, (u128)e->smax); }
        else if (e->smax < 0) { setU((u128)e->smin & M, (u128)e->smax & M); }
        if (e->umax <= (u128)sMaxW(w)) setS((i128)e->umin, (i128)e->umax);
        else if (e->umin > (u128)sMaxW(w)) setS(sextw(e->umin, w), sextw(e->umax, w));
      }
    }
  }

  Expr* cst(u128 v, int w) { return raw(KConst, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  Expr* boolc(bool b) { return b ? T : F; }

  Expr* newSym(const std::string& name, int w, bool sg, uint64_t lo, uint64_t hi) {
    syms.push_back({name, w, lo, hi, sg, nullptr});
    Expr* e = raw(KSym, w, nullptr, nullptr, nullptr, syms.size() - 1);
    syms.back().e = e;
    return e;
  }

  // ---- smart constructors ----
  Expr* mkNot(Expr* a) {
    if (a->w == 1) {
      if (a->k == KConst) return boolc(!a->val);
      if (a->k == KXor && a->b == T) return a->a;
      if (a->k == KUlt) return raw(KUle, 1, a->b, a->a, nullptr, 0);
      if (a->k == KUle) return raw(KUlt, 1, a->b, a->a, nullptr, 0);
      if (a->k == KSlt) return raw(KSle, 1, a->b, a->a, nullptr, 0);
      if (a->k == KSle) return raw(KSlt, 1, a->b, a->a, nullptr, 0);
      return raw(KXor, 1, a, T, nullptr, 0);
    }
    return mkXor(a, cst(maskw(a->w), a->w));
  }
  Expr* fold(Expr* e) { // constant range collapse
    if (e->k != KConst && e->umin == e->umax) return cst(e->umin, e->w);
    return e;
  }
  Expr* mkAdd(Expr* a, Expr* b) {
    int w = a->w;
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) {
      if (a->k == KConst) return cst(a->val + b->val, w);
      if (b->val == 0) return a;
      if (a->k == KAdd && a->b->k == KConst) return mkAdd(a->a, cst(a->b->val + b->val, w));
      if (a->k == KIte && a->b->k == KConst && a->c->k == KConst) return mkIte(a->a, cst(a->b->val + b->val, w), cst(a->c->val + b->val, w));
    } else {
      if (a->k == KAdd && a->b->k == KConst && b->k == KAdd && b->b->k == KConst) return mkAdd(mkAdd(a->a, b->a), cst(a->b->val + b->b->val, w));
      if (a->k == KAdd && a->b->k == KConst) return mkAdd(mkAdd(a->a, b), a->b);
      if (b->k == KAdd && b->b->k == KConst) return mkAdd(mkAdd(a, b->a), b->b);
      if (b->k == KSub && b->b == a) return b->a;
      if (a->k == KSub && a->b == b) return a->a;
      if (a->id > b->id) std::swap(a, b);
    }
    if (w == 1) return mkXor(a, b);
    return fold(raw(KAdd, w, a, b, nullptr, 0));
  }
  Expr* mkSub(Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return cst(0, w);
    if (b->k == KConst) return mkAdd(a, cst((u128)0 - b->val, w));
    if (a->k == KAdd && a->b == b) return a->a;
    if (a->k == KAdd && a->a == b) return a->b;
    if (b->k == KAdd && b->b->k == KConst) return mkAdd(mkSub(a, b->a), cst((u128)0 - b->b->val, w));
    if (a->k == KAdd && a->b->k == KConst) return mkAdd(mkSub(a->a, b), a->b);
    if (b->k == KSub && b->a == a) return b->b;
    if (b->k == KSub && b->a->k == KConst && b->a->val == 0) return mkAdd(a, b->b);
    if (w == 1) return mkXor(a, b);
    return fold(raw(KSub, w, a, b, nullptr, 0));
  }
  // narrow widths: returns k<w if both operands fit unsigned in k bits, else w
  int uneed(Expr* a) { return std::max(1, bitlen(a->umax)); }
  int sneed(Expr* a) { if (a->w > 64) return 128; int x = bitlen(a->smax < 0 ? (u128)(-a->smax - 1) : (u128)a->smax), y = bitlen(a->smin < 0 ? (u128)(-a->smin - 1) : (u128)a->smin); return std::max(x, y) + 1; }
  Expr* mkMul(Expr* a, Expr* b) {
    int w = a->w;
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) {
      if (a->k == KConst) return cst(a->val * b->val, w);
      if (b->val == 0) return b; if (b->val == 1) return a;
      if (b->val == maskw(w)) return mkSub(cst(0, w), a);
      if ((b->val & (b->val - 1)) == 0) return mkShl(a, cst(bitlen(b->val) - 1, w));
      if (a->k == KMul && a->b->k == KConst) return mkMul(a->a, cst(a->b->val * b->val, w));
      if (a->k == KIte && a->b->k == KConst && a->c->k == KConst) return mkIte(a->a, cst(a->b->val * b->val, w), cst(a->c->val * b->val, w));
    } else if (a->id > b->id) std::swap(a, b);
    if (a->k == KIte && a->c->k == KConst && a->c->val == 0 && a->b->k == KConst && a->b->val == 1) return mkIte(a->a, b, a->c);
    if (b->k == KIte && b->c->k == KConst && b->c->val == 0 && b->b->k == KConst && b->b->val == 1) return mkIte(b->a, a, b->c);
    if (w == 1) return mkAnd(a, b);
    int need = uneed(a) + uneed(b);
    if (need < w) return mkZExt(mkMul(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
    if (w <= 64) { int sn = sneed(a) + sneed(b); if (sn < w && (a->smin < 0 || b->smin < 0)) return mkSExt(mkMul(mkExtract(a, 0, sn), mkExtract(b, 0, sn)), w); }
    return fold(raw(KMul, w, a, b, nullptr, 0));
  }
  Expr* mkUDiv(Expr* a, Expr* b) {
    int w = a->w;
    if (b->k == KConst) {
      if (b->val == 1) return a;
      if (a->k == KConst && b->val) return cst(a->val / b->val, w);
      if (b->val && (b->val & (b->val - 1)) == 0) return mkLShr(a, cst(bitlen(b->val) - 1, w));
      if (a->umax < b->val) return cst(0, w);
      if (b->val && a->k == KMul && a->b->k == KConst && a->b->val == b->val && bitlen(a->a->umax) + bitlen(b->val) <= w) return a->a;
    }
    if (b->umin > 0 && a->umax < b->umin) return cst(0, w);
    int need = std::max(uneed(a), uneed(b));
    if (need < w && b->umin > 0) return mkZExt(mkUDiv(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
    return fold(raw(KUDiv, w, a, b, nullptr, 0));
  }
  Expr* mkURem(Expr* a, Expr* b) {
    int w = a->w;
    if (b->k == KConst) {
      if (b->val == 1) return cst(0, w);
      if (a->k == KConst && b->val) return cst(a->val % b->val, w);
      if (b->val && (b->val & (b->val - 1)) == 0) return mkAnd(a, cst(b->val - 1, w));
    }
    if (b->umin > 0 && a->umax < b->umin) return a;
    int need = std::max(uneed(a), uneed(b));
    if (need < w && b->umin > 0) return mkZExt(mkURem(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
    return fold(raw(KURem, w, a, b, nullptr, 0));
  }
  Expr* mkSDiv(Expr* a, Expr* b) {
    int w = a->w;
    if (a->k == KConst && b->k == KConst && b->val) { i128 y = sextw(b->val, w); if (y == -1) return cst((u128)0 - a->val, w); return cst((u128)(sextw(a->val, w) / y), w); }
    if (b->k == KConst && b->val == 1) return a;
    if (w <= 64) {
      if (a->smin >= 0 && b->smin >= 0) return mkUDiv(a, b);
      int need = std::max(sneed(a), sneed(b)) + 1; // +1: min / -1
      if (need < w) return mkSExt(mkSDiv(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
    }
    return fold(raw(KSDiv, w, a, b, nullptr, 0));
  }
  Expr* mkSRem(Expr* a, Expr* b) {
    int w = a->w;
    if (a->k == KConst && b->k == KConst && b->val) { i128 y = sextw(b->val, w); if (y == -1) return cst(0, w); return cst((u128)(sextw(a->val, w) % y), w); }
    if (b->k == KConst && b->val == 1) return cst(0, w);
    if (w <= 64) {
      if (a->smin >= 0 && b->smin >= 0) return mkURem(a, b);
      int need = std::max(sneed(a), sneed(b));
      if (need < w) return mkSExt(mkSRem(mkExtract(a, 0, need), mkExtract(b, 0, need)), w);
    }
    return fold(raw(KSRem, w, a, b, nullptr, 0));
  }
  Expr* mkAnd(Expr* a, Expr* b) {
    int w = a->w; u128 M = maskw(w);
    if (a == b) return a;
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) {
      if (a->k == KConst) return cst(a->val & b->val, w);
      if (b->val == 0) return b; if (b->val == M) return a;
      if ((b->val & (b->val + 1)) == 0) { // low mask
        int n = bitlen(b->val);
        if (a->umax <= b->val) return a;
        return mkZExt(mkExtract(a, 0, n), w);
      }
      if (a->k == KAnd && a->b->k == KConst) return mkAnd(a->a, cst(a->b->val & b->val, w));
      // single contiguous field: extract then shift back
      u128 low = b->val & (~b->val + 1); int sh = bitlen(low) - 1; u128 f = b->val >> sh;
      if ((f & (f + 1)) == 0) {
        int n = bitlen(f);
        Expr* x = mkExtract(a, sh, n);
        Expr* y = mkConcat(x, cst(0, sh));
        return mkZExt(y, w);
      }
      if (a->k == KIte && a->b->k == KConst && a->c->k == KConst) return mkIte(a->a, cst(a->b->val & b->val, w), cst(a->c->val & b->val, w));
      if (a->k == KZExt && w > a->a->w && (b->val & maskw(a->a->w)) != b->val) return mkAnd(a, cst(b->val & maskw(a->a->w), w));
    } else {
      if (w == 1) {
        if (a->k == KXor && a->b == T && a->a == b) return F;
        if (b->k == KXor && b->b == T && b->a == a) return F;
        if (a->k == KAnd && (a->a == b || a->b == b)) return a;
        if (b->k == KAnd && (b->a == a || b->b == a)) return b;
      }
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkAnd(a->a, b->a), w);
      if (w > 1 && a->k == KSExt && a->a->w == 1) return mkIte(a->a, b, cst(0, w));
      if (w > 1 && b->k == KSExt && b->a->w == 1) return mkIte(b->a, a, cst(0, w));
      if (a->id > b->id) std::swap(a, b);
    }
    return fold(raw(KAnd, w, a, b, nullptr, 0));
  }
  Expr* mkOr(Expr* a, Expr* b) {
    int w = a->w; u128 M = maskw(w);
    if (a == b) return a;
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) {
      if (a->k == KConst) return cst(a->val | b->val, w);
      if (b->val == 0) return a; if (b->val == M) return b;
      if (a->k == KIte && a->b->k == KConst && a->c->k == KConst) return mkIte(a->a, cst(a->b->val | b->val, w), cst(a->c->val | b->val, w));
    } else {
      if (w == 1) {
        if (a->k == KXor && a->b == T && a->a == b) return T;
        if (b->k == KXor && b->b == T && b->a == a) return T;
        if (a->k == KOr && (a->a == b || a->b == b)) return a;
        if (b->k == KOr && (b->a == a || b->b == a)) return b;
      }
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkOr(a->a, b->a), w);
      // disjoint or -> concat:  (x << n) | zext(y), y fits n bits
      if (Expr* r = orConcat(a, b)) return r;
      if (Expr* r = orConcat(b, a)) return r;
      if (a->id > b->id) std::swap(a, b);
    }
    return fold(raw(KOr, w, a, b, nullptr, 0));
  }
  Expr* orConcat(Expr* hi, Expr* lo) {
    // hi has n low zero bits syntactically (Concat(x, 0_n) or ZExt thereof), lo < 2^n
    int w = hi->w; Expr* h = hi; if (h->k == KZExt) h = h->a;
    if (h->k == KConcat && h->b->k == KConst && h->b->val == 0 && bitlen(lo->umax) <= h->b->w)
      return mkZExt(mkConcat(h->a, mkExtract(lo, 0, h->b->w)), w);
    return nullptr;
  }
  Expr* mkXor(Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return cst(0, w);
    if (a->k == KConst) std::swap(a, b);
    if (b->k == KConst) {
      if (a->k == KConst) return cst(a->val ^ b->val, w);
      if (b->val == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->k == KXor && a->b->k == KConst) return mkXor(a->a, cst(a->b->val ^ b->val, w));
      if (a->k == KIte && a->b->k == KConst && a->c->k == KConst) return mkIte(a->a, cst(a->b->val ^ b->val, w), cst(a->c->val ^ b->val, w));
    } else {
      if (w == 1) {
        bool na = a->k == KXor && a->b == T, nb = b->k == KXor && b->b == T;
        if (na && nb) return mkXor(a->a, b->a);
        if (na) return mkNot(mkXor(a->a, b)); if (nb) return mkNot(mkXor(a, b->a));
      }
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkXor(a->a, b->a), w);
      if (a->id > b->id) std::swap(a, b);
    }
    return fold(raw(KXor, w, a, b, nullptr, 0));
  }
  Expr* mkShl(Expr* a, Expr* b) {
    int w = a->w;
    if (b->k == KConst) {
      if (b->val == 0) return a; if (b->val >= (u128)w) return cst(0, w);
      if (a->k == KConst) return cst(a->val << (int)b->val, w);
      int n = (int)b->val;
      return mkConcat(mkExtract(a, 0, w - n), cst(0, n));
    }
    if (a->k == KConst && a->val == 0) return a;
    if (b->k == KIte && b->b->k == KConst && b->c->k == KConst) return mkIte(b->a, mkShl(a, b->b), mkShl(a, b->c));
    return fold(raw(KShl, w, a, b, nullptr, 0));
  }
  Expr* mkLShr(Expr* a, Expr* b) {
    int w = a->w;
    if (b->k == KConst) {
      if (b->val == 0) return a; if (b->val >= (u128)w) return cst(0, w);
      if (a->k == KConst) return cst(a->val >> (int)b->val, w);
      int n = (int)b->val;
      return mkZExt(mkExtract(a, n, w - n), w);
    }
    if (a->k == KConst && a->val == 0) return a;
    if (b->k == KIte && b->b->k == KConst && b->c->k == KConst) return mkIte(b->a, mkLShr(a, b->b), mkLShr(a, b->c));
    return fold(raw(KLShr, w, a, b, nullptr, 0));
  }
  Expr* mkAShr(Expr* a, Expr* b) {
    int w = a->w;
    if (b->k == KConst) {
      if (b->val == 0) return a;
      int n = b->val >= (u128)w ? w - 1 : (int)b->val;
      if (a->k == KConst) return cst((u128)(sextw(a->val, w) >> n), w);
      if (w <= 64 && a->smin >= 0) return mkLShr(a, cst(n, w));
      return mkSExt(mkExtract(a, n, w - n), w);
    }
    if (w <= 64 && a->smin >= 0) return mkLShrClamp(a, b);
    return fold(raw(KAShr, w, a, b, nullptr, 0));
  }
  Expr* mkLShrClamp(Expr* a, Expr* b) { return mkLShr(a, b); }
  bool isConstIte(Expr* a) { return a->k == KIte && (a->b->k == KConst || a->c->k == KConst); }
  Expr* mkEq(Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return T;
    if (a->k == KConst) std::swap(a, b);
    if (a->umax < b->umin || b->umax < a->umin) return F;
    if (w <= 64 && (a->smax < b->smin || b->smax < a->smin)) return F;
    if (b->k == KConst) {
      if (a->k == KConst) return boolc(a->val == b->val);
      if (w == 1) return b->val ? a : mkNot(a);
      switch (a->k) {
        case KZExt: return mkEq(a->a, cst(b->val, a->a->w)); // range check above guarantees fit
        case KSExt: if (sextw(b->val & maskw(a->a->w), a->a->w) == sextw(b->val, w)) return mkEq(a->a, cst(b->val, a->a->w)); return F;
        case KConcat: return mkAnd(mkEq(a->b, cst(b->val, a->b->w)), mkEq(a->a, cst(b->val >> a->b->w, a->a->w)));
        case KAdd: if (a->b->k == KConst) return mkEq(a->a, cst(b->val - a->b->val, w)); break;
        case KXor: if (a->b->k == KConst) return mkEq(a->a, cst(b->val ^ a->b->val, w)); break;
        case KSub: if (b->val == 0) return mkEq(a->a, a->b); if (a->a->k == KConst) return mkEq(a->b, cst(a->a->val - b->val, w)); break;
        case KIte: if (isConstIte(a)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); break;
        default: break;
      }
    } else {
      if (a->k == KZExt && b->k == KZExt) {
        if (a->a->w == b->a->w) return mkEq(a->a, b->a);
        int m = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
      }
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == KAdd && b->k == KAdd && a->b == b->b) return mkEq(a->a, b->a);
      int n = std::max(uneed(a), uneed(b));
      if (n < w) return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n));
      if (a->k == KConcat && b->k == KConcat && a->a->w == b->a->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (w <= 64) { int s = std::max(sneed(a), sneed(b)); if (s < w) return mkEq(mkExtract(a, 0, s), mkExtract(b, 0, s)); }
      if (a->id > b->id) std::swap(a, b);
    }
    return raw(KEq, 1, a, b, nullptr, 0);
  }
  Expr* mkUlt(Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return F;
    if (a->umax < b->umin) return T;
    if (a->umin >= b->umax) return F;
    if (w == 1) return mkAnd(mkNot(a), b);
    if (b->k == KConst && b->val == 1) return mkEq(a, cst(0, w));
    if (a->k == KConst && a->val == 0) return mkNot(mkEq(b, cst(0, w)));
    if (b->k == KConst && isConstIte(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (a->k == KConst && isConstIte(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    int n = std::max(uneed(a), uneed(b));
    if (n < w) return mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
    return raw(KUlt, 1, a, b, nullptr, 0);
  }
  Expr* mkUle(Expr* a, Expr* b) { return mkNot(mkUlt(b, a)); }
  Expr* mkSlt(Expr* a, Expr* b) {
    int w = a->w;
    if (a == b) return F;
    if (w <= 64) {
      if (a->smax < b->smin) return T;
      if (a->smin >= b->smax) return F;
      if ((a->smin >= 0 && b->smin >= 0)) return mkUlt(a, b);
      if (w == 1) return mkAnd(a, mkNot(b));
      if (b->k == KConst && isConstIte(a)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
      if (a->k == KConst && isConstIte(b)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
      int s = std::max(sneed(a), sneed(b)); if (s < w) return mkSlt(mkExtract(a, 0, s), mkExtract(b, 0, s));
    } else if (a->k == KConst && b->k == KConst) return boolc(sextw(a->val, w) < sextw(b->val, w));
    return raw(KSlt, 1, a, b, nullptr, 0);
  }
  Expr* mkSle(Expr* a, Expr* b) { return mkNot(mkSlt(b, a)); }
  Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (c->k == KConst) return c->val ? a : b;
    if (a == b) return a;
    if (c->k == KXor && c->b == T) { c = c->a; std::swap(a, b); }
    int w = a->w;
    if (a->k == KIte && a->a == c) a = a->b;
    if (b->k == KIte && b->a == c) b = b->c;
    if (a == b) return a;
    if (w == 1) {
      if (a == T) return mkOr(c, b); if (b == F) return mkAnd(c, a);
      if (a == F) return mkAnd(mkNot(c), b); if (b == T) return mkOr(mkNot(c), a);
      if (a == c) return mkOr(c, b); if (b == c) return mkAnd(c, a);
      if (mkNot(a) == b) return mkNot(mkXor(c, a));
    } else {
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), w);
      if (a->k == KZExt && b->k == KConst && bitlen(b->val) <= a->a->w) return mkZExt(mkIte(c, a->a, cst(b->val, a->a->w)), w);
      if (b->k == KZExt && a->k == KConst && bitlen(a->val) <= b->a->w) return mkZExt(mkIte(c, cst(a->val, b->a->w), b->a), w);
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkSExt(mkIte(c, a->a, b->a), w);
      if (a->k == KIte && a->c == b) return mkIte(mkAnd(c, a->a), a->b, b);
      if (b->k == KIte && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
      if (a->k == KAdd && a->b->k == KConst && b->k == KAdd && b->b == a->b) return mkAdd(mkIte(c, a->a, b->a), a->b);
    }
    return fold(raw(KIte, w, c, a, b, 0));
  }
  Expr* mkConcat(Expr* hi, Expr* lo) {
    int w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->k == KConst && lo->k == KConst) return cst((hi->val << lo->w) | lo->val, w);
    if (hi->k == KConst && hi->val == 0) return mkZExt(lo, w);
    if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && (int)hi->val == (int)lo->val + lo->w)
      return mkExtract(hi->a, (int)lo->val, w);
    // lo is narrowed form of the same thing (whole expr) and hi its extension
    if (hi->k == KExtract && hi->a == lo && false) return nullptr;
    if (lo->k == KConcat) { // try merging hi with lo's high part
      Expr* m = mkConcat(hi, lo->a);
      if (m->k != KConcat || m->a != hi) return mkConcat(m, lo->b);
    }
    if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && (int)hi->b->val == (int)lo->val + lo->w)
      return mkConcat(hi->a, mkExtract(lo->a, (int)lo->val, hi->b->w + lo->w));
    if (hi->k == KConcat && hi->b->k == KConst && lo->k == KConst) return mkConcat(hi->a, cst((hi->b->val << lo->w) | lo->val, hi->b->w + lo->w));
    if (hi->k == KIte && lo->k == KIte && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->k == KIte && lo->k == KConst && isConstIte(hi)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (lo->k == KIte && hi->k == KConst && isConstIte(lo)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    if (hi->k == KZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->k == KSExt) { Expr* j = mkConcat(hi->a, lo); if (j->k != KConcat) return mkSExt(j, w); }
    { Expr* x = lo->k == KSExt ? lo->a : lo; Expr* h = hi->k == KSExt ? hi->a : hi; if (h->w == 1 && h == mkExtract(x, x->w - 1, 1)) return mkSExt(x, w); }
    if (hi->k == KExtract && (int)hi->val >= lo->w && lo->k != KExtract && lo == mkExtract(hi->a, (int)hi->val - lo->w, lo->w)) return mkExtract(hi->a, (int)hi->val - lo->w, w);
    return fold(raw(KConcat, w, hi, lo, nullptr, 0));
  }
  struct ExtKey { Expr* e; int lo, n; bool operator==(const ExtKey& o) const { return e == o.e && lo == o.lo && n == o.n; } };
  struct ExtHash { size_t operator()(const ExtKey& k) const { return ((size_t)k.e >> 4) * 0x9E3779B97F4A7C15ull ^ (size_t)(k.lo * 131 + k.n) * 0xC2B2AE3D27D4EB4Full; } };
  std::unordered_map<ExtKey, Expr*, ExtHash> extMemo;
  // the operand is a DAG: without a memo the descent below is exponential in its depth
  Expr* mkExtract(Expr* a, int lo, int n) {
    if (lo == 0 && n == a->w) return a;
    bool rec = a->k == KAnd || a->k == KOr || a->k == KXor || a->k == KAdd || a->k == KSub || a->k == KMul || a->k == KIte || a->k == KConcat || a->k == KZExt || a->k == KSExt;
    if (!rec) return mkExtract1(a, lo, n);
    auto it = extMemo.find(ExtKey{a, lo, n}); if (it != extMemo.end()) return it->second;
    Expr* r = mkExtract1(a, lo, n); extMemo[ExtKey{a, lo, n}] = r; return r;
  }
  Expr* mkExtract1(Expr* a, int lo, int n) {
    if (lo == 0 && n == a->w) return a;
    if (n <= 0 || lo + n > a->w) { fprintf(stderr, "bad extract %d %d of %d\n", lo, n, a->w); abort(); }
    switch (a->k) {
      case KConst: return cst(a->val >> lo, n);
      case KExtract: return mkExtract(a->a, lo + (int)a->val, n);
      case KConcat:
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, n);
        if (lo + n <= a->b->w) return mkExtract(a->b, lo, n);
        return mkConcat(mkExtract(a->a, 0, lo + n - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
      case KZExt:
        if (lo >= a->a->w) return cst(0, n);
        if (lo + n <= a->a->w) return mkExtract(a->a, lo, n);
        return mkZExt(mkExtract(a->a, lo, a->a->w - lo), n);
      case KSExt:
        if (lo + n <= a->a->w) return mkExtract(a->a, lo, n);
        if (lo < a->a->w) return mkSExt(mkExtract(a->a, lo, a->a->w - lo), n);
        return mkSExt(mkExtract(a->a, a->a->w - 1, 1), n);
      case KAnd: return mkAnd(mkExtract(a->a, lo, n), mkExtract(a->b, lo, n));
      case KOr: return mkOr(mkExtract(a->a, lo, n), mkExtract(a->b, lo, n));
      case KXor: return mkXor(mkExtract(a->a, lo, n), mkExtract(a->b, lo, n));
      case KAdd: if (lo == 0) return mkAdd(mkExtract(a->a, 0, n), mkExtract(a->b, 0, n)); break;
      case KSub: if (lo == 0) return mkSub(mkExtract(a->a, 0, n), mkExtract(a->b, 0, n)); break;
      case KMul: if (lo == 0) return mkMul(mkExtract(a->a, 0, n), mkExtract(a->b, 0, n)); break;
      case KIte: if (isConstIte(a) || n == 1 || lo == 0) return mkIte(a->a, mkExtract(a->b, lo, n), mkExtract(a->c, lo, n)); break;
      default: break;
    }
    if (lo >= bitlen(a->umax)) return cst(0, n);
    return fold(raw(KExtract, n, a, nullptr, nullptr, lo));
  }
  Expr* mkZExt(Expr* a, int w) {
    if (a->w == w) return a;
    if (a->k == KConst) return cst(a->val, w);
    if (a->k == KZExt) return mkZExt(a->a, w);
    return fold(raw(KZExt, w, a, nullptr, nullptr, 0));
  }
  Expr* mkSExt(Expr* a, int w) {
    if (a->w == w) return a;
    if (a->k == KConst) return cst((u128)sextw(a->val, a->w), w);
    if (a->k == KSExt) return mkSExt(a->a, w);
    if (a->k == KZExt) return mkZExt(a->a, w);
    if (a->w <= 64 && a->smin >= 0) return mkZExt(a, w);
    return fold(raw(KSExt, w, a, nullptr, nullptr, 0));
  }
  Expr* mkTrunc(Expr* a, int w) { return mkExtract(a, 0, w); }
  Expr* mkBool2BV(Expr* c, int w) { return mkZExt(c, w); }
  Expr* mkF(K k, int w, Expr* a, Expr* b = nullptr, u128 v = 0) {
    bool allc = a->k == KConst && (!b || b->k == KConst);
    Expr* e = raw(k, w, a, b, nullptr, v);
    if (allc) { std::vector<u128> none; epoch++; return cst(eval(e, none), w); }
    return e;
  }
  Expr* bin(K k, Expr* a, Expr* b) {
    switch (k) {
      case KAdd: return mkAdd(a, b); case KSub: return mkSub(a, b); case KMul: return mkMul(a, b);
      case KUDiv: return mkUDiv(a, b); case KSDiv: return mkSDiv(a, b); case KURem: return mkURem(a, b); case KSRem: return mkSRem(a, b);
      case KAnd: return mkAnd(a, b); case KOr: return mkOr(a, b); case KXor: return mkXor(a, b);
      case KShl: return mkShl(a, b); case KLShr: return mkLShr(a, b); case KAShr: return mkAShr(a, b);
      case KEq: return mkEq(a, b); case KUlt: return mkUlt(a, b); case KUle: return mkUle(a, b); case KSlt: return mkSlt(a, b); case KSle: return mkSle(a, b);
      default: abort();
    }
  }

  // ---- evaluation under a model (values indexed by symbol; missing = range low) ----
  u128 symVal(size_t ix, const std::vector<u128>& m) { return ix < m.size() ? m[ix] : ((u128)syms[ix].lo & maskw(syms[ix].w)); }
  u128 evalIn(Expr* e, const std::vector<u128>& m) { epoch++; return eval(e, m); }
  u128 eval(Expr* e, const std::vector<u128>& m) {
    if (e->k == KConst) return e->val;
    if (e->ev_epoch == epoch) return e->ev_val;
    u128 r = 0; int w = e->w; u128 M = maskw(w);
    auto A = [&] { return eval(e->a, m); }; auto B = [&] { return eval(e->b, m); };
    switch (e->k) {
      case KSym: r = symVal((size_t)e->val, m); break;
      case KAdd: r = (A() + B()) & M; break;
      case KSub: r = (A() - B()) & M; break;
      case KMul: r = (A() * B()) & M; break;
      case KUDiv: { u128 y = B(); r = y ? A() / y : M; break; }
      case KURem: { u128 y = B(); r = y ? A() % y : A(); break; }
      case KSDiv: { u128 x = A(), y = B(); i128 sx = sextw(x, w), sy = sextw(y, w); if (sy == 0) r = sx < 0 ? 1 : M; else if (sy == -1) r = ((u128)0 - x) & M; else r = (u128)(sx / sy) & M; break; }
      case KSRem: { u128 x = A(), y = B(); i128 sx = sextw(x, w), sy = sextw(y, w); if (sy == 0) r = x; else if (sy == -1) r = 0; else r = (u128)(sx % sy) & M; break; }
      case KAnd: r = A() & B(); break;
      case KOr: r = A() | B(); break;
      case KXor: r = A() ^ B(); break;
      case KShl: { u128 s = B(); r = s >= (u128)w ? 0 : (A() << (int)s) & M; break; }
      case KLShr: { u128 s = B(); r = s >= (u128)w ? 0 : A() >> (int)s; break; }
      case KAShr: { u128 s = B(); int n = s >= (u128)w ? w - 1 : (int)s; r = (u128)(sextw(A(), w) >> n) & M; break; }
      case KEq: r = A() == B(); break;
      case KUlt: r = A() < B(); break;
      case KUle: r = A() <= B(); break;
      case KSlt: r = sextw(A(), e->a->w) < sextw(B(), e->a->w); break;
      case KSle: r = sextw(A(), e->a->w) <= sextw(B(), e->a->w); break;
      case KIte: r = A() ? B() : eval(e->c, m); break;
      case KConcat: r = (A() << e->b->w) | B(); break;
      case KExtract: r = (A() >> (int)e->val) & M; break;
      case KZExt: r = A(); break;
      case KSExt: r = (u128)sextw(A(), e->a->w) & M; break;
      case KFAdd: r = w == 64 ? ofD(asD(A()) + asD(B())) : ofF(asF(A()) + asF(B())); break;
      case KFSub: r = w == 64 ? ofD(asD(A()) - asD(B())) : ofF(asF(A()) - asF(B())); break;
      case KFMul: r = w == 64 ? ofD(asD(A()) * asD(B())) : ofF(asF(A()) * asF(B())); break;
      case KFDiv: r = w == 64 ? ofD(asD(A()) / asD(B())) : ofF(asF(A()) / asF(B())); break;
      case KFPow3: r = ofD(pow(asD(A()), 1.0 / 3)); break;
      case KFSqrt: r = w == 64 ? ofD(sqrt(asD(A()))) : ofF(sqrtf(asF(A()))); break;
      case KFRound: { double x = w == 64 ? asD(A()) : asF(A()); double y = 0; switch ((int)e->val) { case 0: y = floor(x); break; case 1: y = ceil(x); break; case 2: y = trunc(x); break; case 3: y = round(x); break; default: y = nearbyint(x); } r = w == 64 ? ofD(y) : ofF((float)y); break; }
      case KFEq: r = e->a->w == 64 ? asD(A()) == asD(B()) : asF(A()) == asF(B()); break;
      case KFLt: r = e->a->w == 64 ? asD(A()) < asD(B()) : asF(A()) < asF(B()); break;
      case KFLe: r = e->a->w == 64 ? asD(A()) <= asD(B()) : asF(A()) <= asF(B()); break;
      case KFUno: { double x = e->a->w == 64 ? asD(A()) : asF(A()), y = e->a->w == 64 ? asD(B()) : asF(B()); r = std::isnan(x) || std::isnan(y); break; }
      case KFOfSI: { i128 x = sextw(A(), e->a->w); r = w == 64 ? ofD((double)x) : ofF((float)x); break; }
      case KFOfUI: { u128 x = A(); r = w == 64 ? ofD((double)x) : ofF((float)x); break; }
      case KFToSI: { double x = e->a->w == 64 ? asD(A()) : asF(A()); double lim = ldexp(1.0, w - 1); if (!(x > -lim - 1 && x < lim)) r = (u128)1 << (w - 1); else r = (u128)(i128)x & M; break; }
      case KFToUI: { double x = e->a->w == 64 ? asD(A()) : asF(A()); double lim = ldexp(1.0, w); if (!(x > -1 && x < lim)) r = M; else r = (u128)x & M; break; }
      case KFCvt: { if (w == e->a->w) r = A(); else if (w == 64) r = ofD((double)asF(A())); else r = ofF((float)asD(A())); break; }
      case KFNeg: r = A() ^ ((u128)1 << (w - 1)); break;
      case KFAbs: r = A() & (M >> 1); break;
      default: abort();
    }
    e->ev_epoch = epoch; e->ev_val = r;
    return r;
  }
  std::string str(Expr* e, int depth = 6) {
    static const char* nm[] = {"c","s","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","++","ext","zx","sx","f+","f-","f*","f/","fsqrt","fround","f==","f<","f<=","funo","fsi","fui","tosi","toui","fcvt","fneg","fabs"};
    if (e->k == KConst) return std::to_string((unsigned long long)e->val);
    if (e->k == KSym) return syms[(size_t)e->val].name + "#" + std::to_string((int)e->val);
    if (depth == 0) return "..";
    std::string s = std::string("(") + nm[e->k] + std::to_string(e->w);
    if (e->k == KExtract) s += "@" + std::to_string((int)e->val);
    for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + str(x, depth - 1);
    return s + ")";
  }
};
