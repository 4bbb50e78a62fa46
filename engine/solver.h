// SMT back end: Z3 (linked) for every query; slicing + caching in front of it.
#pragma once
#include "expr.h"
#include "ring.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <functional>
#include <unistd.h>

static inline double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct SolverStats { uint64_t queries = 0, z3 = 0, sat = 0, unsat = 0, unknown = 0, cacheHit = 0, modelHit = 0, ring = 0; double time = 0, maxq = 0; };

class Solver {
public:
  ExprCtx& X; Z3_context z; Z3_solver inc = nullptr; SolverStats st;
  unsigned fastMs = 2000, hardMs = 120000; double deadline = 1e18;
  std::unordered_map<Expr*, Z3_ast> lit; std::unordered_map<Expr*, bool> ranged; size_t incCount = 0;
  std::vector<Z3_ast> symAst; std::unordered_map<Expr*, bool> fpMemo; std::unordered_map<Expr*, int> hardMemo;
  struct CacheEnt { Res r; std::vector<std::pair<int, u128>> m; };
  std::map<std::vector<uint32_t>, CacheEnt> cache;
  std::deque<std::vector<u128>> recent; std::vector<u128> candModel;
  std::function<void(const std::vector<u128>&, const std::function<bool(const std::vector<u128>&)>&)> cands; // candidate models for hard satisfiable queries
  bool lia = false; Z3_solver linc = nullptr; std::unordered_map<Expr*, Z3_ast> llit; std::unordered_map<size_t, Z3_ast> lsym; size_t lcount = 0;
  struct Lin { bool ok; Z3_ast t; i128 lo, hi; }; std::unordered_map<Expr*, Lin> linMemo; std::unordered_map<Expr*, Z3_ast> linB;
  bool dumpHard = getenv("SV_DUMP_HARD") != nullptr;

  static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
  Ring ring{X}; uint64_t rng = 88172645463325252ull;
  bool ringValid(Expr* e, const std::vector<Expr*>& rel) { if (e->k == KConst) return e->val != 0; if (e->k == KAnd && e->w == 1) return ringValid(e->a, rel) && ringValid(e->b, rel); if (e->k == KOr && e->w == 1) return ringValid(e->a, rel) || ringValid(e->b, rel); if (e->k == KXor && e->w == 1 && e->b == X.T) return ringUnsat(e->a, rel); return e->k == KEq && hasMul(e) && ring.equal(e->a, e->b, rel) == 1; }
  bool ringUnsat(Expr* e, const std::vector<Expr*>& rel) { if (e->k == KConst) return e->val == 0; if (e->k == KAnd && e->w == 1) return ringUnsat(e->a, rel) || ringUnsat(e->b, rel); if (e->k == KOr && e->w == 1) return ringUnsat(e->a, rel) && ringUnsat(e->b, rel); if (e->k == KXor && e->w == 1 && e->b == X.T) return ringValid(e->a, rel); return e->k == KEq && hasMul(e) && ring.equal(e->a, e->b, rel) == -1; }
  void randModel(const std::vector<size_t>& sy, const std::vector<u128>& model, int t) { candModel = model; for (size_t s : sy) { SymInfo& si = X.syms[s]; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; u128 v; uint64_t span = (uint64_t)si.hi - (uint64_t)si.lo; if (si.e->w > 64) v = rng; else v = (u128)((uint64_t)si.lo + (span == ~0ull ? rng : (t & 1 ? rng % (std::min<uint64_t>(span, 3) + 1) : (rng >> 20) % (span + 1)))) & maskw(si.e->w); if (candModel.size() <= s) growModel(candModel, s); candModel[s] = v; } }
  // guards the normal form: a query it calls unsatisfiable is also evaluated at a few points
  void ringSpot(Expr* cond, const std::vector<Expr*>& rel, const std::vector<size_t>& sy, const std::vector<u128>& model) { for (int t = 0; t < 3; t++) { randModel(sy, model, t); X.epoch++; bool ok = X.eval(cond, candModel) != 0; for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], candModel) != 0; if (ok) { fprintf(stderr, "normal form contradicted by evaluation: %s\n", X.str(cond, 8).c_str()); abort(); } } }
  Solver(ExprCtx& x) : X(x) {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(z, errh);
    resetInc();
  }
  void resetInc() {
    if (inc) Z3_solver_dec_ref(z, inc);
    inc = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, inc);
    lit.clear(); ranged.clear(); incCount = 0;
  }
  void setTimeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
    Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
  }
  Z3_sort bvs(int w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast num(u128 v, int w) {
    if (w <= 64) return Z3_mk_unsigned_int64(z, (uint64_t)v, bvs(w));
    Z3_ast lo = Z3_mk_unsigned_int64(z, (uint64_t)v, bvs(64)), hi = Z3_mk_unsigned_int64(z, (uint64_t)(v >> 64), bvs(w - 64));
    return Z3_mk_concat(z, hi, lo);
  }
  bool hasFP(Expr* e) {
    if (e->k == KConst || e->k == KSym) return false;
    auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
    bool r = e->k >= KFAdd; for (Expr* x : {e->a, e->b, e->c}) if (!r && x) r = hasFP(x);
    return fpMemo[e] = r;
  }
  bool hasMul(Expr* e) {
    if (e->k == KConst || e->k == KSym) return false;
    auto it = hardMemo.find(e); if (it != hardMemo.end()) return it->second;
    bool r = (e->k == KMul && e->b->k != KConst) || (e->k >= KUDiv && e->k <= KSRem); for (Expr* x : {e->a, e->b, e->c}) if (!r && x) r = hasMul(x);
    return hardMemo[e] = r;
  }
  Z3_ast toB(Expr* e) { // width-1 as Bool
    if (e->zb) return (Z3_ast)e->zb;
    Z3_ast r;
    switch (e->k) {
      case KConst: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case KAnd: { Z3_ast v[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(z, 2, v); break; }
      case KOr: { Z3_ast v[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(z, 2, v); break; }
      case KXor: r = e->b == X.T ? Z3_mk_not(z, toB(e->a)) : Z3_mk_xor(z, toB(e->a), toB(e->b)); break;
      case KIte: r = Z3_mk_ite(z, toB(e->a), toB(e->b), toB(e->c)); break;
      case KEq: r = e->a->w == 1 ? Z3_mk_iff(z, toB(e->a), toB(e->b)) : Z3_mk_eq(z, toV(e->a), toV(e->b)); break;
      case KUlt: r = Z3_mk_bvult(z, toV(e->a), toV(e->b)); break;
      case KUle: r = Z3_mk_bvule(z, toV(e->a), toV(e->b)); break;
      case KSlt: r = Z3_mk_bvslt(z, toV(e->a), toV(e->b)); break;
      case KSle: r = Z3_mk_bvsle(z, toV(e->a), toV(e->b)); break;
      case KFEq: r = Z3_mk_fpa_eq(z, toF(e->a), toF(e->b)); break;
      case KFLt: r = Z3_mk_fpa_lt(z, toF(e->a), toF(e->b)); break;
      case KFLe: r = Z3_mk_fpa_leq(z, toF(e->a), toF(e->b)); break;
      case KFUno: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(z, toF(e->a)), Z3_mk_fpa_is_nan(z, toF(e->b))}; r = Z3_mk_or(z, 2, v); break; }
      default: r = Z3_mk_eq(z, toV(e), num(1, 1)); break;
    }
    e->zb = r; return r;
  }
  Z3_sort fsort(int w) { return w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort_32(z); }
  Z3_ast toF(Expr* e) { return Z3_mk_fpa_to_fp_bv(z, toV(e), fsort(e->w)); }
  Z3_ast toV(Expr* e) {
    if (e->zv) return (Z3_ast)e->zv;
    Z3_ast r; int w = e->w; Z3_ast rne = Z3_mk_fpa_rne(z);
    auto FV = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(z, f); };
    switch (e->k) {
      case KConst: r = num(e->val, w); break;
      case KSym: { size_t ix = (size_t)e->val; if (symAst.size() <= ix) symAst.resize(ix + 1, nullptr);
        if (!symAst[ix]) { std::string nm = "s" + std::to_string(ix); symAst[ix] = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), bvs(w)); }
        r = symAst[ix]; break; }
      case KAdd: r = Z3_mk_bvadd(z, toV(e->a), toV(e->b)); break;
      case KSub: r = Z3_mk_bvsub(z, toV(e->a), toV(e->b)); break;
      case KMul: r = Z3_mk_bvmul(z, toV(e->a), toV(e->b)); break;
      case KUDiv: r = Z3_mk_bvudiv(z, toV(e->a), toV(e->b)); break;
      case KSDiv: r = Z3_mk_bvsdiv(z, toV(e->a), toV(e->b)); break;
      case KURem: r = Z3_mk_bvurem(z, toV(e->a), toV(e->b)); break;
      case KSRem: r = Z3_mk_bvsrem(z, toV(e->a), toV(e->b)); break;
      case KAnd: if (w == 1) goto viaBool; r = Z3_mk_bvand(z, toV(e->a), toV(e->b)); break;
      case KOr: if (w == 1) goto viaBool; r = Z3_mk_bvor(z, toV(e->a), toV(e->b)); break;
      case KXor: if (w == 1) goto viaBool; r = Z3_mk_bvxor(z, toV(e->a), toV(e->b)); break;
      case KShl: r = Z3_mk_bvshl(z, toV(e->a), toV(e->b)); break;
      case KLShr: r = Z3_mk_bvlshr(z, toV(e->a), toV(e->b)); break;
      case KAShr: r = Z3_mk_bvashr(z, toV(e->a), toV(e->b)); break;
      case KIte: if (w == 1) goto viaBool; r = Z3_mk_ite(z, toB(e->a), toV(e->b), toV(e->c)); break;
      case KConcat: r = Z3_mk_concat(z, toV(e->a), toV(e->b)); break;
      case KExtract: r = Z3_mk_extract(z, (int)e->val + w - 1, (int)e->val, toV(e->a)); break;
      case KZExt: r = Z3_mk_zero_ext(z, w - e->a->w, toV(e->a)); break;
      case KSExt: r = Z3_mk_sign_ext(z, w - e->a->w, toV(e->a)); break;
      case KFAdd: r = FV(Z3_mk_fpa_add(z, rne, toF(e->a), toF(e->b))); break;
      case KFSub: r = FV(Z3_mk_fpa_sub(z, rne, toF(e->a), toF(e->b))); break;
      case KFMul: r = FV(Z3_mk_fpa_mul(z, rne, toF(e->a), toF(e->b))); break;
      case KFDiv: r = FV(Z3_mk_fpa_div(z, rne, toF(e->a), toF(e->b))); break;
      case KFPow3: r = Z3_mk_fresh_const(z, "pow3", bvs(w)); break; // over-approximation
      case KFSqrt: r = FV(Z3_mk_fpa_sqrt(z, rne, toF(e->a))); break;
      case KFRound: { Z3_ast m = rne; switch ((int)e->val) { case 0: m = Z3_mk_fpa_rtn(z); break; case 1: m = Z3_mk_fpa_rtp(z); break; case 2: m = Z3_mk_fpa_rtz(z); break; case 3: m = Z3_mk_fpa_rna(z); break; }
        r = FV(Z3_mk_fpa_round_to_integral(z, m, toF(e->a))); break; }
      case KFOfSI: r = FV(Z3_mk_fpa_to_fp_signed(z, rne, toV(e->a), fsort(w))); break;
      case KFOfUI: r = FV(Z3_mk_fpa_to_fp_unsigned(z, rne, toV(e->a), fsort(w))); break;
      case KFToSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), toF(e->a), w); break;
      case KFToUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), toF(e->a), w); break;
      case KFCvt: r = FV(Z3_mk_fpa_to_fp_float(z, rne, toF(e->a), fsort(w))); break;
      case KFNeg: r = Z3_mk_bvxor(z, toV(e->a), num((u128)1 << (w - 1), w)); break;
      case KFAbs: r = Z3_mk_bvand(z, toV(e->a), num(maskw(w) >> 1, w)); break;
      default: viaBool: r = Z3_mk_ite(z, toB(e), num(1, 1), num(0, 1)); break;
    }
    e->zv = r; return r;
  }
  // Relaxation for queries about squares and cubes: the products become fresh values constrained by monotonicity, step and
  // power-of-two lemmas (all true of the integers). UNSAT of the relaxed query implies UNSAT.
  Expr* norm64(Expr* e) { // the signed value of e as a 64-bit term, with width changes removed where the ranges allow it
    if (e->w > 64) return e;
    if (e->k == KZExt) return norm64(e->a);
    if (e->k == KSExt) return norm64(e->a);
    if (e->k == KExtract && e->val == 0 && e->a->w <= 64 && e->a->smin >= 0 && e->a->umax <= (maskw(e->w) >> 1)) return norm64(e->a);
    if (e->k == KExtract && e->val == 0 && e->a->w <= 64 && e->a->smin >= 0 && e->smin >= 0 && e->a->umax <= maskw(e->w)) return norm64(e->a);
    if (e->k == KAdd && e->b->k == KConst) { i128 c = sextw(e->b->val, e->w); Expr* n = norm64(e->a); i128 lo = n->smin + c, hi = n->smax + c; if (lo == e->smin && hi == e->smax && lo >= -((i128)1 << 62) && hi <= ((i128)1 << 62)) return X.mkAdd(n, X.cst((u128)c & maskw(64), 64)); }
    return e->w == 64 ? e : X.mkSExt(e, 64);
  }
  void collectPow(Expr* e, std::unordered_map<Expr*, char>& seen, std::vector<std::pair<Expr*, Expr*>>& sq, std::vector<std::pair<Expr*, Expr*>>& cb, bool& other) {
    if (e->k == KConst || e->k == KSym || !seen.emplace(e, 1).second) return;
    if (e->k == KMul && e->b->k != KConst) {
      auto strip = [](Expr* x) { while (x->k == KZExt || x->k == KSExt) x = x->a; return x; }; auto uns = [](Expr* x) { return x->k == KZExt || x->smin >= 0; };
      auto fits = [](Expr* x, i128 lim) { return x->w <= 64 && x->smin >= -lim && x->smax <= lim; };
      if (e->a == e->b && fits(e->a, 3037000499ll)) { sq.push_back({e, e->a}); collectPow(e->a, seen, sq, cb, other); return; }
      for (int t = 0; t < 2; t++) { Expr* m = strip(t ? e->b : e->a); Expr* o = t ? e->a : e->b;
        if (m->k == KMul && m->a == m->b) { Expr* x = norm64(m->a); Expr* y = norm64(o); if (x == y && (t ? e->b : e->a)->smin >= 0 &&  fits(m->a, 2097151) && fits(o, 2097151)) { cb.push_back({e, o}); collectPow(o, seen, sq, cb, other); return; } } }
      other = true;
    }
    for (Expr* x : {e->a, e->b, e->c}) if (x) collectPow(x, seen, sq, cb, other);
  }
  bool relaxedUnsat(const std::vector<Expr*>& rel, Expr* cond, const std::vector<size_t>& sy, unsigned ms) {
    std::unordered_map<Expr*, char> seen; std::vector<std::pair<Expr*, Expr*>> sq, cb; bool other = false;
    collectPow(cond, seen, sq, cb, other); for (Expr* e : rel) collectPow(e, seen, sq, cb, other);
    if (sq.empty() && cb.empty()) return false;
    std::vector<Z3_ast> from, to, lem; Z3_sort S = bvs(64);
    auto C = [&](i128 v) { return Z3_mk_int64(z, (int64_t)v, S); }; auto add = [&](Z3_ast a, Z3_ast b) { return Z3_mk_bvadd(z, a, b); }; auto k3 = [&](Z3_ast a) { return add(a, add(a, a)); };
    auto le = [&](Z3_ast a, Z3_ast b) { return Z3_mk_bvsle(z, a, b); }; auto lt = [&](Z3_ast a, Z3_ast b) { return Z3_mk_bvslt(z, a, b); }; auto imp = [&](Z3_ast a, Z3_ast b) { lem.push_back(Z3_mk_implies(z, a, b)); };
    struct P { Z3_ast a, m, s, c; bool cube; }; std::vector<P> ps;
    auto val = [&](Expr* x) { return toV(norm64(x)); };
    auto tow = [&](Z3_ast v, int w) { return w == 64 ? v : w < 64 ? Z3_mk_extract(z, w - 1, 0, v) : Z3_mk_sign_ext(z, w - 64, v); };
    auto get = [&](Expr* x, bool cube) -> P& { Z3_ast a = val(x); for (auto& p : ps) if (p.a == a) { p.cube |= cube; return p; }
      P p; p.a = a; p.m = Z3_mk_ite(z, lt(a, C(0)), Z3_mk_bvneg(z, a), a); p.s = Z3_mk_fresh_const(z, "sq", S); p.c = Z3_mk_fresh_const(z, "cb", S); p.cube = cube; ps.push_back(p); return ps.back(); };
    for (auto& p : cb) { P& q = get(p.second, true); from.push_back(toV(p.first)); to.push_back(tow(q.c, p.first->w)); }
    for (auto& p : sq) { P& q = get(p.second, false); from.push_back(toV(p.first)); to.push_back(tow(q.s, p.first->w)); }
    for (auto& p : ps) {
      lem.push_back(le(p.m, p.s)); 
      for (int k = 0; k <= 31; k++) { imp(le(C(1ll << k), p.m), le(Z3_mk_bvshl(z, p.m, C(k)), p.s)); imp(le(p.m, C(1ll << k)), le(p.s, Z3_mk_bvshl(z, p.m, C(k))));
        if (p.cube && k <= 20) { imp(le(C(1ll << k), p.a), le(Z3_mk_bvshl(z, p.s, C(k)), p.c)); Z3_ast h[2] = {le(p.a, C(1ll << k)), le(C(0), p.a)}; imp(Z3_mk_and(z, 2, h), le(p.c, Z3_mk_bvshl(z, p.s, C(k)))); } }
      if (p.cube) { imp(le(C(0), p.a), le(p.s, Z3_mk_ite(z, Z3_mk_eq(z, p.a, C(0)), C(0), p.c))); imp(Z3_mk_eq(z, p.a, C(0)), Z3_mk_eq(z, p.c, C(0))); imp(Z3_mk_eq(z, p.a, C(-1)), Z3_mk_eq(z, p.c, C(-1))); imp(lt(p.a, C(0)), lt(p.c, C(0)));
        lem.push_back(le(C(-9223372036854775807ll), p.c)); lem.push_back(le(p.c, C(9223358842721533951ll))); }
      lem.push_back(le(p.s, C(9223372030926249001ll))); lem.push_back(le(C(0), p.s));
      for (auto& r : ps) if (&p != &r) {
        Z3_ast nx = add(p.s, add(add(p.m, p.m), C(1)));
        imp(lt(p.m, r.m), le(nx, r.s)); imp(Z3_mk_eq(z, p.m, r.m), Z3_mk_eq(z, p.s, r.s)); imp(Z3_mk_eq(z, r.m, add(p.m, C(1))), Z3_mk_eq(z, r.s, nx));
        if (p.cube && r.cube) { Z3_ast nc = add(p.c, add(k3(add(p.s, p.a)), C(1))); imp(lt(p.a, r.a), le(nc, r.c)); imp(Z3_mk_eq(z, p.a, r.a), Z3_mk_eq(z, p.c, r.c)); imp(Z3_mk_eq(z, r.a, add(p.a, C(1))), Z3_mk_eq(z, r.c, nc)); }
      }
    }
    Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, s); setTimeout(s, ms);
    auto put = [&](Z3_ast a) { Z3_solver_assert(z, s, Z3_substitute(z, a, from.size(), from.data(), to.data())); };
    for (size_t sx : sy) if (Z3_ast ra = rangeOf(sx)) put(ra);
    for (Expr* e : rel) put(toB(e)); put(toB(cond));
    for (Z3_ast l : lem) put(l);
    Z3_lbool res = Z3_solver_check(z, s); bool r = res == Z3_L_FALSE;
    if (dumpHard && !r) { fprintf(stderr, "relaxed %d: %zu sq %zu cb other=%d\ncond %s\n", (int)res, sq.size(), cb.size(), (int)other, X.str(cond, 12).c_str()); for (Expr* e : rel) fprintf(stderr, "  pc %s\n", X.str(e, 12).c_str()); if (res == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(z, s); if (m) fprintf(stderr, "%s\n", Z3_model_to_string(z, m)); } }
    Z3_solver_dec_ref(z, s); return r;
  }
  // ---- linear integer view of bit-vector terms that provably do not wrap (used first when lia=1) ----
  Z3_sort isort() { return Z3_mk_int_sort(z); }
  Z3_ast inum(i128 v) { return Z3_mk_int64(z, (int64_t)v, isort()); }
  static bool small(i128 v) { return v > -((i128)1 << 62) && v < ((i128)1 << 62); }
  // an integer term congruent to e modulo 2^w, with bounds
  Lin toL(Expr* e) {
    auto it = linMemo.find(e); if (it != linMemo.end()) return it->second;
    Lin r{false, nullptr, 0, 0}; int w = e->w;
    auto mk2 = [&](bool sub, const Lin& a, const Lin& b) { Lin q{true, nullptr, sub ? a.lo - b.hi : a.lo + b.lo, sub ? a.hi - b.lo : a.hi + b.hi}; if (!small(q.lo) || !small(q.hi)) { q.ok = false; return q; } Z3_ast v[2] = {a.t, b.t}; q.t = sub ? Z3_mk_sub(z, 2, v) : Z3_mk_add(z, 2, v); return q; };
    auto mulc = [&](const Lin& a, i128 c) { Lin q = a; if (c > ((i128)1 << 31) || c < -((i128)1 << 31)) { q.ok = false; return q; } q.lo = c >= 0 ? a.lo * c : a.hi * c; q.hi = c >= 0 ? a.hi * c : a.lo * c; if (!small(q.lo) || !small(q.hi)) { q.ok = false; return q; } Z3_ast v[2] = {inum(c), a.t}; q.t = Z3_mk_mul(z, 2, v); return q; };
    switch (e->k) {
      case KConst: if (w <= 64) { i128 v = sextw(e->val, w); if (small(v)) r = Lin{true, inum(v), v, v}; } break;
      case KSym: { size_t ix = (size_t)e->val; SymInfo& s = X.syms[ix]; i128 lo = s.isSigned ? (i128)(int64_t)s.lo : (i128)s.lo, hi = s.isSigned ? (i128)(int64_t)s.hi : (i128)s.hi; if (!small(lo) || !small(hi) || lo > hi) break; if (!lsym.count(ix)) { std::string nm = "i" + std::to_string(ix); lsym[ix] = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), isort()); } r = Lin{true, lsym[ix], lo, hi}; break; }
      case KAdd: case KSub: { Lin a = toL(e->a), b = a.ok ? toL(e->b) : a; if (a.ok && b.ok) r = mk2(e->k == KSub, a, b); break; }
      case KMul: { Expr *x = e->a, *y = e->b; if (x->k == KConst) std::swap(x, y); if (y->k != KConst || w > 64) break; Lin a = toL(x); if (a.ok) r = mulc(a, sextw(y->val, w)); break; }
      case KShl: if (e->b->k == KConst && e->b->val < 31) { Lin a = toL(e->a); if (a.ok) r = mulc(a, (i128)1 << (int)e->b->val); } break;
      case KXor: if (e->b->k == KConst && e->b->val == maskw(w) && w > 1) { Lin a = toL(e->a); if (a.ok) r = mk2(true, Lin{true, inum(-1), -1, -1}, a); } break;
      case KExtract: if (e->val == 0) r = toL(e->a); break;
      case KZExt: if (e->a->w == 1) { Z3_ast b = toLB(e->a); if (b) r = Lin{true, Z3_mk_ite(z, b, inum(1), inum(0)), 0, 1}; } else { Lin a = toL(e->a); if (a.ok && norm(a, e->a->w, false)) r = a; } break;
      case KConcat: { Lin h = toL(e->a), l = h.ok ? toL(e->b) : h; if (h.ok && l.ok && norm(l, e->b->w, false) && e->b->w < 31) { h = mulc(h, (i128)1 << e->b->w); if (h.ok) r = mk2(false, h, l); } break; }
      case KSExt: if (e->a->w == 1) { Z3_ast b = toLB(e->a); if (b) r = Lin{true, Z3_mk_ite(z, b, inum(-1), inum(0)), -1, 0}; } else { Lin a = toL(e->a); if (a.ok && norm(a, e->a->w, true)) r = a; } break;
      case KIte: if (w > 1) { Z3_ast c = toLB(e->a); if (!c) break; Lin a = toL(e->b), b = a.ok ? toL(e->c) : a; if (a.ok && b.ok) r = Lin{true, Z3_mk_ite(z, c, a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; } break;
      default: break;
    }
    return linMemo[e] = r;
  }
  // shift by a multiple of 2^w into the signed / unsigned window, if one fits
  bool norm(Lin& a, int w, bool sg) { if (w > 62) return sg ? sfits(a, w) : ufits(a, w); i128 M = (i128)1 << w, base = sg ? -(M >> 1) : 0; i128 k = a.lo - base; i128 q = k >= 0 ? k / M : -((-k + M - 1) / M); if (a.hi - q * M >= base + M) return false; if (q) { Z3_ast v[2] = {a.t, inum(q * M)}; a.t = Z3_mk_sub(z, 2, v); a.lo -= q * M; a.hi -= q * M; } return true; }
  static bool sfits(const Lin& a, int w) { return w > 64 || (a.lo >= -((i128)1 << (w - 1)) && a.hi < ((i128)1 << (w - 1))); }
  static bool ufits(const Lin& a, int w) { return a.lo >= 0 && (w > 64 || a.hi < ((i128)1 << w)); }
  Z3_ast toLB(Expr* e) {
    auto it = linB.find(e); if (it != linB.end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->k) {
      case KConst: r = e->val ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case KAnd: case KOr: { Z3_ast a = toLB(e->a), b = a ? toLB(e->b) : nullptr; if (b) { Z3_ast v[2] = {a, b}; r = e->k == KAnd ? Z3_mk_and(z, 2, v) : Z3_mk_or(z, 2, v); } break; }
      case KXor: { Z3_ast a = toLB(e->a), b = a ? toLB(e->b) : nullptr; if (b) r = Z3_mk_xor(z, a, b); break; }
      case KIte: { Z3_ast c = toLB(e->a), a = c ? toLB(e->b) : nullptr, b = a ? toLB(e->c) : nullptr; if (b) r = Z3_mk_ite(z, c, a, b); break; }
      case KEq: if (e->a->w == 1) { Z3_ast a = toLB(e->a), b = a ? toLB(e->b) : nullptr; if (b) r = Z3_mk_iff(z, a, b); } else { Lin a = toL(e->a), b = a.ok ? toL(e->b) : a; int w = e->a->w; if (a.ok && b.ok && w <= 62 && norm(a, w, true)) norm(b, w, true); if (a.ok && b.ok && w <= 64 && a.hi - b.lo < ((i128)1 << w) && b.hi - a.lo < ((i128)1 << w)) r = Z3_mk_eq(z, a.t, b.t); } break;
      case KUlt: case KUle: case KSlt: case KSle: { Lin a = toL(e->a), b = a.ok ? toL(e->b) : a; int w = e->a->w; if (!a.ok || !b.ok) break; bool sg = e->k == KSlt || e->k == KSle; if (!norm(a, w, sg) || !norm(b, w, sg)) break; r = e->k == KUlt || e->k == KSlt ? Z3_mk_lt(z, a.t, b.t) : Z3_mk_le(z, a.t, b.t); break; }
      case KExtract: if (e->a->w > 1 && (int)e->val == e->a->w - 1) { Lin a = toL(e->a); if (a.ok && norm(a, e->a->w, true)) r = Z3_mk_lt(z, a.t, inum(0)); } break;
      default: break;
    }
    return linB[e] = r;
  }
  void resetLia() { if (linc) Z3_solver_dec_ref(z, linc); linc = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_LIA")); Z3_solver_inc_ref(z, linc); llit.clear(); lranged.clear(); lcount = 0; }
  std::set<size_t> lranged;
  // UNKNOWN: not linear (or too hard); on SAT `out` receives the symbol values
  Res liaCheck(const std::vector<Expr*>& rel, Expr* cond, const std::vector<size_t>& sy, std::vector<std::pair<int, u128>>& out, unsigned ms) {
    static bool dl = getenv("SV_LIA") != nullptr; if (dl) for (size_t i = 0; i <= rel.size(); i++) { Expr* e = i < rel.size() ? rel[i] : cond; if (!toLB(e)) fprintf(stderr, "nonlinear %s\n", X.str(e, 8).c_str()); }
    if (!toLB(cond)) return UNKNOWN; for (Expr* e : rel) if (!toLB(e)) return UNKNOWN;
    if (!linc || lcount > 3000) resetLia();
    for (size_t s : sy) { if (!lsym.count(s)) { Lin l = toL(X.syms[s].e); if (!l.ok) return UNKNOWN; } if (lranged.insert(s).second) { Lin l = toL(X.syms[s].e); Z3_solver_assert(z, linc, Z3_mk_le(z, inum(l.lo), l.t)); Z3_solver_assert(z, linc, Z3_mk_le(z, l.t, inum(l.hi))); } }
    std::vector<Z3_ast> as; auto add = [&](Expr* e) { auto it = llit.find(e); if (it == llit.end()) { Z3_ast l = Z3_mk_fresh_const(z, "q", Z3_mk_bool_sort(z)); Z3_solver_assert(z, linc, Z3_mk_implies(z, l, toLB(e))); it = llit.emplace(e, l).first; lcount++; } as.push_back(it->second); };
    for (Expr* e : rel) add(e); add(cond);
    setTimeout(linc, ms); Z3_lbool b = Z3_solver_check_assumptions(z, linc, as.size(), as.data());
    if (b == Z3_L_FALSE) return UNSAT; if (b != Z3_L_TRUE) { resetLia(); return UNKNOWN; }
    Z3_model m = Z3_solver_get_model(z, linc); if (!m) return UNKNOWN; Z3_model_inc_ref(z, m); bool ok = true;
    for (size_t s : sy) { Z3_ast o = nullptr; int64_t v = 0; if (Z3_model_eval(z, m, lsym[s], true, &o) && o && Z3_get_numeral_int64(z, o, &v)) out.push_back({(int)s, (u128)(i128)v & maskw(X.syms[s].w)}); else ok = false; }
    Z3_model_dec_ref(z, m); return ok ? SAT : UNKNOWN;
  }
  Z3_ast rangeOf(size_t ix) {
    SymInfo& s = X.syms[ix]; Z3_ast v = toV(s.e); std::vector<Z3_ast> c;
    if (s.isSigned) {
      if ((i128)(int64_t)s.lo > ExprCtx::sMinW(s.w)) c.push_back(Z3_mk_bvsge(z, v, num((u128)(i128)(int64_t)s.lo & maskw(s.w), s.w)));
      if ((i128)(int64_t)s.hi < ExprCtx::sMaxW(s.w)) c.push_back(Z3_mk_bvsle(z, v, num((u128)(i128)(int64_t)s.hi & maskw(s.w), s.w)));
    } else {
      if (s.lo > 0) c.push_back(Z3_mk_bvuge(z, v, num(s.lo, s.w)));
      if ((u128)s.hi < maskw(s.w)) c.push_back(Z3_mk_bvule(z, v, num(s.hi, s.w)));
    }
    if (c.empty()) return nullptr;
    return c.size() == 1 ? c[0] : Z3_mk_and(z, c.size(), c.data());
  }
  static void symsOf(const SymSet* s, std::vector<size_t>& out) { for (size_t i = 0; i < s->bits.size(); i++) { uint64_t b = s->bits[i]; while (b) { out.push_back(i * 64 + __builtin_ctzll(b)); b &= b - 1; } } }

  // Is (pc and cond) satisfiable? On SAT, `model` (a model of pc) is updated to satisfy cond too.
  Res check(const std::vector<Expr*>& pc, Expr* cond, std::vector<u128>& model, bool hard = false) {
    st.queries++;
    if (cond->k == KConst) return cond->val ? SAT : UNSAT;
    // slice
    const SymSet* sup = cond->sup;
    std::vector<Expr*> rel; std::vector<char> in(pc.size(), 0);
    for (bool ch = true; ch;) { ch = false;
      for (size_t i = pc.size(); i-- > 0;) if (!in[i] && ExprCtx::intersects(pc[i]->sup, sup)) {
        in[i] = 1; rel.push_back(pc[i]);
        const SymSet* n = X.unite(sup, pc[i]->sup); if (n != sup) { sup = n; ch = true; }
      } }
    std::vector<uint32_t> key; for (Expr* e : rel) key.push_back(e->id); std::sort(key.begin(), key.end()); key.push_back(cond->id);
    std::vector<size_t> sy; symsOf(sup, sy);
    auto ci = cache.find(key);
    if (ci != cache.end() && !(ci->second.r == UNKNOWN && hard)) {
      st.cacheHit++;
      if (ci->second.r == SAT) for (auto& p : ci->second.m) { if (model.size() <= (size_t)p.first) growModel(model, p.first); model[p.first] = p.second; }
      return ci->second.r;
    }
    // try recent models
    int tries = 0;
    for (auto& m : recent) {
      if (++tries > 8) break;
      X.epoch++;
      bool ok = X.eval(cond, m) != 0;
      for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], m) != 0;
      if (ok) {
        CacheEnt ce; ce.r = SAT;
        for (size_t s : sy) { u128 v = X.symVal(s, m); if (model.size() <= s) growModel(model, s); model[s] = v; ce.m.push_back({(int)s, v}); }
        cache[key] = ce; st.modelHit++;
        return SAT;
      }
    }
    double t0 = nowS();
    bool fp = hasFP(cond); for (Expr* e : rel) fp = fp || hasFP(e);
    Res r = UNKNOWN; Z3_model zm = nullptr;
    st.z3++;
    double left = deadline - t0; if (left < 0.05) { st.unknown++; return UNKNOWN; }
    unsigned budget = (unsigned)std::min((double)hardMs, left * 1000);
    if (!fp && hasMul(cond)) {
      if (ringUnsat(cond, rel)) { r = UNSAT; ring.proved++; st.ring++; ringSpot(cond, rel, sy, model); }
      else for (int t = 0; t < 24 && r == UNKNOWN; t++) { // a satisfiable query is often satisfied by a random point
        randModel(sy, model, t); X.epoch++; bool ok = X.eval(cond, candModel) != 0; for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], candModel) != 0;
        if (ok) r = SAT; }
      if (r != SAT) candModel.clear();
    }
    if (lia && !fp && r == UNKNOWN) {
      std::vector<std::pair<int, u128>> out; Res lr = liaCheck(rel, cond, sy, out, std::min(3000u, budget));
      if (lr == UNSAT) r = UNSAT;
      else if (lr == SAT) { candModel = model; for (auto& p : out) { if (candModel.size() <= (size_t)p.first) growModel(candModel, p.first); candModel[p.first] = p.second; } X.epoch++;
        bool ok = X.eval(cond, candModel) != 0; for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], candModel) != 0;
        if (ok) r = SAT; else { fprintf(stderr, "warning: linear model rejected\n"); candModel.clear(); } }
    }
    if (!fp && r == UNKNOWN) {
      static int incMax = getenv("SV_INC") ? atoi(getenv("SV_INC")) : 50; if (incCount > (size_t)incMax) resetInc();
      std::vector<Z3_ast> as;
      auto addLit = [&](Expr* e) { auto it = lit.find(e); if (it == lit.end()) {
          Z3_ast l = Z3_mk_fresh_const(z, "p", Z3_mk_bool_sort(z));
          Z3_solver_assert(z, inc, Z3_mk_implies(z, l, toB(e)));
          it = lit.emplace(e, l).first; incCount++; }
        as.push_back(it->second); };
      for (size_t s : sy) { Expr* se = X.syms[s].e; if (!ranged.count(se)) { if (Z3_ast ra = rangeOf(s)) Z3_solver_assert(z, inc, ra); ranged[se] = true; } }
      for (Expr* e : rel) addLit(e);
      addLit(cond);
      bool mul = hasMul(cond); for (Expr* e : rel) mul = mul || hasMul(e);
      setTimeout(inc, std::min(mul ? std::min(fastMs, 40u) : fastMs, budget));
      Z3_lbool b = Z3_solver_check_assumptions(z, inc, as.size(), as.data());
      if (b == Z3_L_TRUE) { r = SAT; zm = Z3_solver_get_model(z, inc); if (zm) Z3_model_inc_ref(z, zm); }
      else if (b == Z3_L_FALSE) r = UNSAT;
      else resetInc();
    }
    if (r == UNKNOWN) {
      left = deadline - nowS(); budget = (unsigned)std::max(0.0, std::min((double)hardMs, left * 1000));
      if (budget > 50 && !fp && relaxedUnsat(rel, cond, sy, std::min(budget, 20000u))) r = UNSAT;
      else if (budget > 50 && cands && !fp) {
        cands(model, [&](const std::vector<u128>& m) { X.epoch++; bool ok = X.eval(cond, m) != 0; for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], m) != 0;
          if (ok) { r = SAT; candModel = m; } return ok; });
      }
      if (r == UNKNOWN && budget > 50) {
        Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, fp ? "QF_BVFP" : "QF_BV")); 
        Z3_tactic tq = nullptr;
        Z3_solver_inc_ref(z, s);
        setTimeout(s, budget);
        for (size_t sx : sy) if (Z3_ast ra = rangeOf(sx)) Z3_solver_assert(z, s, ra);
        for (Expr* e : rel) Z3_solver_assert(z, s, toB(e));
        Z3_solver_assert(z, s, toB(cond));
        if (dumpHard) { static int n = 0; std::string fn = std::string(getenv("SV_DUMP_HARD")) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); } }
        Z3_lbool b = Z3_solver_check(z, s);
        if (b == Z3_L_TRUE) { r = SAT; zm = Z3_solver_get_model(z, s); if (zm) Z3_model_inc_ref(z, zm); }
        else if (b == Z3_L_FALSE) r = UNSAT;
        Z3_solver_dec_ref(z, s); (void)tq;
      }
    }
    CacheEnt ce; ce.r = r;
    if (r == SAT) {
      std::vector<u128> nm = model;
      if (!candModel.empty()) { nm = candModel; candModel.clear(); for (size_t s : sy) ce.m.push_back({(int)s, X.symVal(s, nm)}); }
      else for (size_t s : sy) {
        u128 v = 0; Z3_ast out = nullptr;
        if (zm && Z3_model_eval(z, zm, toV(X.syms[s].e), true, &out) && out) v = numVal(out, X.syms[s].w);
        if (nm.size() <= s) growModel(nm, s); nm[s] = v; ce.m.push_back({(int)s, v});
      }
      X.epoch++;
      bool ok = X.eval(cond, nm) != 0; for (size_t i = 0; ok && i < rel.size(); i++) ok = X.eval(rel[i], nm) != 0;
      if (!ok) { fprintf(stderr, "warning: solver model does not evaluate to true (encoding mismatch?) %s\n", X.str(cond, 5).c_str()); r = UNKNOWN; ce.r = UNKNOWN; ce.m.clear(); }
      else { model = nm; recent.push_front(nm); if (recent.size() > 12) recent.pop_back(); }
    }
    if (zm) Z3_model_dec_ref(z, zm);
    double dt = nowS() - t0; st.time += dt; st.maxq = std::max(st.maxq, dt);
    if (r == SAT) st.sat++; else if (r == UNSAT) st.unsat++; else st.unknown++;
    if (cache.size() > 200000) cache.clear();
    cache[key] = ce;
    return r;
  }
  void growModel(std::vector<u128>& m, size_t ix) { size_t o = m.size(); if (o > ix) return; m.resize(ix + 1); for (; o <= ix; o++) m[o] = (u128)X.syms[o].lo & maskw(X.syms[o].w); }
  u128 numVal(Z3_ast a, int w) {
    if (w <= 64) { uint64_t v = 0; if (Z3_get_numeral_uint64(z, a, &v)) return v; return 0; }
    const char* s = Z3_get_numeral_string(z, a); u128 v = 0; for (; *s; s++) v = v * 10 + (*s - '0'); return v;
  }
};
