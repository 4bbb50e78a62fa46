// Native side of the harness API: replays a solver assignment against the real compiled code.
#include "../harness/sv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <unistd.h>
#include <ucontext.h>
static std::vector<std::pair<std::string, std::string>> vals; static size_t pos; static bool rnd, loaded; static std::mt19937_64 rng; static std::map<std::string, uint64_t> params;
static void load() {
  if (loaded) return; loaded = true;
  if (const char* p = getenv("SV_PARAMS")) { std::string s = p; size_t i = 0; while (i < s.size()) { size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); std::string t = s.substr(i, e - i); auto q = t.find('='); if (q != std::string::npos) params[t.substr(0, q)] = strtoull(t.c_str() + q + 1, 0, 10); i = e + 1; } }
  if (const char* r = getenv("SV_RANDOM")) { rnd = true; rng.seed(strtoull(r, 0, 10)); return; }
  const char* f = getenv("SV_REPLAY"); if (!f) return; FILE* fp = fopen(f, "r"); if (!fp) { fprintf(stderr, "no replay file\n"); _exit(90); }
  char a[256], b[256]; while (fscanf(fp, "%255s %255s", a, b) == 2) vals.push_back({a, b}); fclose(fp);
}
static bool next(const char* name, std::string& out) {
  load(); if (rnd) return false;
  if (pos >= vals.size()) { out = "0"; return getenv("SV_REPLAY") != nullptr; }
  if (vals[pos].first != name) { fprintf(stderr, "SV: replay order mismatch (%s vs %s)\n", vals[pos].first.c_str(), name); _exit(91); }
  out = vals[pos++].second; return true;
}
static uint64_t pick(uint64_t lo, uint64_t span) { // value in [lo, lo+span] (span inclusive), biased to the edges
  uint64_t k = rng() % 8; uint64_t r;
  if (k == 0) r = 0; else if (k == 1) r = span; else if (k == 2) r = rng() % 16; else if (k == 3) r = span - rng() % 16; else if (k == 4) r = 1ull << (rng() % 64); else r = rng();
  if (span != ~0ull) r %= (span + 1); return lo + r;
}
static long long live; static void onMalloc(const volatile void*, size_t) { live++; } static void onFree(const volatile void* p) { if (p) live--; }
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" {
uint64_t sv_sym_u(const char* n, uint64_t lo, uint64_t hi) { std::string s; if (next(n, s)) { uint64_t v = strtoull(s.c_str(), 0, 10); if (pos > vals.size() || v < lo || v > hi) v = lo; return v; } return rnd ? pick(lo, hi - lo) : lo; }
int64_t sv_sym_i(const char* n, int64_t lo, int64_t hi) { std::string s; if (next(n, s)) { int64_t v = strtoll(s.c_str(), 0, 10); if (v < lo || v > hi) v = lo; return v; } return rnd ? (int64_t)pick((uint64_t)lo, (uint64_t)hi - (uint64_t)lo) : lo; }
void sv_assume(int c) { if (!c) { if (!rnd) fprintf(stderr, "SV: assumption does not hold\n"); _exit(77); } }
void sv_assert_(int c, const char* m) { if (!c) { fprintf(stderr, "SV: ASSERTION FAILED: %s\n", m); fflush(stderr); _exit(66); } }
void sv_reach(const char*) {}
uint64_t sv_concretize(uint64_t v) { return v; }
uint64_t sv_choose(const char* n, uint64_t c) { return sv_sym_u(n, 0, c - 1); }
void sv_merge_open() {}
void sv_merge_close() {}
void sv_automerge(int) {}
void sv_known(const char* id, int c) { load(); const char* k = getenv("SV_KNOWN"); if (k && c) { std::string s = std::string(",") + k + ","; if (s.find(std::string(",") + id + ",") != std::string::npos) _exit(77); } }
uint64_t sv_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t sv_heap_live() { return (uint64_t)live; }
int sv_is_sym(uint64_t) { return 0; }
void sv_print(const char* n, uint64_t v) { fprintf(stderr, "[sv] %s = %lld\n", n, (long long)v); }
uint64_t sv_param(const char* n, uint64_t d) { load(); auto it = params.find(n); return it == params.end() ? d : it->second; }
// threads of control: contexts on their own stacks, switched only on request
struct Ctl { ucontext_t c; void (*fn)(void*); void* arg; }; static std::vector<Ctl*> ctls; static uint64_t ctlCur;
static void ctlRun() { Ctl* c = ctls[ctlCur]; c->fn(c->arg); fprintf(stderr, "SV: thread returned\n"); _exit(92); }
uint64_t sv_thread_start(void (*fn)(void*), void* arg) { if (ctls.empty()) ctls.push_back(new Ctl()); Ctl* c = new Ctl(); c->fn = fn; c->arg = arg; getcontext(&c->c); c->c.uc_stack.ss_size = 1 << 20; c->c.uc_stack.ss_sp = malloc(1 << 20); c->c.uc_link = 0; makecontext(&c->c, ctlRun, 0); ctls.push_back(c); return ctls.size() - 1; }
void sv_thread_switch(uint64_t t) { if (ctls.empty() || t == ctlCur) return; uint64_t o = ctlCur; ctlCur = t; swapcontext(&ctls[o]->c, &ctls[t]->c); }
uint64_t sv_thread_self() { return ctlCur; }
}
#ifndef SV_ENTRY
#error SV_ENTRY
#endif
extern "C" void SV_ENTRY();
int main() { load(); try { throw 1; } catch (int) {} __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); SV_ENTRY(); fprintf(stderr, "SV: completed\n"); return 0; }
