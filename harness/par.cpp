// Parallel execution under a symbolic scheduler. std::thread, std::mutex and std::condition_variable are replaced by
// stand-ins whose every blocking or synchronising operation is a point at which the scheduler (a fresh symbolic choice)
// may run another thread; everything else is the library's code.
#include "sv.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <vector>
#include <utility>
#include <algorithm>
#include <functional>

namespace sched {
struct Slot { bool done, started; int waitThread; const void* waitOn; std::function<void()> fn; };
static std::vector<Slot>* slots; static int budget; static bool on;
static void init(int preemptions) { slots = new std::vector<Slot>(); slots->push_back(Slot{false, true, -1, nullptr, nullptr}); budget = preemptions; on = true; }
static bool runnable(int i) { Slot& s = (*slots)[i]; if (s.done) return false; if (s.waitThread >= 0 && !(*slots)[s.waitThread].done) return false; if (s.waitOn && *(const int*)s.waitOn) return false; return true; }
// a point at which another thread may run; `must`: the current one cannot go on
static void point() {
  if (!on) return; int self = (int)sv_thread_self(), n = (int)slots->size(), c[8], k = 0; bool me = runnable(self);
  if (me) c[k++] = self;
  if (!me || budget > 0) for (int i = 0; i < n; i++) if (i != self && runnable(i)) c[k++] = i;
  CHECK(k > 0, "every thread is blocked: deadlock");
  int t = k == 1 ? 0 : (int)sv_choose("schedule", k);
  if (me && t != 0) budget--;
  if (c[t] != self) sv_thread_switch(c[t]);
}
static void run(void* p) { int id = (int)(uintptr_t)p; { std::function<void()> f; f.swap((*slots)[id].fn); f(); } (*slots)[id].done = true; point(); CHECK(0, "a finished thread was scheduled"); }
static int start(std::function<void()> f) { Slot s{false, true, -1, nullptr, nullptr}; int id = (int)slots->size(); slots->push_back(s); (*slots)[id].fn.swap(f); int t = (int)sv_thread_start(run, (void*)(uintptr_t)id); CHECK(t == id, "harness: thread numbers"); point(); return id; }
static void join(int id) { int self = (int)sv_thread_self(); (*slots)[self].waitThread = id; point(); (*slots)[self].waitThread = -1; }
static void finish() { for (size_t i = 1; i < slots->size(); i++) CHECK((*slots)[i].done, "a thread is still running after the call has returned"); on = false; delete slots; slots = nullptr; }
}
namespace std {
struct sv_mutex {
  int held = 0, owner = -1;
  sv_mutex() {} sv_mutex(const sv_mutex&) = delete;
  ~sv_mutex() { CHECK(!held, "a mutex is destroyed while it is held"); }
  void lock() { sched::point(); int self = (int)sv_thread_self(); CHECK(!(held && owner == self), "a thread locks a mutex that it already holds"); while (held) { if (!sched::on) { CHECK(0, "deadlock"); } (*sched::slots)[self].waitOn = &held; sched::point(); (*sched::slots)[self].waitOn = nullptr; } held = 1; owner = self; }
  bool try_lock() { sched::point(); if (held) return false; held = 1; owner = (int)sv_thread_self(); return true; }
  void unlock() { CHECK(held && owner == (int)sv_thread_self(), "a mutex is unlocked by a thread that does not hold it"); held = 0; owner = -1; sched::point(); }
};
struct sv_condition_variable {
  std::vector<int*> w;
  template<typename L> void wait(L& l) { int* b = new int(1); w.push_back(b); int self = (int)sv_thread_self(); l.unlock(); while (*b) { (*sched::slots)[self].waitOn = b; sched::point(); (*sched::slots)[self].waitOn = nullptr; } delete b; l.lock(); }
  template<typename L, typename P> void wait(L& l, P p) { while (!p()) wait(l); }
  void notify_one() { if (!w.empty()) { *w.front() = 0; w.erase(w.begin()); } sched::point(); }
  void notify_all() { for (int* b : w) *b = 0; w.clear(); sched::point(); }
};
struct sv_thread {
  int t = -1;
  sv_thread() noexcept {}
  template<typename F, typename... A, typename = typename std::enable_if<!std::is_same<typename std::decay<F>::type, sv_thread>::value>::type>
  explicit sv_thread(F&& f, A&&... a) { t = sched::start(std::bind(std::forward<F>(f), std::forward<A>(a)...)); }
  sv_thread(sv_thread&& r) noexcept : t(r.t) { r.t = -1; }
  sv_thread(const sv_thread&) = delete;
  sv_thread& operator=(sv_thread&& r) noexcept { CHECK(t < 0, "a running thread is overwritten (terminate)"); t = r.t; r.t = -1; return *this; }
  ~sv_thread() { CHECK(t < 0, "a running thread is destroyed without being joined (terminate)"); }
  bool joinable() const { return t >= 0; }
  void join() { CHECK(t >= 0, "join of a thread that is not joinable"); sched::join(t); t = -1; }
  void detach() { CHECK(t >= 0, "detach of a thread that is not joinable"); t = -1; }
  void swap(sv_thread& r) { std::swap(t, r.t); }
  static unsigned hardware_concurrency() { return 4; }
};
}
#define thread sv_thread
#define mutex sv_mutex
#define condition_variable sv_condition_variable
#include "altruct/concurrency/concurrency.h"
#undef thread
#undef mutex
#undef condition_variable
using namespace altruct::concurrency;

// not thread-safe on purpose: every call asserts that nobody else is inside
struct Guard { int* in; Guard(int* in, const char*) : in(in) { CHECK(*in == 0, "two threads use the same provider, worker or collector at the same time"); *in = 1; sched::point(); } ~Guard() { *in = 0; } };
struct Jobs { int in = 0, given = 0, n; uint32_t v[8]; int inner; Jobs(int n) : n(n), inner(0) {}
  bool has_next_job() { Guard g(&in, "has"); return given < n; }
  std::pair<int, uint32_t> next_job() { Guard g(&in, "next"); CHECK(given < n, "next_job is called although there is no job"); int k = given++; return {k, v[k]}; } };
struct Workers { int made = 0, in = 0; int runs[8] = {0}; int limit;
  struct Worker { Workers* w; int id, in; uint32_t salt; uint32_t execute_job(const std::pair<int, uint32_t>& j) { CHECK(!in, "a worker is used by two threads at once"); in = 1; int s = (int)sv_thread_self(); w->runs[j.first]++; uint32_t r = j.second * 2654435761u + 12345u; sched::point(); CHECK(s == (int)sv_thread_self(), "harness"); in = 0; return r; } };
  Worker create_worker() { Guard g(&in, "create"); Worker k; k.w = this; k.id = made++; k.in = 0; k.salt = 0; return k; } };
struct Collect { int in = 0, n = 0; int seen[8] = {0}; uint32_t sum = 0; uint32_t got[8];
  void collect_result(uint32_t r, const std::pair<int, uint32_t>& j) { Guard g(&in, "collect"); n++; seen[j.first]++; got[j.first] = r; uint32_t s = sum; sched::point(); sum = s + r; } };

//@ H04 par_exec t=60 T=600 threads=2 jobs=2 P=3 Q:P=5 -- two threads, two jobs, preemptions bounded
//@ H04 par_exec t=60 T=600 threads=2 jobs=3 P=2 Q:P=3 -- two threads, three jobs
//@ H04 par_exec t=60 T=600 threads=3 jobs=2 P=2 Q:P=3 -- three threads, two jobs
//@ H04 par_exec t=60 T=600 threads=3 jobs=4 P=1 Q:P=2 -- three threads, four jobs
//@ H04 par_exec t=60 threads=3 jobs=0 P=2 -- no jobs
//@ H04 par_exec t=60 threads=1 jobs=3 P=2 -- one thread
//@ H04 par_exec t=60 threads=0 jobs=2 P=2 -- zero threads: the caller works
ENTRY par_exec() {
  int T = (int)sv_param("threads", 2), N = (int)sv_param("jobs", 2); sched::init((int)sv_param("P", 2));
  Jobs j(N); for (int i = 0; i < N; i++) j.v[i] = (uint32_t)sv_sym_u("job", 0, 0xffffffffu);
  Workers w; Collect c; parallel_execute(c, j, w, T);
  CHECK(j.in == 0 && c.in == 0, "a callback is still running");
  CHECK(j.given == N && c.n == N, "every job is handed out and every result collected");
  uint32_t e = 0; for (int i = 0; i < N; i++) { CHECK(w.runs[i] == 1, "a job is executed exactly once"); CHECK(c.seen[i] == 1, "its result is collected exactly once"); CHECK(c.got[i] == j.v[i] * 2654435761u + 12345u, "with the job it belongs to"); e += c.got[i]; }
  CHECK(c.sum == e, "no collected result is lost");
  CHECK(w.made <= std::max(T, 1), "at most one worker per thread");
  sched::finish(); sv_reach("par_exec");
}
struct SqWorkers { struct W { int64_t execute_job(const std::pair<int, int>& j) { sched::point(); int64_t s = 0; for (int i = j.first; i < j.second; i++) s += f[i]; return s; } int64_t* f; }; int64_t* f; W create_worker() { W w; w.f = f; return w; } };
//@ H04 par_sum t=60 T=600 threads=2 N=5 L=2 P=2 Q:P=4 -- range jobs and an accumulating collector
//@ H04 par_sum t=60 T=600 threads=3 N=4 L=3 P=1 Q:P=3 -- range jobs, three threads
ENTRY par_sum() {
  int T = (int)sv_param("threads", 2), N = (int)sv_param("N", 5), L = (int)sv_param("L", 2); sched::init((int)sv_param("P", 2));
  int64_t f[16], e = 0; for (int i = 0; i < N; i++) { f[i] = sv_sym_i("f", INT64_MIN / 64, INT64_MAX / 64); e += f[i]; }
  SqWorkers w; w.f = f; add_result_collector<int64_t> c; range_job_provider<int> p(0, N, L); parallel_execute(c, p, w, T);
  CHECK(c.result == e, "the sum over all ranges"); sched::finish(); sv_reach("par_sum");
}
template<typename I> static void ranges(I begin, I end, I len, int K) {
  range_job_provider<I> p(begin, end, len); I at = begin; int k = 0;
  while (sv_concretize(p.has_next_job())) {
    CHECK(at < end, "no job after the end of the range"); if (k++ >= K) return;
    auto j = p.next_job(); CHECK(j.first == at, "jobs follow one another without gap or overlap"); CHECK(j.first < j.second && j.second <= end, "jobs are not empty and stay within the range");
    CHECK(j.second == end || (I)(j.second - j.first) == len, "only the last job is shorter"); CHECK((I)(j.second - j.first) <= len, "no job is longer than requested"); at = j.second; }
  CHECK(!(at < end), "the whole range is handed out");
}
//@ H04 par_range_i32 t=60 T=300 K=3 Q:K=5 lia=1 -- every int range and length, its first K jobs
ENTRY par_range_i32() { int K = (int)sv_param("K", 4); int b = (int)sv_sym_i("begin", INT32_MIN, INT32_MAX), e = (int)sv_sym_i("end", INT32_MIN, INT32_MAX), l = (int)sv_sym_i("len", 1, INT32_MAX); ranges<int>(b, e, l, K); sv_reach("par_range_i32"); }
//@ H04 par_range_u64 t=60 T=300 K=2 Q:K=4 lia=1 -- every unsigned 64-bit range and length, its first K jobs
ENTRY par_range_u64() { int K = (int)sv_param("K", 3); uint64_t b = sv_sym_u("begin", 0, UINT64_MAX), e = sv_sym_u("end", 0, UINT64_MAX), l = sv_sym_u("len", 1, UINT64_MAX); ranges<uint64_t>(b, e, l, K); sv_reach("par_range_u64"); }
//@ H04 par_range_i64 t=60 T=300 K=2 Q:K=4 lia=1 -- every signed 64-bit range and length, its first K jobs
ENTRY par_range_i64() { int K = (int)sv_param("K", 3); int64_t b = sv_sym_i("begin", INT64_MIN, INT64_MAX), e = sv_sym_i("end", INT64_MIN, INT64_MAX), l = sv_sym_i("len", 1, INT64_MAX); ranges<int64_t>(b, e, l, K); sv_reach("par_range_i64"); }
static int lockIn; static int lockSum;
//@ H04 par_lock t=60 T=300 P=3 Q:P=6 -- the LOCK macro: body runs once, alone, and the lock is released on every exit
ENTRY par_lock() {
  sched::init((int)sv_param("P", 3)); std::sv_mutex mu; lockIn = 0; lockSum = 0; int a[2] = {(int)sv_sym_u("a", 0, 1000), (int)sv_sym_u("a", 0, 1000)}; bool out[2] = {sv_choose("leave", 2) == 1, false};
  auto body = [&](int k) { int times = 0;
#define mutex sv_mutex
    LOCK(mu) { times++; CHECK(lockIn == 0, "two threads are inside"); lockIn = 1; int s = lockSum; sched::point(); lockSum = s + a[k]; lockIn = 0; if (out[k]) break; sched::point(); }
#undef mutex
    CHECK(times == 1, "the body of LOCK runs exactly once"); };
  { std::sv_thread t([&] { body(0); }); body(1); t.join(); }
  CHECK(lockSum == a[0] + a[1], "no update is lost"); CHECK(!mu.held, "the lock is released"); sched::finish(); sv_reach("par_lock");
}
