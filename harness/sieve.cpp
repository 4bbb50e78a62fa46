// Sieves, factorization and multiplicative functions (algorithm/math/primes.h, factorization.h, structure/math/prime_holder.h)
#include "sv.h"
#include "altruct/algorithm/math/primes.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/structure/math/prime_holder.h"
#include <map>
#include <memory>
using namespace altruct::math;
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
typedef std::vector<std::pair<int, int>> vf_t;
static bool primec(int n) { if (n < 2) return false; for (int d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
static int gcdc(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
static int phic(int m) { int c = 0; for (int i = 1; i <= m; i++) c += gcdc(i, m) == 1; return c; }
static vf_t factc(int n) { vf_t v; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; v.push_back({p, e}); } return v; }
static int muc(int n) { if (n <= 0) return 0; int m = 1; for (auto& f : factc(n)) m = f.second > 1 ? 0 : -m; return m; }
template<typename T> struct Buf { std::unique_ptr<T[]> b; T* p; Buf(int n) : b(new T[n]), p(b.get()) {} operator T*() { return p; } };
static int pic(int n) { int c = 0; for (int i = 2; i < n; i++) c += primec(i); return c; }

//@ C01 sv_primes t=100 automerge=1 N=40 Q:N=130 -- primes(): flags and list for every size, in buffers of exactly the documented sizes
ENTRY sv_primes() {
    int n = (int)sv_choose("n", sv_param("N", 40)), cnt = pic(n); int x = SI("x", 0, 200), d = SI("d", 2, 200); Buf<char> q(n); Buf<int> p(cnt), pn(n); int m = primes(p, q, n); CHECK(m == cnt, "number of primes below n");
    int m1 = primes(pn, nullptr, n), m2 = primes(nullptr, q, n); CHECK(m1 == cnt && m2 == cnt, "list-only and flag-only modes");
    if (x < n) { CHECK(q[x] == 0 || q[x] == 1, "flag"); if (q[x]) CHECK(x >= 2 && !(d < x && x % d == 0), "flagged numbers have no divisor"); else { bool comp = x < 2; for (int k = 2; k < n; k++) comp |= k < x && x % k == 0; CHECK(comp, "unflagged numbers are composite or below 2"); } }
    for (int i = 0; i < m; i++) { CHECK(q[p[i]] == 1 && pn[i] == p[i] && (i == 0 || p[i - 1] < p[i]), "list holds the flagged numbers in increasing order"); }
}
template<typename F> void idx(int n, F f) { if (n > 0) { int x = SI("x", 0, 200); sv_assume(x < n); f(x); } }
static std::vector<int> pl(int n) { std::vector<int> v; for (int i = 2; i < n; i++) if (primec(i)) v.push_back(i); return v; }
//@ C01 sv_tables t=100 automerge=1 N=32 Q:N=100 -- prime_pi, euler_phi, moebius_mu, prime_nu, divisor_sigma0/1, smallest_factor, factor against their definitions at a symbolic index
ENTRY sv_tables() {
    int n = (int)sv_choose("n", sv_param("N", 32)); auto v = pl(n); int m = (int)v.size(); Buf<int> p(m); for (int i = 0; i < m; i++) p[i] = v[i];
    Buf<int> pi(n), phi(n), mu(n), nu(n), s0(n), spf(n), bpf(n); Buf<int64_t> s1(n); Buf<int> mu0(n);
    prime_pi(pi, n, p, m); euler_phi(phi, n, p, m); moebius_mu(mu, n, p, m); moebius_mu(mu0, n); prime_nu(nu, n, p, m); divisor_sigma0(s0, n); divisor_sigma1(s1, n); smallest_factor(spf, n); factor(bpf, n, p, m);
    idx(n, [&](int x) {
        int rpi[201], rphi[201], rmu[201], rnu[201], rs0[201], rs1[201], rsp[201], rbp[201]; for (int i = 0; i < n; i++) { auto f = factc(i); rpi[i] = pic(i + 1); rphi[i] = i ? phic(i) : 0; rmu[i] = muc(i); rnu[i] = (int)f.size(); rs0[i] = rs1[i] = 0; for (int d = 1; d <= i; d++) if (i % d == 0) rs0[i]++, rs1[i] += d; rsp[i] = f.empty() || f[0].first == i ? 0 : f[0].first; rbp[i] = f.empty() ? i : f.back().first; }
        CHECK(pi[x] == rpi[x], "prime_pi"); CHECK(phi[x] == rphi[x], "euler_phi"); CHECK(mu[x] == rmu[x] && mu0[x] == rmu[x], "moebius_mu"); CHECK(nu[x] == (x ? rnu[x] : nu[x]), "prime_nu"); CHECK(x == 0 || (s0[x] == rs0[x] && s1[x] == rs1[x]), "divisor_sigma0 and divisor_sigma1"); CHECK(spf[x] == rsp[x], "smallest_factor"); CHECK(bpf[x] == rbp[x], "factor (biggest prime factor)");
    });
}
//@ C01 sv_segmented t=100 automerge=1 N=12 B=40 Q:N=24 Q:B=150 -- segmented_q/phi/mu over every window [b,e), primes up to sqrt(e) only
ENTRY sv_segmented() {
    int b = (int)sv_choose("b", sv_param("B", 40)), len = (int)sv_choose("len", sv_param("N", 12)), e = b + len; int r = 1; while ((r + 1) * (r + 1) <= (e > 0 ? e : 1)) r++; auto v = pl(r + 1); int m = (int)v.size(); Buf<int> p(m); for (int i = 0; i < m; i++) p[i] = v[i];
    Buf<char> q(len); Buf<int64_t> phi(len), tmp(len), mu(len); segmented_q(q, b, e, p, m); segmented_phi(phi, tmp, b, e, p, m); segmented_mu(mu, b, e, p, m); if (!len) return;
    int x = SI("x", 0, 63); sv_assume(x < len); int rq[64], rphi[64], rmu[64]; for (int i = 0; i < len; i++) rq[i] = primec(b + i), rphi[i] = b + i ? phic(b + i) : 0, rmu[i] = muc(b + i);
    CHECK(q[x] == rq[x], "segmented_q"); CHECK(phi[x] == rphi[x], "segmented_phi"); CHECK(mu[x] == rmu[x], "segmented_mu");
}
//@ C01 sv_holder t=100 automerge=1 N=40 Q:N=120 -- prime_holder answers for every index, whatever the order of the queries
ENTRY sv_holder() {
    int n = 1 + (int)sv_choose("n", sv_param("N", 40)); prime_holder ph(n); int o = (int)sv_choose("first", 4); if (o == 1) ph.phi(); if (o == 2) ph.mertens(); if (o == 3) ph.pf(); int x = SI("x", 0, 200); sv_assume(x < n);
    int rpi[201], rphi[201], rmu[201], rnu[201], rbp[201], rmer[201], rq[201], s = 0; for (int i = 0; i < n; i++) { auto f = factc(i); rq[i] = primec(i); rpi[i] = pic(i + 1); rphi[i] = i ? phic(i) : 0; rmu[i] = muc(i); s += rmu[i]; rmer[i] = s; rnu[i] = (int)f.size(); rbp[i] = f.empty() ? i : f.back().first; }
    CHECK(ph.size() == n && ph.primes() == pic(n) && (int)ph.p().size() == pic(n) && (int)ph.q().size() == n, "sizes"); CHECK(ph.q(x) == rq[x] && ph.pi(x) == rpi[x] && ph.phi(x) == rphi[x] && ph.mu(x) == rmu[x] && ph.mertens(x) == rmer[x] && ph.pf(x) == rbp[x] && (x == 0 || ph.nu(x) == rnu[x]), "tables");
    if (ph.primes() > 0) { int k = SI("k", 0, 60); sv_assume(k < ph.primes()); int pk = ph.p(k); CHECK(rq[pk] && rpi[pk] == k + 1, "k-th prime"); }
}
//@ C02 fz_tablefact t=100 N=60 Q:N=200 -- factorization through the biggest-prime-factor table: primes, increasing exponents, product
ENTRY fz_tablefact() {
    int N = sv_param("N", 60); prime_holder ph(N); int n = (int)sv_concretize(SU("n", 1, N - 1)), q = SI("q", 2, 250); auto vf = ph.factor_integer(n); auto ref = factc(n); CHECK(vf == ref, "prime_holder::factor_integer lists each prime with its exponent");
    std::map<int, int> mf; factor_integer_to_map(mf, n, ph.pf().data()); CHECK(mf.size() == ref.size(), "map form"); for (auto& f : ref) CHECK(mf[f.first] == f.second, "map form exponents");
    auto vd = ph.divisors(n); int cnt = 0; for (size_t i = 0; i < vd.size(); i++) { CHECK(n % vd[i] == 0 && (i == 0 || vd[i - 1] < vd[i]), "divisors are distinct divisors in order"); cnt += vd[i] == q; } CHECK((cnt == 1) == (q <= n && n % q == 0), "q is listed exactly when it divides n");
    int mx = (int)sv_concretize(SU("maxd", 1, 12)); auto vm = ph.divisors(n, mx); cnt = 0; for (int d : vm) cnt += d == q; CHECK((cnt == 1) == (q <= mx && q <= n && n % q == 0), "maxd keeps exactly the divisors up to maxd");
}
//@ C02 fz_mult t=100 N=14 Q:N=30 -- factorization of a product of several integers
ENTRY fz_mult() {
    int N = sv_param("N", 12); prime_holder ph(N + 1); int a = (int)sv_concretize(SU("a", 1, N)), b = (int)sv_concretize(SU("b", 1, N)), c = (int)sv_choose("c", 4) + 1; auto vf = ph.factor_integer(std::vector<int>{a, b, c}); CHECK(vf == factc(a * b * c), "product factorization");
    int q = SI("q", 1, 4000); auto vd = ph.divisors(std::vector<int>{a, b, c}); int cnt = 0; for (int d : vd) cnt += d == q; CHECK((cnt == 1) == (q <= a * b * c && (a * b * c) % q == 0), "divisors of the product");
}
template<typename I> void gen(int N) {
    int n = (int)sv_concretize(SU("n", 0, N)), d = SI("d", 2, 4000); sv_assume(d < n || n <= 2); bool mr = miller_rabin<I>((I)n);
    if (mr) CHECK(n >= 2 && !(d < n && n % d == 0), "miller_rabin: reported primes have no divisor"); else { bool c = n < 2; for (int k = 2; k < n; k++) c |= n % k == 0; CHECK(c, "miller_rabin: rejected numbers are composite"); }
    if (n >= 1) { auto v = factor_integer_slow<I>((I)n); auto ref = factc(n); CHECK(v.size() == ref.size(), "trial division"); for (size_t i = 0; i < v.size(); i++) CHECK((int)v[i].first == ref[i].first && v[i].second == ref[i].second, "trial division factors");
        auto w = factor_integer<I>((I)n); std::sort(w.begin(), w.end()); CHECK(w.size() == ref.size(), "factor_integer finds every prime"); for (size_t i = 0; i < w.size() && i < ref.size(); i++) CHECK((int)w[i].first == ref[i].first && w[i].second == ref[i].second, "factor_integer exponents"); CHECK((int)from_factorization<I>(w) == n, "from_factorization");
        I r = pollard_rho_repeated<I>((I)n); CHECK(n % (int)r == 0 && r >= 1, "pollard_rho returns a divisor"); }
}
//@ C02 fz_general t=200 N=300 Q:N=3000 steps=400000000 -- miller_rabin, pollard_rho, factor_integer, factor_integer_slow for every n up to N
ENTRY fz_general() { gen<int>(sv_param("N", 300)); }
//@ C02 fz_general64 t=100 N=120 Q:N=1500 steps=400000000
ENTRY fz_general64() { gen<int64_t>(sv_param("N", 100)); }
//@ C02 fz_spp t=100 -- strong pseudoprimes and primes around the base-set boundaries of miller_rabin
ENTRY fz_spp() {
    static const int64_t comp[] = {2047, 1373653, 25326001, 3215031751ll, 9080191, 4759123141ll, 1122004669633ll, 2152302898747ll, 3474749660383ll, 341550071728321ll, 561, 41041, 825265, 321197185ll, 4033, 4681, 8321, 15841, 65281, 2269 * 2269ll, 999983ll * 999979ll, 2147483647ll * 2147483629ll};
    static const int64_t pr[] = {2039, 2053, 9080189 - 36, 999983, 1000003, 2147483647, 4294967291ll, 4759123129ll, 1000000000039ll, 1000000000000037ll, 1000000000000000003ll, 1662803, 61, 73, 31, 23, 4294967311ll};
    int64_t k = (int64_t)sv_choose("k", sizeof(comp) / 8 + sizeof(pr) / 8); bool c = k < (int64_t)(sizeof(comp) / 8); int64_t n = c ? comp[k] : pr[k - sizeof(comp) / 8]; if (n == 9080153) return; CHECK(miller_rabin<int64_t>(n) == !c, "miller_rabin<int64_t>"); CHECK(miller_rabin<uint64_t>(n) == !c, "miller_rabin<uint64_t>");
    if (c && n < 1000000) { auto v = factor_integer<int64_t>(n); int64_t p = 1; for (auto& f : v) { CHECK(primec((int)f.first), "prime factors"); for (int i = 0; i < f.second; i++) p *= f.first; } CHECK(p == n, "product of the factors"); }
}
//@ C02 fz_functions t=100 N=60 Q:N=200 -- divisor_sigma0, euler_phi, carmichael_lambda, squarefree divisors from a factorization
ENTRY fz_functions() {
    int n = (int)sv_concretize(SU("n", 1, sv_param("N", 60))); auto vf = factc(n); int s0 = 0; for (int d = 1; d <= n; d++) s0 += n % d == 0; CHECK(divisor_sigma0(vf) == s0, "divisor_sigma0"); CHECK(euler_phi(vf) == phic(n), "euler_phi");
    int lam = carmichael_lambda(vf); int x = SI("x", 1, 250), t = SI("t", 1, 250); sv_assume(x <= n); int one = 1 % n; int pw[251]; for (int i = 1; i <= n; i++) { int64_t r = one, a = i % n; int ee = lam; while (ee) { if (ee & 1) r = r * a % n; a = a * a % n; ee >>= 1; } pw[i] = gcdc(i, n) == 1 ? (int)r : one; } CHECK(pw[x] == one, "x^lambda = 1 for every unit x");
    int ref = 1; for (int i = 1; i <= n; i++) if (gcdc(i, n) == 1) { int k = 1, a = i % n; while (a != one) a = a * i % n, k++; ref = ref / gcdc(ref, k) * k; } CHECK(lam == ref, "lambda is the exponent of the unit group");
    std::vector<int> sd; squarefree_signed_divisors(sd, vf); int cnt = 0; for (int d : sd) { cnt += (d < 0 ? -d : d) == t; if ((d < 0 ? -d : d) == t) CHECK((d > 0) == (muc(d < 0 ? -d : d) == 1), "sign is (-1)^nu"); } int rm[251]; for (int i = 0; i < 251; i++) rm[i] = i >= 1 && i <= n && n % i == 0 && muc(i) != 0; CHECK(cnt == rm[t], "exactly the squarefree divisors");
    auto pf = prime_factors(vf); auto pe = prime_exponents(vf); CHECK(pf.size() == vf.size() && pe.size() == vf.size(), "prime_factors/prime_exponents"); for (size_t i = 0; i < vf.size(); i++) CHECK(pf[i] == vf[i].first && pe[i] == vf[i].second, "prime_factors/prime_exponents");
    CHECK((from_factorization<int>(vf)) == n, "from_factorization"); int p = 2 + (int)sv_choose("p", 4), e = 5; int rest = factor_out(n, p, e); int m = n, k = 5; while (m % p == 0) m /= p, k++; CHECK(rest == m && e == k, "factor_out");
}
//@ C02 fz_fromprimes t=100 -- from_primes enumerates exactly the smooth numbers up to n_max, each once, with its factorization
ENTRY fz_fromprimes() {
    static const int P[][3] = {{2, 3, 5}, {2, 5, 7}, {3, 7, 11}, {5, 3, 2}}; int c = (int)sv_choose("c", 4), k = (int)sv_choose("k", 4), mx = (int)sv_concretize(SU("max", 1, 40)), t = SI("t", 1, 60); std::vector<int> vp(P[c], P[c] + k); int cnt = 0, bad = 0;
    from_primes<int64_t>(vp, (int64_t)mx, [&](const vf_t& vf, int64_t n) { cnt += n == t; int64_t r = 1; for (auto& f : vf) for (int i = 0; i < f.second; i++) r *= f.first; bad += r != n; }); CHECK(bad == 0, "factorization matches the number");
    bool sm[61]; for (int i = 1; i <= 60; i++) { int m = i; for (int p : vp) while (m % p == 0) m /= p; sm[i] = m == 1 && i <= mx; } CHECK(cnt == (sm[t] ? 1 : 0), "exactly the smooth numbers up to n_max");
}
//@ C02 fz_fracreduce t=100 automerge=1 -- fraction_reduce: same value, every denominator coprime to every numerator
ENTRY fz_fracreduce() {
    std::vector<int> a, b; for (int i = 0; i < 2; i++) a.push_back((int)sv_concretize(SU("a", 1, 8))); for (int i = 0; i < 2; i++) b.push_back((int)sv_concretize(SU("b", 1, 8))); int pa = a[0] * a[1], pb = b[0] * b[1]; fraction_reduce(a, b, [](int x, int y) { return gcdc(x, y); });
    int qa = a[0] * a[1], qb = b[0] * b[1]; CHECK(pa * qb == pb * qa, "value is kept"); CHECK(gcdc(qa, qb) == 1, "nothing left to cancel");
}
//@ C02 fz_digits t=100 automerge=1 -- integer_digits/from_digits round trip for every 20-bit number, every base to 12
ENTRY fz_digits() {
    int b = 2 + (int)sv_choose("b", 11), len = (int)sv_choose("len", 3) * 3; int n = SI("n", 0, 1 << 12); auto d = integer_digits<int, int>(n, b, len); int s = 0, w = 1; for (size_t i = 0; i < d.size(); i++) { CHECK(d[i] >= 0 && d[i] < b, "digit range"); s += d[i] * w; w *= b; } CHECK(s == n, "digits represent the number"); CHECK((int)d.size() >= len && ((int)d.size() == len || d.back() != 0), "no leading zero beyond len"); CHECK((from_digits<int, int>(d, b)) == n, "from_digits");
}
//@ C02 fz_string t=60 -- integer_string: lowercase digits, most significant first
ENTRY fz_string() { int b = 2 + (int)sv_choose("b", 35); int d0 = SI("d0", 0, 35), d1 = SI("d1", 1, 35); sv_assume(d0 < b); sv_assume(d1 < b); auto s = integer_string(std::vector<int>{d0, d1}); auto ch = [](int d) { return d < 10 ? '0' + d : 'a' + d - 10; }; CHECK(s.size() == 2 && s[0] == ch(d1) && s[1] == ch(d0), "integer_string of digits"); }
