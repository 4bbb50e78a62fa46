// Residue-class algorithms (algorithm/math/modulos.h)
#include "sv.h"
#include "altruct/algorithm/math/modulos.h"
using namespace altruct::math;
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
static int gcdc(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }
static int phic(int m) { int c = 0; for (int i = 1; i <= m; i++) c += gcdc(i, m) == 1; return c; }
static int powc(int64_t a, int64_t e, int m) { int64_t r = 1 % m; a %= m; while (e) { if (e & 1) r = r * a % m; a = a * a % m; e >>= 1; } return (int)r; }
static std::vector<int> primesc(int n) { std::vector<int> v; for (int p = 2; p <= n; p++) if (n % p == 0) { v.push_back(p); while (n % p == 0) n /= p; } return v; }
static std::vector<std::pair<int, int>> factc(int n) { std::vector<std::pair<int, int>> v; for (int p = 2; p <= n; p++) if (n % p == 0) { int e = 0; while (n % p == 0) n /= p, e++; v.push_back({p, e}); } return v; }

template<typename T> void crt(int N) {
    T n1 = (T)sv_concretize(SU("n1", 1, N)), n2 = (T)sv_concretize(SU("n2", 1, N)); int a1 = SI("a1", 0, N - 1), a2 = SI("a2", 0, N - 1); sv_assume(a1 < (int)n1); sv_assume(a2 < (int)n2);
    T a = 77, n = 77; chinese_remainder<T>(&a, &n, (T)a1, n1, (T)a2, n2); int g = gcdc((int)n1, (int)n2), l = (int)n1 / g * (int)n2; bool comp = (a1 - a2 + 64 * g) % g == 0;
    if (comp) { CHECK(n == (T)l, "modulus is the lcm"); CHECK(a >= 0 && a < n, "0 <= a < lcm"); CHECK((int)a % (int)n1 == a1 && (int)a % (int)n2 == a2, "both congruences hold"); }
    else CHECK(n == 0 && a == 0, "incompatible congruences are reported as (0, 0)");
    CHECK(chinese_remainder<T>((T)a1, n1, (T)a2, n2) == a, "value form"); T aa = (T)a1, nn = n1; chinese_remainder<T>(&aa, &nn, (T)a2, n2); CHECK(aa == a && nn == n, "accumulating form");
}
template<typename T> void mgcd(int N) { T a = (T)sv_concretize(SI("n1", 1, N)), b = (T)sv_concretize(SI("n2", 1, N)); T x = 99, y = 99, g = modulo_gcd_ex(a, b, x, y); CHECK(g == (T)gcdc((int)a, (int)b), "the gcd"); CHECK(x >= 0 && x < b + (b == 1) && y >= 0 && y < a + (a == 1), "coefficients are residues"); CHECK((a * x) % b == g % b && (b * y) % a == g % a, "modular Bezout identities"); }
//@ B02 mgcd_all t=60 N=24 Q:N=80 -- modulo_gcd_ex: coefficients are the residues with a*x = g (mod b), b*y = g (mod a), signed and unsigned types
ENTRY mgcd_all() { int N = (int)sv_param("N", 24); switch (sv_choose("type", 4)) { case 0: mgcd<int>(N); break; case 1: mgcd<uint32_t>(N); break; case 2: mgcd<int64_t>(N); break; default: mgcd<uint64_t>(N); } sv_reach("mgcd"); }
//@ B02 crt_i32 automerge=1 t=100 N=8 Q:N=16 -- chinese_remainder: all remainders, coprime or not
ENTRY crt_i32() { crt<int>(sv_param("N", 8)); }
//@ B02 crt_i64 automerge=1 t=100 N=6 Q:N=16
ENTRY crt_i64() { crt<int64_t>(sv_param("N", 8)); }
//@ B02 crt_big automerge=1 t=100 -- moduli whose product needs more than 32 bits (64-bit result)
ENTRY crt_big() {
    static const int64_t ms[][2] = {{65537, 65539}, {1000003, 1000033}, {1ll << 20, 1ll << 24}, {3 * 65537, 5 * 65537}, {1ll << 31, (1ll << 31) - 1}}; int k = (int)sv_choose("k", 5); int64_t n1 = ms[k][0], n2 = ms[k][1];
    int64_t a1 = SI("a1", 0, 3), b2 = SI("a2", 0, 3), a2 = sv_choose("hi", 2) ? n2 - 1 - b2 : b2; int64_t a, n; chinese_remainder<int64_t>(&a, &n, (int64_t)sv_concretize(a1), n1, (int64_t)sv_concretize(a2), n2);
    int64_t g = n1, gt = n2; while (gt) { int64_t t = g % gt; g = gt; gt = t; } int64_t l = n1 / g * n2;
    if ((a2 - a1) % g != 0) { CHECK(a == 0 && n == 0, "incompatible"); } else { CHECK(n == l && a >= 0 && a < n && a % n1 == a1 && a % n2 == a2, "64-bit result is exact"); }
}
typedef moduloX<int> mx;
//@ B02 garner_ t=100 automerge=1 L=4 Q:L=5 -- mixed radix digits: 0 <= x_i < p_i and every prefix reproduces the remainders
ENTRY garner_() {
    static const int P[][4] = {{2, 3, 5, 7}, {3, 4, 5, 7}, {9, 2, 5, 1}, {7, 5, 3, 2}, {8, 9, 5, 7}}; int k = (int)sv_choose("k", 5), n = (int)sv_choose("n", sv_param("L", 4)); std::vector<mx> v;
    for (int i = 0; i < n; i++) { int a = SI("a", 0, 8); sv_assume(a < P[k][i]); v.push_back(mx(a, P[k][i])); }
    auto x = garner(v); CHECK((int)x.size() == n, "one digit per congruence"); int u = 0, q = 1;
    for (int i = 0; i < n; i++) { CHECK(x[i].v >= 0 && x[i].v < P[k][i] && x[i].M() == P[k][i], "digit range and modulus"); u += x[i].v * q; q *= P[k][i]; for (int j = 0; j <= i; j++) CHECK(u % P[k][j] == v[j].v, "prefix value satisfies the congruences"); }
}
static int jac_ref(int n, int m) { int r = 1; for (auto& f : factc(m)) { int p = f.first, l = n % p == 0 ? 0 : -1; for (int z = 1; z < p; z++) if (z * z % p == n % p && n % p) l = 1; for (int i = 0; i < f.second; i++) r *= l; } return r; }
template<typename I> void jac(int N) {
    int m = (int)sv_concretize(SU("m", 0, N / 2)) * 2 + 1; int n = SI("n", 0, 4 * N); int ref = 0; int t[128]; for (int i = 0; i < m; i++) t[i] = jac_ref(i, m); ref = t[n % m];
    CHECK(jacobi<I>((I)n, (I)m) == ref, "Jacobi symbol is the product of Legendre symbols");
}
//@ B02 jacobi_i32 t=100 automerge=1 N=24 Q:N=60 -- Jacobi symbol against the definition (quadratic residues modulo each prime factor)
ENTRY jacobi_i32() { jac<int>(sv_param("N", 20)); }
//@ B02 jacobi_u64 t=100 automerge=1 N=12 Q:N=60
ENTRY jacobi_u64() { jac<uint64_t>(sv_param("N", 20)); }

static const int PR[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47};
template<typename I> void cip(int K) { int p = PR[sv_choose("p", K)]; int z = SI("z", 1, 46); sv_assume(z < p); int y = (int)sv_concretize(z * z % p); I r = sqrt_cipolla<I>((I)y, (I)p); CHECK(r >= 0 && r < (I)p, "root is reduced"); CHECK((int)r == z || (int)r == p - z, "sqrt_cipolla returns a square root"); }
//@ B03 cipolla_i32 t=100 K=12 Q:K=15 -- square roots modulo a prime
ENTRY cipolla_i32() { cip<int>(sv_param("K", 8)); }
//@ B03 cipolla_i64 t=100 K=12 Q:K=15 Q:K=12
ENTRY cipolla_i64() { cip<int64_t>(sv_param("K", 8)); }
//@ B03 hensel2 t=100 K=6 Q:K=9 automerge=1 -- square roots modulo 2^k: {x1, x2, -x1, -x2} is exactly the solution set
ENTRY hensel2() {
    int k = 1 + (int)sv_choose("k", sv_param("K", 7)), q = 1 << k; int y = SI("y", 0, 1 << 9), z = SI("z", 0, 1 << 9); sv_assume(y < q); sv_assume(z < q); sv_assume(y & 1); auto r = sqrt_hensel_lift_p2<int>(y, k);
    int a = r.first, b = r.second; if (((z * z - y) & (q - 1)) == 0) CHECK(z == (a & (q - 1)) || z == (b & (q - 1)) || z == (-a & (q - 1)) || z == (-b & (q - 1)), "every root is listed");
    if (a || b) CHECK(((a * a - y) & (q - 1)) == 0 && ((b * b - y) & (q - 1)) == 0, "listed values are roots");
}
//@ B03 hensel t=100 K=6 Q:K=12 -- square roots modulo an odd prime power
ENTRY hensel() {
    static const int P[][2] = {{3, 1}, {3, 2}, {3, 3}, {5, 2}, {7, 2}, {3, 4}, {5, 3}, {11, 2}, {13, 2}, {7, 3}, {3, 5}, {17, 2}}; int c = (int)sv_choose("c", sv_param("K", 6)); int p = P[c][0], k = P[c][1], q = powT(p, k); int z = SI("z", 1, 400); sv_assume(z < q); sv_assume(z % p != 0);
    int y = (int)sv_concretize(z * z % q); int r = sqrt_hensel_lift<int>(y, p, k); CHECK(r == z || r == q - z, "sqrt_hensel_lift returns plus or minus the root");
}
//@ B03 sqrtmod t=100 N=30 Q:N=80 -- sqrt_mod lists exactly the square roots, each once
ENTRY sqrtmod() {
    int m = (int)sv_concretize(SU("m", 2, sv_param("N", 30))), y = (int)sv_concretize(SU("y", 1, 80)), z = SI("z", 0, 80); sv_assume(y < m); sv_assume(z < m); sv_assume(gcdc(y, m) == 1);
    auto v = sqrt_mod<int>(y, factc(m)); bool in = false; int cnt = 0; for (int x : v) { CHECK(x >= 0 && x < m && (x * x - y) % m == 0, "listed values are roots"); cnt += x == z; } in = cnt > 0;
    CHECK(in == (z * z % m == y), "z is listed exactly when it is a root"); CHECK(cnt <= 1, "no duplicates");
}
//@ B03 multorder t=100 N=24 Q:N=60 -- multiplicative order: a^k = 1 and no smaller positive exponent works
ENTRY multorder() {
    int m = (int)sv_concretize(SU("m", 2, sv_param("N", 24))), a = (int)sv_concretize(SU("a", 1, 80)), j = SI("j", 1, 80); sv_assume(a < m); sv_assume(gcdc(a, m) == 1); int phi = phic(m);
    int k = multiplicative_order<int>(a, m, phi, primesc(phi)); CHECK(k >= 1 && k <= phi && powc(a, k, m) == 1 % m, "a^k = 1");
    int pw[81]; pw[0] = 1 % m; for (int i = 1; i <= 80; i++) pw[i] = pw[i - 1] * a % m; if (j < k) CHECK(pw[j] != 1 % m, "k is minimal");
}
//@ B03 primroot t=100 N=26 Q:N=60 -- primitive_root generates every unit and is 0 when there is none; root of unity has maximal order
ENTRY primroot() {
    int m = (int)sv_concretize(SU("m", 2, sv_param("N", 26))); int phi = phic(m); int g = primitive_root<int>(m, phi, primesc(phi)); int x = SI("x", 1, 80), c = SI("c", 1, 80); sv_assume(x < m); sv_assume(c < m);
    bool unit[81], gen[81]; for (int i = 0; i < 81; i++) unit[i] = gcdc(i, m) == 1, gen[i] = false;
    auto ord = [&](int a) { int k = 1, t = a % m; while (t != 1 % m && k < 100) t = t * a % m, k++; return k; }; int om[81]; for (int i = 0; i < 81; i++) om[i] = i < m && unit[i] ? ord(i) : 0;
    if (g) { int t = 1 % m; for (int i = 0; i < phi; i++) { gen[t] = true; t = t * g % m; } CHECK(g > 0 && g < m && unit[g], "root is a unit"); if (unit[x]) CHECK(gen[x], "every unit is a power of the root"); }
    else CHECK(!unit[c] || om[c] < phi, "0 only when no unit generates the group");
    int lam = 1; for (int i = 1; i < m; i++) if (unit[i]) lam = lam / gcdc(lam, om[i]) * om[i]; int r = primitive_root_of_unity<int>(m, lam, primesc(lam)); CHECK(m == 2 || (r > 0 && om[r] == lam), "primitive root of unity has the maximal order");
}
//@ B03 kthunity t=100 N=20 Q:N=50 -- kth_roots_of_unity / kth_roots are exactly the k-th roots (m = 2, 4, p^k, 2p^k)
ENTRY kthunity() {
    int m = (int)sv_concretize(SU("m", 3, sv_param("N", 20))), k = (int)sv_concretize(SU("k", 1, 13)), z = SI("z", 0, 80); sv_assume(z < m); int phi = phic(m); int g = primitive_root<int>(m, phi, primesc(phi)); if (!g) return;
    auto s = kth_roots_of_unity<int>(m, k, phi, g); bool in = false; for (int x : s) in |= x == z; int pw[81]; for (int i = 0; i < m; i++) pw[i] = powc(i, k, m); CHECK(in == (pw[z] == 1), "z is listed exactly when z^k = 1");
    int l = (int)sv_concretize(SU("l", 0, 60)); sv_assume(l < phi); int n = powc(g, l, m); auto t = kth_roots<int>(m, k, phi, g, l); in = false; for (int x : t) in |= x == z; CHECK(in == (pw[z] == n), "z is listed exactly when z^k = n");
}
//@ B03 dlog t=100 N=16 Q:N=40 -- discrete logarithms: a^x = b whenever b is a power of a; the reported order is the order of a
ENTRY dlog() {
    int m = (int)sv_concretize(SU("m", 2, sv_param("N", 16))), a = (int)sv_concretize(SU("a", 1, 80)), e = SI("e", 0, 60); sv_assume(a < m); sv_assume(gcdc(a, m) == 1); int phi = phic(m); sv_assume(e < phi);
    int t[81]; t[0] = 1 % m; for (int i = 1; i < 81; i++) t[i] = t[i - 1] * a % m; int b = (int)sv_concretize(t[e]); int ord = 1; while (t[ord] != 1 % m) ord++;
    int o = 0, x = discrete_log<int>(a, b, m, phi, primesc(phi), &o); CHECK(x >= 0 && powc(a, x, m) == b && o == ord, "discrete_log");
    int y = discrete_log_brute_force<int>(a, b, m); CHECK(y >= 0 && powc(a, y, m) == b && (y <= e), "brute force gives the smallest exponent");
    int w = discrete_log_baby_giant<int>(a, b, m, phi); CHECK(w >= 0 && powc(a, w, m) == b, "baby-step giant-step");
    if (primesc(m).size() == 1 && primesc(m)[0] == m && m > 2) { int s = discrete_log_shanks<int>(a, b, m); CHECK(powc(a, s, m) == b, "shanks"); s = discrete_log_oddp<int>(a, b, m); CHECK(powc(a, s, m) == b, "odd prime"); }
    auto f = factc(m); if (f.size() == 1) { int s = discrete_log_pp<int>(a, b, f[0].first, f[0].second); CHECK(s >= 0 && powc(a, s, m) == b, "prime power"); }
}
//@ B03 dlogbig t=100 tier=thorough
ENTRY dlogbig() { int p = 1103, a = (int)sv_concretize(SU("a", 2, 12)), e = SI("e", 0, 40); int t[41]; t[0] = 1; for (int i = 1; i < 41; i++) t[i] = t[i - 1] * a % p; int b = (int)sv_concretize(t[e]); int s = discrete_log_oddp<int>(a, b, p); CHECK(powc(a, s, p) == b, "Shanks above the brute-force limit"); }
