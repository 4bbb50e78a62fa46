// Convolutions and the Fourier transform over finite rings (algorithm/math/convolutions.h, fft.h, structure/math/root_wrapper.h)
#include "field.h"
#include "altruct/algorithm/math/convolutions.h"
#include "altruct/algorithm/math/fft.h"
#include "altruct/structure/math/root_wrapper.h"
#include <vector>
using namespace altruct::math;
typedef std::vector<W32> V;
static V sym(int n, const char* nm) { V v; for (int i = 0; i < n; i++) v.push_back(w32(nm)); return v; }
template<typename F> static V kconv(const V& f, const V& g, F k) { V r(f.size()); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < g.size(); j++) r[k((int)i, (int)j)] += f[i] * g[j]; return r; }
template<typename C> static void run(const V& f, const V& g, C c, const V& e, const char* msg) { // every permitted aliasing
    int al = (int)sv_choose("alias", 5); V F = f, G = al >= 3 ? f : g, R(f.size(), W32(77)); W32 *pf = F.data(), *pg = al >= 3 ? pf : G.data(), *pr = al == 0 || al == 3 ? R.data() : al == 2 ? pg : pf; c(pr, pf, pg);
    for (size_t i = 0; i < f.size(); i++) CHECK(pr[i] == e[i], msg); }
template<typename A> static void pick(int L, A a) { (void)L; (void)a; }
//@ F03 conv_and t=60 q:L=4 Q:L=5 -- and / or / max convolution with every aliasing (same array twice included)
ENTRY conv_and() {
    int L = (int)sv_choose("log", sv_param("L", 3) + 1), n = 1 << L; V f = sym(n, "f"), g = sym(n, "g"); int op = (int)sv_choose("op", 2); bool same = sv_choose("same", 2); if (same) g = f;
    auto AND = [](int i, int j) { return i & j; }; auto OR = [](int i, int j) { return i | j; };
    V e = op == 0 ? kconv(f, g, AND) : kconv(f, g, OR); auto call = [&](W32* r, W32* a, W32* b) { if (op == 0) and_convolution(r, a, b, L); else or_convolution(r, a, b, L); };
    if (same) run(f, g, call, e, "and/or convolution"); else { V F = f, G = g, R(n); int al = (int)sv_choose("alias", 3); W32* pr = al == 0 ? R.data() : al == 1 ? F.data() : G.data(); call(pr, F.data(), G.data()); for (int i = 0; i < n; i++) CHECK(pr[i] == e[i], "and/or convolution"); }
    V s(n); if (op == 0) slow_and_convolution(s.data(), f.data(), g.data(), L); else slow_or_convolution(s.data(), f.data(), g.data(), L); for (int i = 0; i < n; i++) CHECK(s[i] == e[i], "slow and/or convolution");
}
//@ F03 conv_max t=60 q:N=9 Q:N=14
ENTRY conv_max() {
    int n = 1 + (int)sv_choose("n", sv_param("N", 6)); V f = sym(n, "f"), g = sv_choose("same", 2) ? f : sym(n, "g"); V e = kconv(f, g, [](int i, int j) { return i > j ? i : j; }), s(n), F = f, G = g, R(n); int al = (int)sv_choose("alias", 3); W32* pr = al == 0 ? R.data() : al == 1 ? F.data() : G.data(); max_convolution(pr, F.data(), G.data(), n); for (int i = 0; i < n; i++) CHECK(pr[i] == e[i], "max convolution");
    slow_max_convolution(s.data(), f.data(), g.data(), n); for (int i = 0; i < n; i++) CHECK(s[i] == e[i], "slow max convolution"); V c(n), ce = kconv(f, g, [&](int i, int j) { return (i + j) % n; }); slow_cyclic_convolution(c.data(), f.data(), g.data(), n); for (int i = 0; i < n; i++) CHECK(c[i] == ce[i], "slow cyclic convolution");
}
// exact small integers, so that the division by n in the xor convolution is meaningful
struct Z { int64_t v; Z(int64_t x = 0) : v(x) {} Z operator+(Z o) const { return v + o.v; } Z operator-(Z o) const { return v - o.v; } Z operator*(Z o) const { return v * o.v; } Z& operator+=(Z o) { v += o.v; return *this; } Z& operator-=(Z o) { v -= o.v; return *this; } Z& operator/=(int n) { CHECK(v % n == 0, "the xor convolution divides exactly"); v = v / n; return *this; } bool operator==(Z o) const { return v == o.v; } };
//@ F03 conv_xor t=100 q:L=4 Q:L=5 -- xor convolution over a field of odd characteristic, every aliasing
ENTRY conv_xor() {
    typedef Fp<17> T; int L = (int)sv_choose("log", sv_param("L", 3) + 1), n = 1 << L; std::vector<T> f, g, e(n), s(n), R(n); bool same = sv_choose("same", 2); for (int i = 0; i < n; i++) f.push_back(T::sym("f")); for (int i = 0; i < n; i++) g.push_back(same ? f[i] : T::sym("g"));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i ^ j] += f[i] * g[j]; slow_xor_convolution(s.data(), f.data(), g.data(), L); for (int i = 0; i < n; i++) CHECK(s[i] == e[i], "slow xor convolution");
    int al = (int)sv_choose("alias", same ? 5 : 3); std::vector<T> F = f, G = g; T* pg = al >= 3 ? F.data() : G.data(); T* pr = al == 0 || al == 3 ? R.data() : al == 2 ? G.data() : F.data(); xor_convolution(pr, F.data(), pg, L); for (int i = 0; i < n; i++) CHECK(pr[i] == e[i], "xor convolution");
}
//@ F03 conv_subset t=80 q:L=4 Q:L=5 -- subset sums, their inverse and the subset convolution against the definition
ENTRY conv_subset() {
    int L = (int)sv_choose("log", sv_param("L", 3) + 1), n = 1 << L; V f = sym(n, "f"), g = sym(n, "g"), z(n), c(n); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if ((i & k) == i) { z[k] += f[i]; c[k] += f[i] * g[k ^ i]; }
    V r(n), F = f; switch (sv_choose("op", 7)) {
    case 0: fast_subset_sum(r.data(), F.data(), L); for (int i = 0; i < n; i++) CHECK(r[i] == z[i] && F[i] == f[i], "subset sum"); break;
    case 1: fast_subset_sum(F.data(), F.data(), L); for (int i = 0; i < n; i++) CHECK(F[i] == z[i], "subset sum in place"); break;
    case 2: slow_subset_sum(r.data(), F.data(), L); for (int i = 0; i < n; i++) CHECK(r[i] == z[i], "slow subset sum"); break;
    case 3: F = z; fast_subset_sum_inverse(r.data(), F.data(), L); for (int i = 0; i < n; i++) CHECK(r[i] == f[i], "Moebius inversion"); break;
    case 4: F = z; fast_subset_sum_inverse(F.data(), F.data(), L); for (int i = 0; i < n; i++) CHECK(F[i] == f[i], "Moebius inversion in place"); break;
    case 5: slow_subset_convolution(r.data(), F.data(), g.data(), L); for (int i = 0; i < n; i++) CHECK(r[i] == c[i], "slow subset convolution"); break;
    case 6: { int al = (int)sv_choose("alias", 2); W32* pr = al ? F.data() : r.data(); fast_subset_convolution(pr, F.data(), g.data(), L); for (int i = 0; i < n; i++) CHECK(pr[i] == c[i], "subset convolution"); break; }
    }
}
typedef Fp<17> T; static T w16(int order) { T w(3); for (int k = 16; k > order; k /= 2) w = w * w; return w; }
static std::vector<T> syT(int n, const char* nm) { std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(T::sym(nm)); return v; }
static std::vector<T> dft(const std::vector<T>& a, T w) { int n = (int)a.size(); std::vector<T> r(n); T wk(1); for (int k = 0; k < n; k++) { T x(1); for (int j = 0; j < n; j++) { r[k] = r[k] + a[j] * x; x = x * wk; } wk = wk * w; } return r; }
//@ F03 fft_dft t=80 q:L=4 -- both transforms equal the defining sum, with the root and with its inverse, and through root_wrapper
ENTRY fft_dft() {
    int L = (int)sv_choose("log", sv_param("L", 3) + 1), n = 1 << L; T w = w16(n); bool inv = sv_choose("inv", 2); if (inv) { T u(1); for (int i = 0; i + 1 < n; i++) u = u * w; w = u; } std::vector<T> a = syT(n, "a"), e = dft(a, w), d(n), x = a;
    switch (sv_choose("op", 3)) {
    case 0: fft(x.data(), n, w); for (int i = 0; i < n; i++) CHECK(x[i] == e[i], "in-place transform"); break;
    case 1: fft_rec(d.data(), x.data(), n, w); for (int i = 0; i < n; i++) CHECK(d[i] == e[i] && x[i] == a[i], "recursive transform"); break;
    case 2: { T rs[16]; int sz = n * (int)(16 / n > 1 && sv_choose("wide", 2) ? 2 : 1); T b = w16(sz); rs[0] = T(1); for (int i = 1; i < sz; i++) rs[i] = rs[i - 1] * b; root_wrapper<T> rw(rs, sz, (inv ? sz - sz / n : sz / n) & (sz - 1)); fft(x.data(), n, rw); for (int i = 0; i < n; i++) CHECK(x[i] == e[i], "transform through a root table"); break; }
    }
}
//@ F03 fft_conv t=100 q:N=6 q:M=5 Q:N=8 Q:M=8 -- ordinary and cyclic convolution of sequences of any lengths
ENTRY fft_conv() {
    int n = 1 + (int)sv_choose("n", sv_param("N", 4)), m = 1 + (int)sv_choose("m", sv_param("M", 4)); std::vector<T> u = syT(n, "u"), v = syT(m, "v"); 
    if (sv_choose("op", 2) == 0) { auto r = convolution<T>(u.begin(), u.end(), v.begin(), v.end(), T(3), 16); std::vector<T> e(n + m - 1); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) e[i + j] += u[i] * v[j]; CHECK((int)r.size() == n + m - 1, "length"); for (int i = 0; i < n + m - 1; i++) CHECK(r[i] == e[i], "ordinary convolution"); }
    else { auto r = cyclic_convolution<T>(u.begin(), u.end(), v.begin(), v.end(), T(3), 16); CHECK((int)r.size() == n + m - 1, "length"); for (int k = 0; k < n + m - 1; k++) { T e(0); for (int i = 0; i < n; i++) e += u[i] * v[((k - i) % m + m) % m]; CHECK(r[k] == e, "cyclic convolution of the kernel with the list"); } }
}
//@ F03 fft_cyc t=100 q:L=4 -- cyclic convolution of two arrays with a root of a larger order
ENTRY fft_cyc() {
    int L = (int)sv_choose("log", sv_param("L", 3) + 1), n = 1 << L; int order = n << (int)sv_choose("more", 5 - L); std::vector<T> a = syT(n, "a"), b = syT(n, "b"), r(n), e(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[(i + j) % n] += a[i] * b[j]; fft_cyclic_convolution(r.data(), a.data(), b.data(), n, w16(order), order); for (int i = 0; i < n; i++) CHECK(r[i] == e[i], "cyclic convolution");
}
