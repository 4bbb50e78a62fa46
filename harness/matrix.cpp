// Matrices over a ring and over a field (structure/math/matrix.h)
#include "field.h"
#include "altruct/structure/math/matrix.h"
#include <vector>
using namespace altruct::math;
typedef G3 F3; typedef Fp<5> F5; typedef Fp<7> F7;
template<typename T> static matrix<T> sm(int n, int m, T (*f)(const char*), const char* nm) { matrix<T> r(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i][j] = f(nm); return r; }
template<typename T> static bool eq(const matrix<T>& a, const matrix<T>& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; bool r = true; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) r = r & (a[i][j] == b[i][j]); return r; }
// independent product
template<typename T> static matrix<T> prod(const matrix<T>& a, const matrix<T>& b) { matrix<T> r(a.rows(), b.cols()); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < b.cols(); j++) { T s(0); for (int k = 0; k < b.rows(); k++) s = s + a[i][k] * b[k][j]; r[i][j] = s; } return r; }
template<typename T> static T leib(const matrix<T>& a, int n, int rm, int cm) { // determinant of the rows >= n - |..| by expansion along the first row left
    int i = 0; while (i < a.rows() && (rm >> i & 1)) i++; if (i >= n) return T(1); T s(0); int sg = 0;
    for (int j = 0; j < n; j++) if (!(cm >> j & 1)) { T t = a[i][j] * leib(a, n, rm | 1 << i, cm | 1 << j); s = sg ? s - t : s + t; sg ^= 1; } return s;
}
//@ G01 mat_ring t=60 q:N=3 Q:N=4 -- sum, difference, negation, product, scalar product, transpose and blocks, entrywise, for every shape
ENTRY mat_ring() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N), m = 1 + (int)sv_choose("m", N), p = 1 + (int)sv_choose("p", N); auto a = sm(n, m, w32, "a"), b = sm(n, m, w32, "b"), c = sm(m, p, w32, "c"); W32 s = w32("s");
    auto add = a + b, sub = a - b, neg = -a, sc = a * s, tr = a.transpose(), pr = a * c; CHECK(eq(+a, a), "unary plus"); CHECK(tr.rows() == m && tr.cols() == n && pr.rows() == n && pr.cols() == p, "shapes");
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) CHECK(add[i][j] == a[i][j] + b[i][j] && sub[i][j] == a[i][j] - b[i][j] && neg[i][j] == -a[i][j] && sc[i][j] == a[i][j] * s && tr[j][i] == a[i][j], "entrywise operations");
    CHECK(eq(pr, prod(a, c)), "product"); auto x = a; x += b; CHECK(eq(x, add), "+="); x = a; x -= b; CHECK(eq(x, sub), "-="); x = a; x *= c; CHECK(eq(x, pr), "*="); x = a; x *= s; CHECK(eq(x, sc), "*= scalar"); x = a; x += x; CHECK(eq(x, a + a), "+= self"); x = a; x -= x; CHECK(eq(x, zeroOf(a)), "-= self"); CHECK(eq((a * c).transpose(), prod(c.transpose(), a.transpose())), "transpose of a product");
    int i0 = (int)sv_choose("i0", n), j0 = (int)sv_choose("j0", m), h = (int)sv_choose("h", n - i0 + 1), w = (int)sv_choose("w", m - j0 + 1); matrix<W32> blk(a, i0, j0, h, w); int H = h ? h : n - i0, Wd = w ? w : m - j0; CHECK(blk.rows() == H && blk.cols() == Wd, "block shape"); for (int i = 0; i < H; i++) for (int j = 0; j < Wd; j++) CHECK(blk[i][j] == a[i0 + i][j0 + j], "block");
}
//@ G01 mat_scalar t=60 q:N=3 Q:N=4 -- scaling by an entry of the matrix itself, in place
ENTRY mat_scalar() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N), m = 1 + (int)sv_choose("m", N), i = (int)sv_choose("i", n), j = (int)sv_choose("j", m); auto a = sm(n, m, w32, "a"), x = a; W32 s = a[i][j]; x *= x[i][j]; for (int k = 0; k < n; k++) for (int l = 0; l < m; l++) CHECK(x[k][l] == a[k][l] * s, "entry scaled by the old value of an entry");
    auto f = sm(2, 2, &F5::sym, "f"), y = f; int k = (int)sv_choose("k", 2), l = (int)sv_choose("l", 2); sv_assume(f[k][l].v != 0); F5 t = f[k][l]; y /= y[k][l]; for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) CHECK(y[p][q] * t == f[p][q], "entry divided by the old value of an entry");
}
//@ G01 mat_self t=60 q:N=3 Q:N=4 -- squares, powers, identity, zero and casts
ENTRY mat_self() {
    int N = (int)sv_param("N", 3), n = 1 + (int)sv_choose("n", N), e = (int)sv_choose("e", 6); auto a = sm(n, n, w32, "a"), p = matrix<W32>::identity(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(p[i][j] == W32(i == j), "identity"); for (int i = 0; i < e; i++) p = prod(p, a); CHECK(eq(a.pow(e), p), "power"); auto x = a; x *= x; CHECK(eq(x, prod(a, a)), "*= self"); CHECK(eq(identityOf(a), matrix<W32>::identity(n)), "identityOf"); auto z = zeroOf(a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(z[i][j] == W32(0), "zeroOf"); W32 s = w32("s"); auto c = castOf(a, s); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(c[i][j] == (i == j ? s : W32(0)), "cast of a scalar is a scalar matrix"); auto b = sm(n, n, w32, "b"); matrix<W32> u = a, v = b; u.swap(v); CHECK(eq(u, b) && eq(v, a), "swap");
}
template<typename T> static void gauss(int n, int first = -1) {
    auto a = sm(n, n, &T::sym, "a"); if (first >= 0) a[0][0] = T(first); T d = leib(a, n, 0, 0); int full = (1 << n) - 1, rk = 0; bool nz = false;
    for (int r = 0; r <= full; r++) for (int c = 0; c <= full; c++) if (__builtin_popcount(r) == __builtin_popcount(c)) { // minor left after removing rows r and columns c
        T mn = leib(a, n, r, c); int k = n - __builtin_popcount(r); rk = (int)sv_ite((mn.v != 0) & (k > rk), k, rk); (void)nz; }
    int rank = a.rank(); CHECK(rank == rk, "rank is the order of the largest non-zero minor"); CHECK(a.det() == d, "determinant");
    matrix<T> m = a, inv; T det; int r2 = matrix<T>::gauss(m, inv, det); CHECK(r2 == rk && det == d, "gauss reports rank and determinant"); CHECK(eq(prod(inv, a), m), "gauss records the row operations: inv * input = reduced matrix");
    if (rank == n) { CHECK(eq(m, matrix<T>::identity(n)), "a regular matrix reduces to the identity"); auto id = matrix<T>::identity(n); CHECK(eq(prod(a, a.inverse()), id) && eq(prod(a.inverse(), a), id), "inverse"); }
}
//@ G01 mat_gauss2 t=100 -- rank, determinant and inverse of every 1x1 and 2x2 matrix over Z/7 and Z/3
ENTRY mat_gauss2() { int n = 1 + (int)sv_choose("n", 2); if (sv_choose("f", 2)) gauss<F7>(n); else gauss<F3>(n); }
//@ G01 mat_gauss3 t=110 T=600 C=0 -- rank, determinant and inverse of every 3x3 matrix over Z/3, by first entry
//@ G01 mat_gauss3 t=110 T=600 C=1 -- rank, determinant and inverse of every 3x3 matrix over Z/3, by first entry
//@ G01 mat_gauss3 t=110 T=600 C=2 -- rank, determinant and inverse of every 3x3 matrix over Z/3, by first entry
//@ G01 mat_gauss3 t=110 T=600 C=3 -- rank, determinant and inverse of every 3x3 matrix over Z/2
ENTRY mat_gauss3() { int c = (int)sv_param("C", 0); if (c == 3) gauss<Fp<2>>(3); else gauss<F3>(3, c); }
//@ G01 mat_gauss4 t=120 T=600 tier=thorough -- rank, determinant and inverse of every 4x4 matrix over Z/2
ENTRY mat_gauss4() { gauss<Fp<2>>(4); }
//@ G01 mat_div t=100 -- division undoes multiplication, negative powers
ENTRY mat_div() {
    int n = 1 + (int)sv_choose("n", 2); auto a = sm(n, n, &F3::sym, "a"), b = sm(n, n, &F3::sym, "b"); sv_assume(leib(a, n, 0, 0).v != 0); auto q = b / a; CHECK(eq(prod(q, a), b), "(b / a) * a = b"); auto x = b; x /= a; CHECK(eq(x, q), "/="); x = a; x /= x; CHECK(eq(x, matrix<F3>::identity(n)), "/= self"); int e = 1 + (int)sv_choose("e", 3); auto p = matrix<F3>::identity(n); for (int i = 0; i < e; i++) p = prod(p, a); CHECK(eq(prod(a.pow(-e), p), matrix<F3>::identity(n)), "negative power"); F3 s = F3::sym("s"); sv_assume(s.v != 0); CHECK(eq((b / s) * s, b), "division by a scalar");
}
//@ G01 mat_cmp t=60 -- comparisons are lexicographic by rows
ENTRY mat_cmp() {
    int n = 1 + (int)sv_choose("n", 2), m = 1 + (int)sv_choose("m", 2); auto g = [&](const char* nm) { matrix<uint8_t> r(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[i][j] = (uint8_t)SU(nm, 0, 255); return r; }; auto a = g("a"), b = g("b"); uint32_t x = 0, y = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) x = x << 8 | a[i][j], y = y << 8 | b[i][j];
    CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality"); CHECK((a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order");
}
