// Integer helpers of algorithm/math/base.h
#include "sv.h"
#include "altruct/algorithm/math/base.h"
using namespace altruct::math;
typedef __int128 i128;
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
#define SL(n, lo, hi) ((int64_t)sv_sym_i(n, lo, hi))

//@ A01 a01_isqrt t=60 -- isqrt/isqrtc are the exact floor/ceil square roots over the whole documented range
ENTRY a01_isqrt() {
    int64_t x = SL("x", 0, (1LL << 62) - (1LL << 33));
    int64_t q = isqrt(x);
    CHECK(q >= 0 && q * q <= x && (q + 1) * (q + 1) > x, "isqrt is the floor square root");
}
//@ A01 a01_isqrtc t=60
ENTRY a01_isqrtc() {
    int64_t x = SL("x", 0, (1LL << 62) - (1LL << 33));
    int64_t c = isqrtc(x);
    CHECK(c >= 0 && c * c >= x && (c == 0 || (c - 1) * (c - 1) < x), "isqrtc is the ceiling square root");
}
//@ A01 a01_isqrt_neg t=60
ENTRY a01_isqrt_neg() {
    int64_t x = SL("x", -(1LL << 40), -1);
    int64_t q = isqrt(x), c = isqrtc(x);
    CHECK(q <= 0 && q * q <= -x && (q - 1) * (q - 1) > -x, "isqrt of a negative number rounds towards 0");
    CHECK(c < 0 && c * c >= -x && (c + 1) * (c + 1) < -x, "isqrtc of a negative number rounds away from 0");
}
//@ A01 a01_icbrt t=60
ENTRY a01_icbrt() {
    int64_t x = SL("x", 0, (1LL << 62));
    int64_t q = icbrt(x);
    CHECK(q >= 0 && q * q * q <= x && (q + 1) * (q + 1) * (q + 1) > x, "icbrt is the floor cube root");
}
//@ A01 a01_icbrtc t=60
ENTRY a01_icbrtc() {
    int64_t x = SL("x", 0, (1LL << 62));
    int64_t c = icbrtc(x);
    CHECK(c >= 0 && c * c * c >= x && (c == 0 || (c - 1) * (c - 1) * (c - 1) < x), "icbrtc is the ceiling cube root");
}

template<typename I> void squareTest(int64_t hi) {
    I x = (I)SL("x", 0, hi); int64_t q = isqrt((int64_t)x);
    CHECK((int64_t)sqrtT(x) == q, "sqrtT agrees with isqrt");
    CHECK(is_square(x) == (q * q == (int64_t)x), "is_square holds exactly when the floor root squares back");
}
//@ A01 a01_square t=60 -- is_square/sqrtT of every integer type against isqrt
ENTRY a01_square() { switch (sv_choose("ty", 8)) { case 0: squareTest<int64_t>((1LL << 62) - (1LL << 33)); break; case 1: squareTest<uint64_t>((1LL << 62) - (1LL << 33)); break; case 2: squareTest<int32_t>(INT32_MAX); break; case 3: squareTest<uint32_t>(UINT32_MAX); break;
    case 4: squareTest<int16_t>(32767); break; case 5: squareTest<uint16_t>(65535); break; case 6: squareTest<int8_t>(127); break; case 7: squareTest<uint8_t>(255); break; } }
template<typename I> void cubeTest(int64_t hi) {
    I x = (I)SL("x", 0, hi); int64_t q = icbrt((int64_t)x);
    CHECK((int64_t)cbrtT(x) == q, "cbrtT agrees with icbrt");
    CHECK(is_cube(x) == (q * q * q == (int64_t)x), "is_cube holds exactly when the floor root cubes back");
}
//@ A01 a01_cube t=60
ENTRY a01_cube() { switch (sv_choose("ty", 2)) { case 0: cubeTest<int64_t>(1LL << 62); break; case 1: cubeTest<uint64_t>(1LL << 62); break;
    } }
//@ A01 a01_newton t=60 N=100 T=400 Q:N=400 -- the generic Newton iteration (used by types without a specialisation)
ENTRY a01_newton() {
    long long x = SL("x", 0, (int64_t)sv_param("N", 400));
    long long q = sqrtT<long long>(x);
    CHECK(q >= 0 && q * q <= x && (q + 1) * (q + 1) > x, "generic sqrtT rounds down");
}
//@ A01 a01_newton3 t=60 N=12 T=400 Q:N=60
ENTRY a01_newton3() {
    long long x = SL("x", 0, (int64_t)sv_param("N", 400));
    long long c = cbrtT<long long>(x);
    CHECK(c >= 0 && c * c * c <= x && (c + 1) * (c + 1) * (c + 1) > x, "generic cbrtT rounds down");
}

//@ A02 a02_div t=60 A=2000 B=60 Q:A=30000 Q:B=1000 -- floor/ceil/round division and multiple
ENTRY a02_div() {
    int A = sv_param("A", 2000), B = sv_param("B", 60);
    int a = SI("a", -A, A), b = SI("b", -B, B); sv_assume(b != 0);
    int f = div_floor(a, b), c = div_ceil(a, b), r = div_round(a, b);
    int rf = a - f * b, rc = a - c * b, rr = a - r * b;
    CHECK(b > 0 ? rf >= 0 && rf < b : rf <= 0 && rf > b, "div_floor rounds towards minus infinity");
    CHECK(b > 0 ? rc <= 0 && rc > -b : rc >= 0 && rc < -b, "div_ceil rounds towards plus infinity");
    int ab = b < 0 ? -b : b, ar = rr < 0 ? -rr : rr;
    CHECK(2 * ar <= ab, "div_round gives the nearest integer");
    int rabs = r < 0 ? -r : r, aabs = a < 0 ? -a : a; CHECK(2 * ar != ab || rabs * ab > aabs, "div_round rounds ties away from zero");
}
//@ A02 a02_multiple t=60
ENTRY a02_multiple() {
    int a = SI("a", 1, 60), b = SI("b", -2000, 2000);
    int m = multiple(a, b); CHECK(m % a == 0 && m >= b && m - a < b, "multiple is the least multiple of a that is >= b");
}
//@ A02 a02_div64 t=60 -- 64-bit operands of any magnitude, small divisors
ENTRY a02_div64() {
    static const int64_t ds[] = {1, 2, 3, -3};
    int64_t d = ds[sv_choose("d", 4)];
    int64_t q = SL("q", -(1LL << 40), (1LL << 40)), r = SL("r", 0, 9); sv_assume(r < (d < 0 ? -d : d));
    int64_t a = q * d + r; // floor quotient is q for d>0
    if (d > 0) { CHECK(div_floor(a, d) == q, "div_floor"); CHECK(div_ceil(a, d) == q + (r != 0), "div_ceil"); }
    else { CHECK(div_ceil(a, d) == q, "div_ceil of a negative divisor"); CHECK(div_floor(a, d) == q - (r != 0), "div_floor of a negative divisor"); }
}
static int iabs(int x) { return x < 0 ? -x : x; }
//@ A02 a02_gcd t=100 N=60 Q:N=300 -- gcd: divides both and every common divisor divides it; lcm; Bezout identity of gcd_ex
ENTRY a02_gcd() {
    int N = sv_param("N", 60);
    int a = SI("a", 0, N), b = SI("b", 0, N), d = SI("d", 1, N);
    int g = gcd(a, b);
    CHECK(g >= 0 && ((a == 0 && b == 0) ? g == 0 : g > 0), "gcd is positive unless both are 0");
    if (g > 0) { CHECK(a % g == 0 && b % g == 0, "gcd divides both"); CHECK(!(a % d == 0 && b % d == 0) || g % d == 0, "every common divisor divides the gcd"); }
}
//@ A02 a02_gcdneg t=100 N=24 Q:N=120
ENTRY a02_gcdneg() {
    int N = sv_param("N", 24);
    int a = SI("a", -N, N), b = SI("b", -N, N); sv_assume(a != 0 || b != 0);
    int g = gcd(a, b), h = gcd(iabs(a), iabs(b));
    CHECK(iabs(g) == h, "gcd of negative operands has the right magnitude");
}
//@ A02 a02_lcm t=100 N=40 Q:N=200
ENTRY a02_lcm() {
    int N = sv_param("N", 40);
    int a = SI("a", 1, N), b = SI("b", 1, N), m = SI("m", 1, N * N);
    int l = lcm(a, b);
    CHECK(l >= 1 && l % a == 0 && l % b == 0, "lcm is a common multiple"); CHECK(!(m % a == 0 && m % b == 0) || m >= l, "lcm is the least common multiple");
}
//@ A02 a02_gcdex t=150 N=30 Q:N=120
ENTRY a02_gcdex() {
    int N = sv_param("N", 30);
    int a = SI("a", -N, N), b = SI("b", -N, N); sv_assume(a != 0 || b != 0);
    int x, y, s, g = gcd_ex(a, b, &x, &y, &s), x2, y2;
    CHECK(a * x + b * y == g, "gcd_ex satisfies a*x+b*y=g");
    CHECK(iabs(g) == gcd(iabs(a), iabs(b)), "gcd_ex returns the gcd");
    CHECK(iabs(x) <= iabs(b) + 1 && iabs(y) <= iabs(a) + 1, "the coefficients are reduced");
    CHECK(gcd_ex(a, b, &x2) == g && x2 == x && gcd_ex<int>(a, b, nullptr, &y2) == g && y2 == y && gcd_ex(a, b) == g, "optional outputs do not change the result");
}
//@ A02 a02_gcdmax t=100 N=10 Q:N=60
ENTRY a02_gcdmax() {
    int N = sv_param("N", 24);
    int a = (int)sv_concretize(SI("a", 1, N)), b = SI("b", 1, N);
    int g = gcd_max(a, b);
    CHECK(g > 0 && b % g == 0, "gcd_max divides b"); CHECK(gcd(a, b / g) == 1, "what is left of b is coprime to a");
    // squarefree_kernel(g) divides a: any p dividing g and coprime to a must be 1
static const int ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23};
    for (int p : ps) CHECK(!(g % p == 0 && a % p != 0), "every prime divisor of gcd_max divides a");
}

// exponent counter: powT is generic, so its behaviour on the free monoid determines it for every associative product
struct Cnt { uint64_t e; Cnt(int one = 1) : e(0) {} Cnt& operator*=(const Cnt& o) { e += o.e; return *this; } Cnt operator*(const Cnt& o) const { Cnt r = *this; return r *= o; } };
//@ A02 a02_pow64 automerge=1 -- powT multiplies exactly y copies, every 64-bit exponent
ENTRY a02_pow64() { uint64_t y = sv_sym_u("y", 0, ~0ull); Cnt x; x.e = 1; Cnt r = powT(x, y); CHECK(r.e == y, "powT(x, y) is x multiplied y times"); }
//@ A02 a02_pow32 automerge=1
ENTRY a02_pow32() { int y = SI("y", 0, 2147483647); Cnt x; x.e = 1; Cnt r = powT(x, y); CHECK(r.e == (uint64_t)y, "powT(x, y) is x multiplied y times"); }
//@ A02 a02_powneg
ENTRY a02_powneg() { int y = SI("y", -2147483647 - 1, 0); Cnt x; x.e = 1; CHECK(powT(x, y).e == 0, "powT with a non-positive exponent is the identity"); }
//@ A02 a02_powint t=60
ENTRY a02_powint() { int64_t x = SL("x", -1000, 1000); int y = SI("y", 0, 6); int64_t r = 1; for (int i = 0; i < y; i++) r *= x; CHECK(powT(x, y) == r, "powT over the integers"); }
//@ A02 a02_minmax
ENTRY a02_minmax() {
    int64_t a = SL("a", INT64_MIN, INT64_MAX), b = SL("b", INT64_MIN, INT64_MAX), c = SL("c", INT64_MIN, INT64_MAX);
    int64_t mn = minT(a, b), mx = maxT(a, b);
    CHECK((mn == a || mn == b) && mn <= a && mn <= b && (mx == a || mx == b) && mx >= a && mx >= b, "minT and maxT");
    if (b <= c) { int64_t r = boundT(a, b, c); CHECK(r >= b && r <= c && (r == a || (a < b && r == b) || (a > c && r == c)), "boundT clamps"); }
    if (a != INT64_MIN) CHECK(absT(a) >= 0 && (absT(a) == a || absT(a) == -a), "absT");
}
