// Coefficient types for the algebra harnesses: the ring Z/2^w (wrapping unsigned) and the prime field Z/P.
#pragma once
#include "sv.h"
#include <type_traits>
#define SU(n, lo, hi) sv_sym_u(n, lo, hi)
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
// Z/2^8 or Z/2^32 with ring operations only
template<typename U> struct Wr {
    U v; Wr() : v(0) {} Wr(int x) : v((U)x) {} static Wr raw(U x) { Wr r; r.v = x; return r; }
    Wr operator+(Wr o) const { return raw((U)(v + o.v)); } Wr operator-(Wr o) const { return raw((U)(v - o.v)); } Wr operator+() const { return *this; } Wr operator-() const { return raw((U)(0 - v)); } Wr operator*(Wr o) const { return raw((U)((uint64_t)v * o.v)); }
    Wr& operator+=(Wr o) { return *this = *this + o; } Wr& operator-=(Wr o) { return *this = *this - o; } Wr& operator*=(Wr o) { return *this = *this * o; }
    Wr operator/(Wr o) const { return o.v == 1 ? *this : raw((U)(v / o.v)); } Wr& operator/=(Wr o) { return *this = *this / o; }
    bool operator==(Wr o) const { return v == o.v; } bool operator!=(Wr o) const { return v != o.v; } bool operator<(Wr o) const { return v < o.v; }
};
typedef Wr<uint8_t> W8; typedef Wr<uint32_t> W32;
static inline W32 w32(const char* n) { return W32::raw((uint32_t)SU(n, 0, 0xffffffffu)); }
static inline W8 w8(const char* n) { return W8::raw((uint8_t)SU(n, 0, 255)); }
// the field with P elements; division fixes the divisor
template<unsigned P, typename U = uint32_t> struct Fp {
    U v; Fp() : v(0) {} template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>> Fp(I x) : v((U)(((int64_t)x % (int64_t)P + P) % P)) {} static Fp raw(U x) { Fp r; r.v = x; return r; }
    static Fp sym(const char* n) { return raw((U)SU(n, 0, P - 1)); }
    Fp operator+(Fp o) const { return raw((U)((v + o.v) % P)); } Fp operator-(Fp o) const { return raw((U)((v + (P - o.v)) % P)); } Fp operator-() const { return raw((U)((P - v) % P)); } Fp operator*(Fp o) const { return raw((U)((v * o.v) % P)); }
    Fp inv() const { U d = (U)sv_concretize(v); for (U i = 0; i < P; i++) if (i * d % P == 1) return raw(i); return raw(0); }
    Fp operator/(Fp o) const { return *this * o.inv(); }
    Fp& operator+=(Fp o) { return *this = *this + o; } Fp& operator-=(Fp o) { return *this = *this - o; } Fp& operator*=(Fp o) { return *this = *this * o; } Fp& operator/=(Fp o) { return *this = *this / o; }
    bool operator==(Fp o) const { return v == o.v; } bool operator!=(Fp o) const { return v != o.v; } bool operator<(Fp o) const { return v < o.v; }
};
// the field with 3 elements in bit logic: cheap for the solver, and division needs no case split
struct G3 {
    uint8_t v; G3() : v(0) {} template<typename I, typename = std::enable_if_t<std::is_integral<I>::value>> G3(I x) : v((uint8_t)(((int64_t)x % 3 + 3) % 3)) {} static G3 raw(unsigned x) { G3 r; r.v = (uint8_t)x; return r; }
    static G3 sym(const char* n) { return raw((unsigned)SU(n, 0, 2)); }
    static G3 add(unsigned a, unsigned b) { unsigned a0 = a & 1, a1 = a >> 1, b0 = b & 1, b1 = b >> 1, za = (a0 | a1) ^ 1, zb = (b0 | b1) ^ 1; return raw(((a0 & zb) | (b0 & za) | (a1 & b1)) | ((a1 & zb) | (b1 & za) | (a0 & b0)) << 1); }
    G3 operator-() const { return raw((v >> 1 & 1u) | (v & 1u) << 1); } G3 operator+(G3 o) const { return add(v, o.v); } G3 operator-(G3 o) const { return *this + -o; }
    G3 operator*(G3 o) const { unsigned a0 = v & 1, a1 = v >> 1, b0 = o.v & 1, b1 = o.v >> 1; return raw(((a0 & b0) | (a1 & b1)) | ((a0 & b1) | (a1 & b0)) << 1); } G3 inv() const { return *this; } G3 operator/(G3 o) const { return *this * o; }
    G3& operator+=(G3 o) { return *this = *this + o; } G3& operator-=(G3 o) { return *this = *this - o; } G3& operator*=(G3 o) { return *this = *this * o; } G3& operator/=(G3 o) { return *this = *this / o; }
    bool operator==(G3 o) const { return v == o.v; } bool operator!=(G3 o) const { return v != o.v; } bool operator<(G3 o) const { return v < o.v; }
};
