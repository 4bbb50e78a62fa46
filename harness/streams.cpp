// iostream_overloads.h and stream_tokenizer.h on stand-in streams: the output stand-in records characters and (symbolic)
// numbers as items, the input stand-in reads symbolic bytes with the standard's rules for get, unget, ws, skipws and >>.
#include "sv.h"
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <array>
#include <cctype>
struct Item { int kind; uint64_t v; };
struct Text { std::vector<Item> a; Text& s(const char* p) { while (*p) a.push_back(Item{0, (uint64_t)(unsigned char)*p++}); return *this; } Text& n(int64_t v) { a.push_back(Item{1, (uint64_t)v}); return *this; } Text& t(const Text& o) { for (auto& i : o.a) a.push_back(i); return *this; } };
static int isal(int c) { CHECK(c >= -1 && c <= 255, "isalnum is called with a value outside unsigned char"); return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
namespace std {
struct sv_ostream { Text o;
  sv_ostream& operator<<(int v) { o.n(v); return *this; } sv_ostream& operator<<(unsigned v) { o.n(v); return *this; } sv_ostream& operator<<(long v) { o.n(v); return *this; } sv_ostream& operator<<(unsigned long v) { o.n((int64_t)v); return *this; } sv_ostream& operator<<(long long v) { o.n(v); return *this; } sv_ostream& operator<<(unsigned long long v) { o.n((int64_t)v); return *this; } sv_ostream& operator<<(bool v) { o.n(v); return *this; } };
inline sv_ostream& operator<<(sv_ostream& s, const char* p) { s.o.s(p); return s; }
inline sv_ostream& operator<<(sv_ostream& s, char c) { s.o.a.push_back(Item{0, (uint64_t)(unsigned char)c}); return s; }
inline sv_ostream& operator<<(sv_ostream& s, const std::string& t) { for (char c : t) s.o.a.push_back(Item{0, (uint64_t)(unsigned char)c}); return s; }
struct sv_ios { typedef unsigned fmtflags; static const fmtflags sv_skipws = 4; };
struct sv_istream { unsigned char b[32]; int n = 0, p = 0; bool e = false, f = false; unsigned fl = 4 | 32;
  bool good() const { return !e && !f; } bool fail() const { return f; } bool eof() const { return e; } explicit operator bool() const { return !f; } bool operator!() const { return f; }
  static bool sp(unsigned char c) { return sv_concretize(c == ' ' || (c >= 9 && c <= 13)) != 0; }
  void skip() { while (p < n && sp(b[p])) p++; if (p == n) e = true; }
  bool sentry(bool noskip) { if (!good()) { f = true; return false; } if (!noskip && (fl & 4)) { skip(); if (e) { f = true; return false; } } return true; }
  sv_istream& get(char& c) { if (!sentry(true)) return *this; if (p == n) { e = f = true; return *this; } c = (char)b[p++]; return *this; }
  int get() { char c; get(c); return f ? -1 : (unsigned char)c; }
  int peek() { if (!good()) return -1; if (p == n) { e = true; return -1; } return b[p]; }
  sv_istream& unget() { e = false; if (f || p == 0) { f = true; return *this; } p--; return *this; }
  sv_istream& putback(char) { return unget(); }
  sv_istream& ignore() { char c; return get(c); }
  unsigned flags() const { return fl; } unsigned flags(unsigned g) { unsigned o = fl; fl = g; return o; } unsigned setf(unsigned g) { unsigned o = fl; fl |= g; return o; } void unsetf(unsigned g) { fl &= ~g; }
  sv_istream& operator>>(sv_istream& (*m)(sv_istream&)) { return m(*this); }
  sv_istream& operator>>(int& v) { int64_t w = 0; bool ok = num(w, INT32_MIN, INT32_MAX); if (ok || true) v = (int)w; return *this; }
  sv_istream& operator>>(long& v) { int64_t w = 0; num(w, INT64_MIN, INT64_MAX); v = w; return *this; }
  bool num(int64_t& w, int64_t lo, int64_t hi) { if (!sentry(false)) { w = 0; return false; } bool neg = false, any = false; if (p < n && sv_concretize(b[p] == '-' || b[p] == '+')) { neg = sv_concretize(b[p] == '-') != 0; p++; } __int128 x = 0; while (p < n && sv_concretize(b[p] >= '0' && b[p] <= '9')) { x = x * 10 + (b[p] - '0'); any = true; p++; } if (p == n) e = true; if (neg) x = -x; if (!any) { w = 0; f = true; return false; } w = (int64_t)x; if (x < lo || x > hi) { w = x < lo ? lo : hi; f = true; return false; } return true; } };
inline sv_istream& operator>>(sv_istream& s, char& c) { if (!s.sentry(false)) return s; if (s.p == s.n) { s.e = s.f = true; return s; } c = (char)s.b[s.p++]; return s; }
inline sv_istream& sv_ws(sv_istream& s) { if (!s.sentry(true)) return s; s.skip(); return s; }
inline sv_istream& sv_skipws(sv_istream& s) { s.fl |= 4; return s; }
inline sv_istream& sv_noskipws(sv_istream& s) { s.fl &= ~4u; return s; }
inline int sv_isalnum(int c) { return isal(c); }
}
#define ostream sv_ostream
#define istream sv_istream
#define ios_base sv_ios
#define ios sv_ios
#define ws sv_ws
#define skipws sv_skipws
#define noskipws sv_noskipws
#define isalnum sv_isalnum
#include "altruct/io/iostream_overloads.h"
#include "altruct/../../src/io/iostream_overloads.cpp"
#include "altruct/io/stream_tokenizer.h"
#undef ostream
#undef istream
#undef ios_base
#undef ios
#undef ws
#undef skipws
#undef noskipws
#undef isalnum
using namespace altruct::math;
#define SI(n, lo, hi) ((int)sv_sym_i(n, lo, hi))
static void eq(const std::sv_ostream& g, const Text& w, const char* m) { CHECK(g.o.a.size() == w.a.size(), m); for (size_t i = 0; i < w.a.size(); i++) { CHECK(g.o.a[i].kind == w.a[i].kind, m); CHECK(g.o.a[i].v == w.a[i].v, m); } }
static int I32(const char* n) { return SI(n, INT32_MIN, INT32_MAX); }
template<typename X> static Text list(const X& x) { Text t; t.s("{"); bool f = true; for (auto v : x) { if (!f) t.s(", "); f = false; t.n(v); } return t.s("}"); }
//@ H05 out_containers t=60 N=3 Q:N=5 -- pairs and containers of every length, nested
ENTRY out_containers() {
  int n = (int)sv_choose("n", sv_param("N", 3) + 1); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(I32("x")); std::sv_ostream s;
  switch (sv_choose("kind", 9)) {
  case 0: s << v; eq(s, list(v), "vector"); break;
  case 1: { int a = I32("a"), b = I32("b"); s << std::make_pair(a, (int64_t)b * 5) << std::make_pair(v, b); eq(s, Text().s("{").n(a).s(", ").n((int64_t)b * 5).s("}").s("{").t(list(v)).s(", ").n(b).s("}"), "pair"); break; }
  case 2: { std::array<int, 3> a{{I32("a"), I32("a"), I32("a")}}; s << a << std::array<int, 0>(); eq(s, list(a).s("{}"), "array"); break; }
  case 3: { std::set<int> a; for (int i = 0; i < n; i++) a.insert((int)sv_choose("e", 5)); s << a; eq(s, list(a), "set in order, each element once"); break; }
  case 4: { std::map<int, int> a; Text t; t.s("{"); for (int i = 0; i < n; i++) { int x = v[i]; a[(i * 7) % 5] = x; } bool f = true; for (int k = 0; k < 5; k++) if (a.count(k)) { if (!f) t.s(", "); f = false; t.s("{").n(k).s(", ").n(a[k]).s("}"); } s << a; eq(s, t.s("}"), "map as pairs in key order"); break; }
  case 5: { std::vector<std::vector<int>> a; Text t; t.s("{"); for (int i = 0; i < n; i++) { a.push_back(std::vector<int>(v.begin(), v.begin() + i)); if (i) t.s(", "); t.t(list(a[i])); } s << a; eq(s, t.s("}"), "nested vectors"); break; }
  case 6: { const char* d = sv_choose("delim", 2) ? "" : "; "; output_container(s, v, d); Text t; t.s("{"); for (int i = 0; i < n; i++) { if (i) t.s(d); t.n(v[i]); } eq(s, t.s("}"), "given delimiter"); break; }
  case 7: { triple<int> t{I32("a"), I32("b"), I32("c")}; s << t; eq(s, Text().s("{").n(t.a).s(", ").n(t.b).s(", ").n(t.c).s("}"), "triple"); break; }
  default: { std::unordered_set<int> u; std::unordered_map<int, int> w; s << u << w; int x = I32("x"); u.insert(3); w[4] = x; s << u << w; eq(s, Text().s("{}{}{").n(3).s("}{{").n(4).s(", ").n(x).s("}}"), "unordered containers"); break; } }
  sv_reach("out_containers");
}
typedef modulo<int, 1000003> md; typedef moduloX<int> mdx;
static bool fs() { return !iostream_fraction_state.always_output_denominator && !iostream_fraction_state.output_as_pair && !iostream_modulo_state.output_modulus && !iostream_modulo_state.output_as_pair && iostream_polynom_state.output_as_vector; }
//@ H05 out_numbers t=60 -- fraction and modulo in every combination of manipulators, and manipulators end with their scope
ENTRY out_numbers() {
  CHECK(fs(), "initial state of the manipulators"); std::sv_ostream s; int a = (int)sv_choose("p", 7) - 3, b = 1 + (int)sv_choose("q", 4); int m = SI("M", 1, INT32_MAX), x = SI("x", 0, INT32_MAX); sv_assume(x < m); bool den = sv_choose("den", 2), pair = sv_choose("pair", 2);
  { io_fraction_denominator d(den); io_modulo_modulus mm(den); io_fraction_as_pair p(pair); io_modulo_as_pair mp(pair); fraction<int> f(a, b); mdx v(x, m); s << f << v;
    int g = 1; for (int i = 2; i <= 4; i++) if (a % i == 0 && b % i == 0) g = i; Text t; if (pair) t.s("{").n(a / g).s(", ").n(b / g).s("}"); else { t.n(a / g); if (den || b / g != 1) t.s("/").n(b / g); }
    if (pair) t.s("{").n(x).s(", ").n(m).s("}"); else { t.n(x); if (den) t.s(" (mod ").n(m).s(")"); } eq(s, t, "fraction and modulo"); 
    { io_fraction_as_pair q(!pair); CHECK(iostream_fraction_state.output_as_pair == !pair, "inner manipulator"); } CHECK(iostream_fraction_state.output_as_pair == pair && iostream_fraction_state.always_output_denominator == den, "inner manipulator is undone"); }
  CHECK(fs(), "state is restored"); std::sv_ostream r; r << io_fraction_as_pair(true) << fraction<int>(a, 1) << io_modulo_modulus(true) << mdx(x, m); CHECK(fs(), "manipulators end with the expression"); sv_reach("out_numbers");
}
//@ H05 out_polynom t=60 N=3 Q:N=5 -- polynomials as a list or as terms, with zero and negative coefficients
ENTRY out_polynom() {
  int n = (int)sv_choose("n", sv_param("N", 3) + 1); polynom<int> p; std::vector<int> c; for (int i = 0; i < n; i++) c.push_back(sv_choose("zero", 2) ? 0 : I32("c")); p.c = c; std::sv_ostream s; bool vec = sv_choose("as", 2);
  for (int x : c) sv_concretize(x == 0);
  { io_polynom_as_vector v(vec); s << p; } Text t; if (vec) t = list(c); else { int k = 0; for (int i = n - 1; i >= 0; i--) { if (c[i] == 0) continue; if (k++) t.s(" + "); t.n(c[i]); if (i > 0) t.s(" x"); if (i > 1) t.s("^").n(i); } if (!k) t.n(0); }
  eq(s, t, "polynomial"); CHECK(fs(), "state is restored"); sv_reach("out_polynom");
}
static Text terms(std::initializer_list<std::pair<int, const char*>> l) { Text t; bool f = true; for (auto& x : l) { if (!f) t.s(" + "); f = false; t.n(x.first).s(" ").s(x.second); } return t; }
//@ H05 out_geometry t=60 -- vectors, matrices and geometric-algebra elements name every component once, in order
ENTRY out_geometry() {
  using namespace altruct::math::pga; std::sv_ostream s; int a[16]; for (int& x : a) x = I32("a"); typedef altruct::math::vector3d<int> V3;
  blade0<int> b0(a[0]); blade1<int> b1(a[1], V3(a[2], a[3], a[4])); blade2E<int> bE(V3(a[5], a[6], a[7])); blade2e<int> be(V3(a[8], a[9], a[10])); blade3<int> b3(a[11], V3(a[12], a[13], a[14])); blade4<int> b4(a[15]);
  Text t0 = terms({{a[0], "id"}}), t1 = terms({{a[1], "e0"}, {a[2], "e1"}, {a[3], "e2"}, {a[4], "e3"}}), tE = terms({{a[5], "e23"}, {a[6], "e31"}, {a[7], "e12"}}), te = terms({{a[8], "e01"}, {a[9], "e02"}, {a[10], "e03"}}), t3 = terms({{a[11], "e123"}, {a[12], "e032"}, {a[13], "e013"}, {a[14], "e021"}}), t4 = terms({{a[15], "e0123"}});
  auto plus = [](Text x, const Text& y) { return x.s(" + ").t(y); };
  switch (sv_choose("kind", 19)) {
  case 0: s << b0; eq(s, t0, "blade0"); break; case 1: s << b1; eq(s, t1, "blade1"); break; case 2: s << bE; eq(s, tE, "blade2E"); break; case 3: s << be; eq(s, te, "blade2e"); break; case 4: s << b3; eq(s, t3, "blade3"); break; case 5: s << b4; eq(s, t4, "blade4"); break;
  case 6: s << blade02E<int>(b0, bE); eq(s, plus(t0, tE), "blade02E"); break; case 7: s << blade02e<int>(b0, be); eq(s, plus(t0, te), "blade02e"); break; case 8: s << blade22<int>(bE, be); eq(s, plus(tE, te), "blade22"); break; case 9: s << blade2E4<int>(bE, b4); eq(s, plus(tE, t4), "blade2E4"); break; case 10: s << blade2e4<int>(be, b4); eq(s, plus(te, t4), "blade2e4"); break;
  case 11: s << blade13<int>(b1, b3); eq(s, plus(t1, t3), "blade13"); break; case 12: s << altruct::math::pga::zero<int>(); eq(s, Text().s("0"), "zero"); break;
  case 13: { blade024<int> m{blade02E<int>(b0, bE), blade2e4<int>(be, b4)}; s << m; eq(s, plus(plus(t0, tE), plus(te, t4)), "blade024"); break; }
  case 14: { blade024<int> m{blade02E<int>(b0, bE), blade2e4<int>(be, b4)}; altruct::math::pga::multivector<int> w(m, blade13<int>(b1, b3)); s << w; eq(s, plus(plus(plus(t0, tE), plus(te, t4)), plus(t1, t3)), "multivector"); break; }
  case 15: { cl3::rotor<int> r(a[0], a[1], a[2], a[3]); cl3::vector<int> v(a[4], a[5], a[6], a[7]); s << cl3::multivector<int>(r, v); eq(s, Text().s("{{").n(a[0]).s(", ").n(a[1]).s(", ").n(a[2]).s(", ").n(a[3]).s("}, {").n(a[4]).s(", ").n(a[5]).s(", ").n(a[6]).s(", ").n(a[7]).s("}}"), "cl3"); break; }
  case 16: { altruct::math::vector2d<int> v(a[0], a[1]); s << v; eq(s, Text().s("{").n(a[0]).s(", ").n(a[1]).s("}"), "vector2d"); break; }
  case 17: { matrix<int> m(2, 2); m[0][0] = a[0]; m[0][1] = a[1]; m[1][0] = a[2]; m[1][1] = a[3]; s << m; eq(s, Text().s("{{").n(a[0]).s(", ").n(a[1]).s("}, {").n(a[2]).s(", ").n(a[3]).s("}}"), "matrix"); break; }
  default: { symbolic x("x"), y("yz"); s << (x + y); eq(s, Text().s("(x+yz)"), "symbolic"); break; } }
  sv_reach("out_geometry");
}
using namespace altruct::io::stream_tokenizer;
static void fill(std::sv_istream& s, int n) { s.n = n; for (int i = 0; i < n; i++) s.b[i] = (unsigned char)sv_sym_u("byte", 0, 255); }
static bool fk(bool b) { return sv_concretize(b) != 0; }
template<typename P> static void one(std::sv_istream& s, bool (*ok)(unsigned char)) {
  int b = s.p; token<P> t; t.s = "junk"; s >> t; while (b < s.n && s.sp(s.b[b])) b++; int e = b; while (e < s.n && fk(ok(s.b[e]))) e++;
  CHECK((int)t.s.size() == e - b, "token is the longest run of accepted characters"); for (int i = b; i < e; i++) CHECK((unsigned char)t.s[i - b] == s.b[i], "characters of the token"); CHECK(s.p == e, "the first rejected character is not consumed"); CHECK(s.fail() == (e == s.n), "end of input is reported at its end only"); }
static bool okAl(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } static bool okBin(unsigned char c) { return c == '0' || c == '1'; } static bool okCom(unsigned char c) { return c != ','; } static bool okSem(unsigned char c) { return c != ';'; } static bool okTwo(unsigned char c) { return c != 'X' && c != 0xE9; } static bool okNot(unsigned char c) { return !okAl(c); }
//@ H05 tok_one t=60 N=4 Q:N=6 -- one token of every predicate from every byte string
ENTRY tok_one() { std::sv_istream s; fill(s, (int)sv_choose("n", sv_param("N", 3) + 1)); bool noskip = sv_choose("noskip", 2); if (noskip) s.fl &= ~4u; unsigned fl = s.fl; switch (sv_choose("pred", 6)) { case 0: one<alphanum_p>(s, okAl); break; case 1: one<allowed_p<'0', '1'>>(s, okBin); break; case 2: one<delimited_p<','>>(s, okCom); break; case 3: one<delimited_p<';'>>(s, okSem); break; case 4: one<delimited_p<'X', (char)0xE9>>(s, okTwo); break; default: one<not_p<alphanum_p>>(s, okNot); } CHECK(s.fl == fl, "format flags are kept"); sv_reach("tok_one"); }
// tokens joined by delimiters and read back
//@ H05 tok_list t=60 N=3 L=2 Q:N=4 -- fields of any content separated by runs of delimiters are read back, also an empty first one and trailing delimiters
ENTRY tok_list() {
  std::sv_istream s; int n = 1 + (int)sv_choose("fields", sv_param("N", 3)); unsigned char c[4][3]; int l[4]; bool semi = sv_choose("delim", 2); unsigned char d = semi ? ';' : ',';
  for (int i = 0; i < n; i++) { l[i] = i ? 1 + (int)sv_choose("len", sv_param("L", 2)) : (int)sv_choose("len", sv_param("L", 2) + 1); if (i) for (int k = 1 + (int)sv_choose("run", 2); k-- > 0;) s.b[s.n++] = d; for (int j = 0; j < l[i]; j++) { c[i][j] = (unsigned char)sv_sym_u("c", 0, 255); sv_assume(c[i][j] != d); if (j == 0) sv_assume(!(c[i][j] == ' ' || (c[i][j] >= 9 && c[i][j] <= 13))); s.b[s.n++] = c[i][j]; } }
  if (sv_choose("trail", 2)) s.b[s.n++] = d;
  bool noskip = sv_choose("noskip", 2); if (noskip) s.fl &= ~4u; unsigned fl = s.fl; std::vector<std::string> v;
  if (semi) { tokens_delimited_semicolon t; t.v.resize(2); s >> t; v = unbox_tokens(t); } else { tokens_delimited_comma t; s >> t; v = unbox_tokens(t); }
  CHECK((int)v.size() == n, "one token per field"); for (int i = 0; i < n; i++) { CHECK((int)v[i].size() == l[i], "length of a field"); for (int j = 0; j < l[i]; j++) CHECK((unsigned char)v[i][j] == c[i][j], "content of a field"); } CHECK(s.fl == fl, "format flags are restored"); sv_reach("tok_list");
}
//@ H05 tok_ints t=60 N=4 Q:N=5 -- integers separated by any single character and any spaces are read back
ENTRY tok_ints() {
  std::sv_istream s; int n = 1 + (int)sv_choose("n", sv_param("N", 3)); int x[6]; unsigned fl = s.fl;
  for (int i = 0; i < n; i++) { if (i) { unsigned char d = (unsigned char)sv_sym_u("d", 0, 255); sv_assume(!(d >= '0' && d <= '9')); s.b[s.n++] = d; if (sv_choose("space", 2)) s.b[s.n++] = ' '; } bool neg = sv_choose("neg", 2); if (neg) s.b[s.n++] = '-'; int dg = (int)sv_sym_u("digit", 0, 9); s.b[s.n++] = (unsigned char)('0' + dg); x[i] = neg ? -dg : dg; }
  ints_delimited_space t; s >> t; CHECK((int)t.v.size() == n, "one number per field"); for (int i = 0; i < n; i++) CHECK(t.v[i] == x[i], "value"); CHECK(s.fl == fl, "format flags are restored"); sv_reach("tok_ints");
}
