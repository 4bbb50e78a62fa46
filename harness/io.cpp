// readers and writers over scripted sources and sinks
#include "field.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <iostream>
#include <algorithm>
struct Src { int n = 0, at = 0; unsigned char b[24]; bool chunky = false; size_t take(char* d, size_t c) { size_t a = n - at; if (c > a) c = a; if (chunky && c > 1) c = 1 + sv_choose("chunk", c < 3 ? c : 3); for (size_t i = 0; i < c; i++) d[i] = (char)b[at++]; return c; } };
struct Snk { std::string s; int flushes = 0; };
static size_t sv_fread(void* d, size_t sz, size_t n, FILE* f) { return ((Src*)f)->take((char*)d, sz * n); }
static int sv_fgetc(FILE* f) { Src* s = (Src*)f; return s->at < s->n ? s->b[s->at++] : -1; }
static size_t sv_fwrite(const void* d, size_t sz, size_t n, FILE* f) { for (size_t i = 0; i < sz * n; i++) ((Snk*)f)->s.push_back(((const char*)d)[i]); return n; }
static int sv_fputc(int c, FILE* f) { ((Snk*)f)->s.push_back((char)c); return c; }
static int sv_fflush(FILE* f) { ((Snk*)f)->flushes++; return 0; }
#define fread sv_fread
#define fgetc sv_fgetc
#define getc sv_fgetc
#define fwrite sv_fwrite
#define fputc sv_fputc
#define putc sv_fputc
#define fflush sv_fflush
#include "altruct/io/reader.h"
#include "altruct/io/writer.h"
#include "altruct/io/fast_io.h"
#undef fread
#undef fgetc
#undef getc
#undef fwrite
#undef fputc
#undef putc
#undef fflush
using namespace altruct::io;
struct SrcReader : reader { Src& s; SrcReader(Src& s) : s(s) {} int read_char() override { return sv_fgetc((FILE*)&s); } size_t read(char* d, size_t c) override { return s.take(d, c); } operator bool() const override { return true; } };
static void fill(Src& s, int n) { s.n = n; for (int i = 0; i < n; i++) s.b[i] = (unsigned char)SU("byte", 0, 255); }
// ------------------------------------------------------------------ readers follow one position in the input
template<typename R> struct Has { static const bool blocks = true, flag = true, buffered = false; }; template<> struct Has<buffered_reader> { static const bool blocks = true, flag = true, buffered = true; }; template<> struct Has<fast_read> { static const bool blocks = false, flag = false, buffered = true; };
template<typename R> struct Op { static void buf(R&, Src&, int&, bool&, int, int) {} static bool ok(R& r) { return bool(r); } static size_t read(R& r, char* d, int k) { return r.read(d, k); } static void unread(R&) {} };
template<typename R> static void bufop(R& r, Src& s, int& pos, bool& failed, int cap, int k, int op, bool flag) { int left = s.n - pos; switch (op) {
    case 0: { int a = (int)r.reserve(k); CHECK(a <= left, "reserve: not more than the rest"); CHECK(a >= (k < cap ? (k < left ? k : left) : (cap < left ? cap : left)), "reserve: count characters unless the input ends"); int c = (int)sv_choose("skip", a + 1); r.skip(c); pos += c; break; }
    case 1: { const char* p = r.data(k); bool can = k <= cap && k <= left; CHECK((p != nullptr) == can, "data: available exactly when count characters are left"); if (p) for (int i = 0; i < k; i++) CHECK((unsigned char)p[i] == s.b[pos + i], "data: the next characters"); if (!p) failed = true; if (p && k && sv_choose("advance", 2)) { r.counter() = (int)sv_choose("by", k) + 1; pos += r.counter(); r.advance(); CHECK(r.counter() == 0, "counter reset"); } break; }
    default: { int a = (int)r.refill(); CHECK(a == (cap < left ? cap : left), "refill fills the buffer"); } } }
template<> struct Op<buffered_reader> { static void buf(buffered_reader& r, Src& s, int& pos, bool& f, int cap, int k) { bufop(r, s, pos, f, cap, k, (int)sv_choose("bufop", 3), true); } static bool ok(buffered_reader& r) { return bool(r); } static size_t read(buffered_reader& r, char* d, int k) { return r.read(d, k); } static void unread(buffered_reader& r) { r.unread_char(); } };
template<> struct Op<fast_read> { static void buf(fast_read& r, Src& s, int& pos, bool& f, int cap, int k) { bufop(r, s, pos, f, cap, k, (int)sv_choose("bufop", 3), false); } static bool ok(fast_read&) { return true; } static size_t read(fast_read&, char*, int) { return 0; } static void unread(fast_read& r) { r.unread_char(); } };
template<typename R> static void run(R& r, Src& s, int cap, int K, int maxk) { int pos = 0; bool failed = false, can_unread = false; for (int q = 0; q < K; q++) { int op = (int)sv_choose("op", 4); if (op == 0) { int c = r.read_char(); can_unread = pos < s.n; if (pos < s.n) { CHECK(c == s.b[pos], "read_char: the next byte as a non-negative number"); pos++; } else { CHECK(c == -1, "read_char: -1 at the end"); failed = true; } continue; }
        if (op == 1) { if (!Has<R>::buffered || !can_unread) return; Op<R>::unread(r); pos--; can_unread = false; continue; } can_unread = false; int k = (int)sv_choose("k", maxk + 1); if (op == 2) { if (!Has<R>::blocks) return; char d[16]; int g = (int)Op<R>::read(r, d, k); int left = s.n - pos; CHECK(g <= k && g <= left, "read: at most count"); int least = k < left ? k : left; if (cap < least) least = cap; CHECK(g >= least, "read: as much as is there (up to the buffer size)"); for (int i = 0; i < g; i++) CHECK((unsigned char)d[i] == s.b[pos + i], "read: the next characters"); pos += g; if (g < k) failed = true; } else { if (!Has<R>::buffered) return; Op<R>::buf(r, s, pos, failed, cap, k); } if (Has<R>::flag) CHECK(Op<R>::ok(r) == !failed, "error flag after a short read and only then"); } int c; int left = s.n - pos; for (int i = 0; i < left; i++) { c = r.read_char(); CHECK(c == s.b[pos + i], "the rest follows in order"); } CHECK(r.read_char() == -1 && r.read_char() == -1, "then the end"); if (Has<R>::flag) CHECK(!Op<R>::ok(r), "and the error flag"); }
//@ H02 rd_buffered t=60 N=4 K=3 Q:N=5 Q:K=4 -- buffered_reader: any history of read_char/unread/read/skip/data/reserve/refill/advance over any bytes, buffers of 1 to 4, source delivering arbitrary chunks
ENTRY rd_buffered() { Src s; fill(s, (int)sv_choose("n", sv_param("N", 4) + 1)); s.chunky = true; int cap = 1 + (int)sv_choose("cap", 3); SrcReader in(s); uint64_t live = sv_heap_live(); { buffered_reader r(in, cap); CHECK(bool(r), "no error at first"); run(r, s, cap, sv_param("K", 3), 4); } CHECK(sv_heap_live() == live, "buffer released"); }
//@ H02 rd_fast t=60 N=4 K=3 Q:N=6 Q:K=4 -- fast_read: the same without blocks
ENTRY rd_fast() { Src s; fill(s, (int)sv_choose("n", sv_param("N", 4) + 1)); s.chunky = true; int cap = 1 + (int)sv_choose("cap", 3); uint64_t live = sv_heap_live(); { fast_read r((FILE*)&s, cap); run(r, s, cap, sv_param("K", 3), 4); } CHECK(sv_heap_live() == live, "buffer released"); }
//@ H02 rd_plain t=60 N=4 -- string_reader and file_reader, also stacked under a buffer
ENTRY rd_plain() { Src s; fill(s, (int)sv_choose("n", sv_param("N", 4) + 1)); switch (sv_choose("kind", 5)) { case 0: { string_reader r((const char*)s.b, s.n); run(r, s, 100, 3, 5); break; } case 1: { file_reader r((FILE*)&s); run(r, s, 100, 3, 5); break; } case 2: { string_reader b((const char*)s.b, s.n); buffered_reader r(b, 2); run(r, s, 2, 3, 3); break; } case 3: { file_reader b((FILE*)&s); buffered_reader r(b, 2); run(r, s, 2, 3, 3); break; } default: { char z[12]; int l = 0; while (l < s.n && s.b[l]) { z[l] = (char)s.b[l]; l++; } z[l] = 0; s.n = l; string_reader r(z); run(r, s, 100, 2, 5); } } }
// ------------------------------------------------------------------ formatted reading
static bool ws(int c) { return c <= 0x20; }
template<typename R> static std::string rline(R& r, char d) { return r.read_line(d); } template<> std::string rline(fast_read& r, char) { return r.read_string(); }
template<typename R> static void tokens(R& r, Src& s, bool lines) { int pos = 0; for (int q = 0; q < 3; q++) if (!lines || sv_choose("tok", 2)) { std::string t = r.read_string(); while (pos < s.n && ws(s.b[pos])) pos++; size_t l = 0; while (pos < s.n && !ws(s.b[pos])) { CHECK(l < t.size() && (unsigned char)t[l] == s.b[pos], "read_string: letters of the next word"); l++; pos++; } CHECK(t.size() == l, "read_string: up to the next blank"); } else { std::string t = rline(r, ';'); size_t l = 0; while (pos < s.n && s.b[pos] != ';') { CHECK(l < t.size() && (unsigned char)t[l] == s.b[pos], "read_line: characters"); l++; pos++; } CHECK(t.size() == l, "read_line: up to the delimiter"); pos += pos < s.n; } int c = r.read_char(); CHECK(c == (pos < s.n ? s.b[pos] : -1), "delimiters of words stay, those of lines do not"); }
//@ H02 rd_tokens t=60 N=4 Q:N=5 -- read_string / read_line over any bytes (delimiters included), small buffers
ENTRY rd_tokens() { Src s; fill(s, (int)sv_choose("n", sv_param("N", 4) + 1)); int cap = 1 + (int)sv_choose("cap", 2); if (sv_choose("fast", 2)) { fast_read r((FILE*)&s, cap); tokens(r, s, false); } else { SrcReader in(s); simple_reader r(in, cap); tokens(r, s, true); } }
template<typename R> static void ints(R& r, Src& s, int kind, int64_t v, bool more) { int64_t g = kind == 0 ? r.read_int() : kind == 1 ? r.read_l() : r.read_ll(); CHECK(g == v, "the number"); int c = r.read_char(); CHECK(c == (more ? s.b[s.n - 1] : -1), "stops after the digits"); }
//@ H02 rd_int t=60 L=5 Q:L=9 -- read_int / read_l / read_ll: any sign, leading blanks, any digits, any following character, small buffers
ENTRY rd_int() { Src s; int b = (int)sv_choose("blanks", 3), sg = (int)sv_choose("sign", 3), l = (int)sv_choose("digits", sv_param("L", 5) + 1); for (int i = 0; i < b; i++) s.b[s.n++] = (unsigned char)SU("blank", 0, 32); if (sg) s.b[s.n++] = sg == 1 ? '+' : '-'; int64_t v = 0; for (int i = 0; i < l; i++) { unsigned d = (unsigned)SU("digit", 0, 9); s.b[s.n++] = (unsigned char)('0' + d); v = v * 10 + d; } if (sg == 2) v = -v; bool more = sv_choose("more", 2); if (more) { unsigned x = (unsigned)SU("next", 0, 255); sv_assume(!(x >= '0' && x <= '9')); if (!l && !sg) sv_assume(x > 32 && x != '+' && x != '-'); s.b[s.n++] = (unsigned char)x; } int kind = (int)sv_choose("kind", 3); int cap = sv_choose("cap", 2) ? 2 : 100; if (sv_choose("fast", 2)) { fast_read r((FILE*)&s, cap); ints(r, s, kind, v, more); } else { SrcReader in(s); simple_reader r(in, cap); ints(r, s, kind, v, more); } }
static void put(Src& s, const char* z) { while (*z) s.b[s.n++] = (unsigned char)*z++; }
//@ H02 rd_int_limits t=60 -- the largest and smallest values (last digit symbolic) of int and long long
ENTRY rd_int_limits() { Src s; bool wide = sv_choose("wide", 2), neg = sv_choose("neg", 2); if (neg) s.b[s.n++] = '-'; put(s, wide ? "922337203685477580" : "214748364"); unsigned d = (unsigned)SU("last", 0, neg ? 8 : 7); s.b[s.n++] = (unsigned char)('0' + d); uint64_t m = (wide ? 922337203685477580ull : 214748364ull) * 10 + d; int64_t v = neg ? (int64_t)(0 - m) : (int64_t)m; int kind = wide ? 1 + (int)sv_choose("kind", 2) : 0; if (sv_choose("fast", 2)) { fast_read r((FILE*)&s, 4); ints(r, s, kind, v, false); } else { SrcReader in(s); simple_reader r(in, 4); ints(r, s, kind, v, false); } }
//@ H02 rd_stream t=60 -- stream operators read the same as the functions
ENTRY rd_stream() { Src s; int a = 0; for (int i = 0; i < 2; i++) { unsigned d = (unsigned)SU("digit", 0, 9); s.b[s.n++] = (unsigned char)('0' + d); a = a * 10 + d; } unsigned c = (unsigned)SU("char", 33, 255); sv_assume(!(c >= '0' && c <= '9')); s.b[s.n++] = (unsigned char)c; unsigned w = (unsigned)SU("word", 33, 255); s.b[s.n++] = (unsigned char)w; s.b[s.n++] = ' '; s.b[s.n++] = '-'; unsigned e = (unsigned)SU("digit", 0, 9); s.b[s.n++] = (unsigned char)('0' + e); s.b[s.n++] = '\n'; unsigned f = (unsigned)SU("digit", 0, 9); s.b[s.n++] = (unsigned char)('0' + f); int x = -1; char y = 0; std::string z; long long p = 0; long q = 0;
    if (sv_choose("fast", 2)) { fast_read r((FILE*)&s, 3); r >> x >> y >> z >> p >> q; } else { SrcReader in(s); simple_reader b(in, 3); simple_reader_stream r(b); CHECK(bool(r), "good"); r >> x >> y >> z >> p; CHECK(bool(r), "still good"); CHECK(r.read_line() == "", "rest of the line"); r >> q; CHECK(!bool(r), "end of input reached"); } CHECK(x == a && (unsigned char)y == c && z.size() == 1 && (unsigned char)z[0] == w && p == -(int)e && q == (int)f, "values in order"); }
//@ H02 rd_double t=60 -- read_double / read_float: every sign, up to 3+2 digits, exponents -2..2 (path choices), within rounding
ENTRY rd_double() { Src s; bool neg = sv_choose("sign", 3) == 1; if (neg) s.b[s.n++] = '-'; int l = (int)sv_choose("idigits", 3); double m = 0; int e = 0; static const unsigned char dg[4] = {0, 1, 7, 9}; for (int i = 0; i < l; i++) { int d = dg[sv_choose("d", 4)]; s.b[s.n++] = '0' + d; m = m * 10 + d; } int fr = (int)sv_choose("fraction", 4); if (fr) { s.b[s.n++] = '.'; for (int i = 1; i < fr; i++) { int d = dg[sv_choose("f", 4)]; s.b[s.n++] = '0' + d; m = m * 10 + d; e--; } } int x = (int)sv_choose("exp", 4); if (x) { s.b[s.n++] = x == 1 ? 'e' : 'E'; if (x == 2) s.b[s.n++] = '-'; if (x == 3) s.b[s.n++] = '+'; s.b[s.n++] = '2'; e += x == 2 ? -2 : 2; } s.b[s.n++] = 'x'; double w = m; for (; e > 0; e--) w *= 10; for (; e < 0; e++) w /= 10; if (neg) w = -w; bool fl = sv_choose("float", 2); double g; int nx; if (sv_choose("fast", 2)) { fast_read r((FILE*)&s, 100); g = fl ? r.read_float() : r.read_double(); nx = r.read_char(); } else { SrcReader in(s); simple_reader r(in, 100); g = fl ? r.read_float() : r.read_double(); nx = r.read_char(); } double tol = (fl ? 1e-6 : 1e-13) * (w < 0 ? -w : w); double df = g - w; CHECK(df <= tol && df >= -tol, "value"); CHECK(nx == 'x', "stops after the number"); }
// ------------------------------------------------------------------ writers append
struct SnkWriter : writer { Snk& s; SnkWriter(Snk& s) : s(s) {} writer& write_char(int c) override { s.s.push_back((char)c); return *this; } writer& write(const char* b, size_t n) override { for (size_t i = 0; i < n; i++) s.s.push_back(b[i]); return *this; } writer& flush() override { s.flushes++; return *this; } };
static void digits(std::string& e, int64_t v, int len = 1) { char t[24]; int n = 0; if (v < 0) e.push_back('-'); while (v || n < len) { int r = (int)(v % 10); t[n++] = (char)('0' + (r < 0 ? -r : r)); v /= 10; } while (n) e.push_back(t[--n]); }
template<typename W> struct Wop { static bool other(W&, std::string&, int, Snk&) { return false; } };
template<typename W> static bool common(W& w, std::string& e, int cap, Snk& k, int op) { switch (op) {
    case 0: { std::string t; int n = (int)sv_choose("len", 4); for (int i = 0; i < n; i++) t.push_back((char)SU("c", 0, 255)); w.write_string(t); e += t; return true; } case 1: { char t[5]; int n = (int)sv_choose("len", 4); for (int i = 0; i < n; i++) t[i] = (char)SU("c", 1, 255); t[n] = 0; w.write_string(t); e += t; return true; } case 2: { static const int v[] = {0, 7, -3, 10, -120, 2147483647, -2147483647 - 1}; int x = v[sv_choose("int", 7)]; w.write_int(x); digits(e, x); return true; }
    case 3: { int n = (int)sv_choose("room", 4); char* d = w.data(n); CHECK((d != nullptr) == (n <= cap), "data: room exactly up to the buffer size"); if (d) { CHECK((int)w.available() >= n, "available"); for (int i = 0; i < n; i++) { d[i] = (char)SU("c", 1, 255); e.push_back(d[i]); } d[n] = 0; w.advance(); } return true; }
    case 4: { int n = (int)sv_choose("room", 4); size_t g = w.reserve(n); CHECK(g == w.available() && (int)g <= cap && ((int)g >= n || n > cap), "reserve"); return true; }
    default: { w.flush(); CHECK(k.s == e && k.flushes, "flush hands everything over"); CHECK((int)w.available() == cap, "empty after flush"); return true; } } }
template<> struct Wop<fast_write> { static bool other(fast_write& w, std::string& e, int cap, Snk& k) { return common(w, e, cap, k, (int)sv_choose("wop", 6)); } }; template<> struct Wop<simple_writer> { static bool other(simple_writer& w, std::string& e, int cap, Snk& k) { if (sv_choose("block", 2)) { char t[5]; int n = (int)sv_choose("len", 5); for (int i = 0; i < n; i++) { t[i] = (char)SU("c", 0, 255); e.push_back(t[i]); } w.write(t, n); return true; } return common(w, e, cap, k, (int)sv_choose("wop", 6)); } };
template<typename W> static void wrun(W& w, std::string& e, int cap, Snk& k, int K) { for (int q = 0; q < K; q++) { if (sv_choose("op", 2)) { int c = (int)SU("c", 0, 255); w.write_char(c); e.push_back((char)c); } else Wop<W>::other(w, e, cap, k); CHECK(k.s.size() + (cap - w.available()) == e.size(), "written plus buffered is everything"); } }
static void same(const Snk& k, const std::string& e) { CHECK(k.s.size() == e.size(), "length of the output"); bool ok = true; for (size_t i = 0; i < e.size(); i++) ok = ok && k.s[i] == e[i]; CHECK(ok, "output is the concatenation of what was written"); }
//@ H02 wr_simple t=60 K=3 Q:K=4 -- simple_writer / buffered_writer: any history of write_char/write/write_string/write_int/data+advance/reserve/flush, buffers of 1 to 3; destruction flushes
ENTRY wr_simple() { uint64_t live = sv_heap_live(); { Snk k; std::string e; { SnkWriter o(k); int cap = 1 + (int)sv_choose("cap", 3); simple_writer w(o, cap); wrun(w, e, cap, k, sv_param("K", 3)); } same(k, e); CHECK(k.flushes, "flushed"); } CHECK(sv_heap_live() == live, "released"); }
//@ H02 wr_fast t=60 K=3 Q:K=4 -- fast_write: the same
ENTRY wr_fast() { uint64_t live = sv_heap_live(); { Snk k; std::string e; { int cap = 1 + (int)sv_choose("cap", 3); fast_write w((FILE*)&k, cap); wrun(w, e, cap, k, sv_param("K", 3)); } same(k, e); CHECK(k.flushes, "flushed"); } CHECK(sv_heap_live() == live, "released"); }
//@ H02 wr_plain t=60 -- file_writer passes everything on; string_writer keeps what fits and never writes past its capacity
ENTRY wr_plain() { Snk k; std::string e; char out[10]; for (int i = 0; i < 10; i++) out[i] = '#'; int cap = (int)sv_choose("cap", 7); bool file = sv_choose("file", 2); { file_writer f((FILE*)&k); string_writer s(out, cap); writer& w = file ? (writer&)f : (writer&)s; for (int q = 0; q < 3; q++) { char t[5]; int n = (int)sv_choose("len", 5); for (int i = 0; i < n; i++) { t[i] = (char)SU("c", 0, 255); e.push_back(t[i]); } if (n == 1 && sv_choose("single", 2)) w.write_char((unsigned char)t[0]); else w.write(t, n); } w.flush(); } if (file) { same(k, e); CHECK(k.flushes >= 2, "flushed on request and at the end"); } else for (int i = 0; i < 10; i++) CHECK(out[i] == (i < cap && i < (int)e.size() ? e[i] : '#'), "string_writer"); }
//@ H02 wr_int t=60 -- write_int / write_ll / write_integral_number(len) of every value in a range, also around the limits of the type, read back
ENTRY wr_int() { Snk k; int64_t v; int kind = (int)sv_choose("kind", 2); int where = (int)sv_choose("where", 4); int64_t mn = kind ? -0x7fffffffffffffffll - 1 : -2147483647ll - 1, mx = kind ? 0x7fffffffffffffffll : 2147483647ll; int off = SI("v", 0, 99); v = where == 0 ? mn + off : where == 1 ? mx - off : where == 2 ? (int64_t)off * 7 - 300 : (int64_t)off - 50; v = (int64_t)sv_concretize((uint64_t)v); int len = where >= 2 ? 1 + (int)sv_choose("len", 3) : 1; std::string e; digits(e, v, len); if (sv_choose("fast", 2)) { fast_write w((FILE*)&k, 5); if (len > 1) w.write_integral_number(v, len); else if (kind) w.write_ll(v); else w.write_int((int)v); } else { SnkWriter o(k); simple_writer w(o, 5); if (len > 1) w.write_integral_number(v, len); else if (kind) w.write_ll(v); else w.write_int((int)v); } same(k, e); Src s; for (char c : k.s) s.b[s.n++] = (unsigned char)c; SrcReader in(s); simple_reader r(in, 3); CHECK(r.read_ll() == v, "round trip"); }
//@ H02 wr_int_sym t=80 lia=1 R=99999 Q:R=999999 -- written digits of a symbolic number are its decimal digits without leading zeros
ENTRY wr_int_sym() { Snk k; int R = sv_param("R", 999); int v = SI("v", -R, R); bool fast = sv_choose("fast", 2); if (fast) { fast_write w((FILE*)&k, 5); w.write_int(v); } else { SnkWriter o(k); simple_writer w(o, 5); w.write_int(v); } size_t i = 0, n = k.s.size(); CHECK(n >= 1, "something"); bool neg = k.s[0] == '-'; CHECK(neg == (v < 0), "sign"); if (neg) i++; CHECK(n > i && (k.s[i] != '0' || n == i + 1), "no leading zero"); int x = 0; for (; i < n; i++) { CHECK(k.s[i] >= '0' && k.s[i] <= '9', "digit"); x = x * 10 + (k.s[i] - '0'); } CHECK(x == (v < 0 ? -v : v), "value"); }
//@ H02 wr_stream t=60 -- stream operators write the same as the functions; reading back gives the values
ENTRY wr_stream() { Snk k; std::string e; char c = (char)SU("c", 33, 255); std::string t; int n = 1 + (int)sv_choose("n", 3); for (int i = 0; i < n; i++) t.push_back((char)SU("t", 33, 255)); int x = (int)sv_choose("x", 4) * 37 - 50; long y = x * 100003l; long long z = -y; if (sv_choose("fast", 2)) { fast_write w((FILE*)&k, 4); w << x << c << ' ' << t << ' ' << y << ' ' << z; } else { SnkWriter o(k); simple_writer b(o, 4); simple_writer_stream w(b); w << x << c << ' ' << t << ' ' << y << ' ' << z; } digits(e, x); e.push_back(c); e += ' '; e += t; e += ' '; digits(e, y); e += ' '; digits(e, z); same(k, e); }
template<typename W> static void wd(W& w, double v, int p, int mode) { if (mode == 0) w.write_double(v, p); else if (mode == 1) w.write_float((float)v, p); else w.write_double(v, p, true); }
//@ H02 wr_double t=60 -- write_double / write_float: correct digits to the precision, fixed and scientific (path choices)
ENTRY wr_double() { Snk k; static const int a[] = {0, 1, 9, 10, 99, 125, 1000, 12345}; int i = a[sv_choose("i", 8)], f = (int)sv_choose("f", 8); double v = i + f / 8.0; bool neg = sv_choose("neg", 2); if (neg) v = -v; int p = (int)sv_choose("p", 3) * 2; int mode = (int)sv_choose("mode", 3); if (sv_choose("fast", 2)) { fast_write w((FILE*)&k, 50); wd(w, v, p, mode); } else { SnkWriter o(k); simple_writer w(o, 50); wd(w, v, p, mode); } size_t q = 0; bool m = k.s[0] == '-'; CHECK(m == (v < 0), "sign"); q += m; double g = 0, sc = 1; int ip = 0, fp = 0; while (q < k.s.size() && k.s[q] >= '0' && k.s[q] <= '9') g = g * 10 + (k.s[q++] - '0'), ip++; CHECK(ip >= 1, "integer digits"); if (q < k.s.size() && k.s[q] == '.') { q++; while (q < k.s.size() && k.s[q] >= '0' && k.s[q] <= '9') g += (k.s[q++] - '0') * (sc /= 10), fp++; } CHECK(fp == p, "as many decimals as asked for"); double unit = 1; for (int j = 0; j < p; j++) unit /= 10; if (mode == 2) { CHECK(q + 5 == k.s.size() && k.s[q] == 'e', "exponent"); int ex = (k.s[q + 2] - '0') * 100 + (k.s[q + 3] - '0') * 10 + (k.s[q + 4] - '0'); if (k.s[q + 1] == '-') ex = -ex; for (; ex > 0; ex--) g *= 10, unit *= 10; for (; ex < 0; ex++) g /= 10, unit /= 10; } else CHECK(q == k.s.size(), "nothing else"); double d = g - (v < 0 ? -v : v); double tol = unit * 0.500001; CHECK(d <= tol && d >= -tol, "rounded to the precision"); }
