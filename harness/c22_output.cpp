#include "huge.hpp"
#include "seq.hpp"
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <cest/string.hpp>
#include <cest/memory.hpp>
#include <climits>
#include <iostream>
#include <stdio.h>
// Where bytes can arrive: the out sink (std::cout and the C library's stdout), the error sink (std::cerr and stderr), the log sink.
static std::string sink[3];
struct Buf : std::streambuf {
  int i; explicit Buf(int i) : i(i) {}
  int_type overflow(int_type c) override { if (c != EOF) sink[i] += (char)c; return 0; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { sink[i].append(s, n); return n; }
};
static ssize_t cookie(void *k, const char *b, size_t n) { sink[(long)k].append(b, n); return n; }
static Buf bufs[3] = {Buf(0), Buf(1), Buf(2)};
static std::ostream *const so[3] = {&std::cout, &std::cerr, &std::clog};
static cest::ostream *const co[3] = {&cest::cout, &cest::cerr, &cest::clog};
static ::FILE *kf[2];
struct Redirect {                                      // nothing this does reaches the real streams
  std::streambuf *old[3]; ::FILE *o = ::stdout, *e = ::stderr;
  Redirect() {
    for (int i = 0; i < 2; i++) if (!kf[i]) { cookie_io_functions_t f{}; f.write = cookie; kf[i] = fopencookie((void *)(long)i, "w", f); setvbuf(kf[i], nullptr, _IONBF, 0); }
    for (int i = 0; i < 3; i++) { sink[i].clear(); old[i] = so[i]->rdbuf(&bufs[i]); so[i]->clear(); so[i]->flags(std::ios::skipws | std::ios::dec | (i == 1 ? std::ios::unitbuf : std::ios::fmtflags{})); so[i]->width(0); so[i]->fill(' '); so[i]->precision(6); }
    ::stdout = kf[0]; ::stderr = kf[1];
  }
  ~Redirect() { for (int i = 0; i < 3; i++) so[i]->rdbuf(old[i]); ::stdout = o; ::stderr = e; }
};
struct Op { int kind, to; long v; std::string s; int ret[2]; };
enum { CH, CSTR, STR, INT, UNS, LONG, ENDL, DEC, HEX, OCT, PRINTF, FPRINTF, NK, SHORT = NK, USHORT, SCHAR, UCHAR, SSTR, USTR, BOOL, UPTR, SPTR, PTR, ALL };
static const char *const names[] = {"char", "C string", "string", "int", "unsigned", "long", "endl", "dec", "hex", "oct", "printf", "fprintf", "short", "unsigned short", "signed char", "unsigned char", "signed char string", "unsigned char string", "bool", "unique_ptr", "shared_ptr", "pointer"};
static bool chained = true;
static void ret(cest::ostream &r, int to) { if (&r != co[to]) chained = false; }
#define FORMS(CALL) switch (o.v) {                                                                                \
  case 0: return CALL("ab"); case 1: return CALL(""); case 2: return CALL("%d", 42); case 3: return CALL("<%s>", o.s.c_str()); case 4: return CALL("%c", 'q'); \
  case 5: return CALL("x%cy", 0); case 6: return CALL("%05x|%-6d|%%", 255, -3); case 7: return CALL("%ld %s %c\n", LONG_MIN, "two", 'c'); case 8: return CALL("%.2f", 2.5); \
  case 9: return CALL("%*d%s", 5, 7, ""); case 10: return CALL("%s", ""); case 12: return CALL(o.s.c_str()); default: return CALL("%s%s", o.s.c_str(), o.s.c_str()); }
constexpr int NF = 12;
static int do_printf(const Op &o, bool lib) {
#define P(...) (lib ? cest::printf(__VA_ARGS__) : ::printf(__VA_ARGS__))
  FORMS(P)
}
static int do_fprintf(const Op &o, bool lib) {
  cest::ostream *c = o.to == 0 ? cest::stdout : cest::stderr; ::FILE *f = kf[o.to];
#define F(...) (lib ? cest::fprintf(c, __VA_ARGS__) : ::fprintf(f, __VA_ARGS__))
  FORMS(F)
}
static long held[1];
static void run(Op &o, bool lib) {
  cest::ostream &c = *co[o.to]; std::ostream &s = *so[o.to];
  switch (o.kind) {
  case CH: if (lib) ret(c << (char)o.v, o.to); else s << (char)o.v; break;
  case CSTR: if (lib) ret(c << o.s.c_str(), o.to); else s << o.s.c_str(); break;
  case STR: if (lib) ret(c << cest::string(o.s.data(), o.s.size()), o.to); else s << o.s; break;
  case INT: if (lib) ret(c << (int)o.v, o.to); else s << (int)o.v; break;
  case UNS: if (lib) ret(c << (unsigned)o.v, o.to); else s << (unsigned)o.v; break;
  case LONG: if (lib) ret(c << (long)o.v, o.to); else s << (long)o.v; break;
  case ENDL: if (lib) ret(c << cest::endl, o.to); else s << std::endl; break;
  case DEC: if (lib) ret(c << cest::dec, o.to); else s << std::dec; break;
  case HEX: if (lib) ret(c << cest::hex, o.to); else s << std::hex; break;
  case OCT: if (lib) ret(c << cest::oct, o.to); else s << std::oct; break;
  case SHORT: if (lib) ret(c << (short)o.v, o.to); else s << (short)o.v; break;
  case USHORT: if (lib) ret(c << (unsigned short)o.v, o.to); else s << (unsigned short)o.v; break;
  case SCHAR: if (lib) ret(c << (signed char)o.v, o.to); else s << (signed char)o.v; break;
  case UCHAR: if (lib) ret(c << (unsigned char)o.v, o.to); else s << (unsigned char)o.v; break;
  case SSTR: if (lib) ret(c << (const signed char *)o.s.c_str(), o.to); else s << (const signed char *)o.s.c_str(); break;
  case USTR: if (lib) ret(c << (const unsigned char *)o.s.c_str(), o.to); else s << (const unsigned char *)o.s.c_str(); break;
  case BOOL: if (lib) ret(c << (bool)(o.v & 1), o.to); else s << (bool)(o.v & 1); break;
  case UPTR: { long *p = o.v & 1 ? held : nullptr; if (lib) { cest::unique_ptr<long> u(p); ret(c << static_cast<const cest::unique_ptr<long> &>(u), o.to); u.release(); } else s << static_cast<void *>(p); break; }
  case SPTR: { long *p = o.v & 1 ? held : nullptr; if (lib) { cest::shared_ptr<long> u(p, [](long *) {}); ret(c << static_cast<const cest::shared_ptr<long> &>(u), o.to); } else s << static_cast<void *>(p); break; }
  case PTR: { const void *p = o.v & 1 ? held : nullptr; if (lib) ret(c << p, o.to); else s << p; break; }
  case PRINTF: o.ret[!lib] = do_printf(o, lib); break;
  case FPRINTF: o.ret[!lib] = do_fprintf(o, lib); break;
  }
}
static std::string esc(const std::string &s) { std::string r; for (char c : s.substr(0, 200)) { if (c > 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c & 255); r += b; } } return r; }
static void compare(std::vector<Op> &h) {
  std::string got[3], want[3]; chained = true;
  for (auto &o : h) { mc::op(); mc::tr("%s to %s: %ld \"%s\"", names[o.kind], o.to == 0 ? "cout" : o.to == 1 ? "cerr" : "clog", o.v, esc(o.s).c_str()); }
  { Redirect r; for (auto &o : h) run(o, true); for (int i = 0; i < 3; i++) got[i] = sink[i]; }
  { Redirect r; for (auto &o : h) run(o, false); for (int i = 0; i < 3; i++) want[i] = sink[i]; }
  static const char *const n[] = {"standard output", "standard error", "std::clog"}; uint64_t x = 1;
  for (int i = 0; i < 3; i++) { x = mc::hash(want[i].data(), want[i].size(), x + i);
    if (got[i] != want[i]) mc::fail("%s receives %zu bytes \"%s\", not %zu bytes \"%s\"", n[i], got[i].size(), esc(got[i]).c_str(), want[i].size(), esc(want[i]).c_str()); }
  for (auto &o : h) if ((o.kind == PRINTF || o.kind == FPRINTF) && o.ret[0] != o.ret[1]) mc::fail("%s form %ld returns %d, not %d", names[o.kind], o.v, o.ret[0], o.ret[1]);
  if (!chained) mc::fail("an insertion does not return its stream");
  mc::state(x);
}
static Op mk(int kind, int to, long v = 0, std::string s = "") { return Op{kind, to, v, s, {0, 0}}; }
static Op any(bool lean) {
  int k = mc::choose(lean ? 10 : NK);
  if (k == PRINTF) return mk(k, 0, mc::choose(NF), "s%d"); if (k == FPRINTF) { int to = mc::choose(2); return mk(k, to, mc::choose(NF), "s"); }
  int to = mc::choose(3); static const char chs[] = {'x', 0, '\n', char(0xff)}; static const std::string cs[] = {"", "a%d\n", "xy"}, ss[] = {std::string("p\0q", 3), "", std::string("\0", 1), "r"};
  static const long is[] = {0, -1, 255}, us[] = {8, 0xffffffffL}, ls[] = {LONG_MIN, 1234567890123L};
  switch (k) { case CH: return mk(k, to, lean ? 'x' : mc::pick(chs)); case CSTR: return mk(k, to, 0, lean ? "ab" : mc::pick(cs)); case STR: return mk(k, to, 0, lean ? ss[0] : mc::pick(ss));
    case INT: return mk(k, to, lean ? 100 : mc::pick(is)); case UNS: return mk(k, to, lean ? 99 : mc::pick(us)); case LONG: return mk(k, to, lean ? -77 : mc::pick(ls)); default: return mk(k, to); }
}
MC_SCENARIO(sequences, 3, 4, 8, 16) { std::vector<Op> h; for (int i = 0; i < depth; i++) h.push_back(any(false)); compare(h); }
MC_SCENARIO(kinds, 3, 4, 4, 16) { std::vector<Op> h; for (int i = 0; i < depth; i++) h.push_back(any(true)); compare(h); }
// histories of one stream: bases and numbers
MC_SCENARIO(bases, 6, 8, 4, 16) {
  std::vector<Op> h; int to = mc::choose(3); for (int i = 0; i < depth; i++) { int k = mc::choose(6); h.push_back(k < 3 ? mk(DEC + k, to) : mk(INT + k - 3, to, k == 3 ? 200 : k == 4 ? 77 : 4000000000L)); } compare(h);
}
// what is shorter than an int, and pointers
MC_SCENARIO(narrow, 3, 4, 4, 16) {
  std::vector<Op> h; int to = mc::choose(3);
  for (int i = 0; i < depth; i++) { int k = mc::choose(12); if (k < 2) { h.push_back(k ? mk(HEX, to) : mk(INT, to, -1)); continue; } k = NK + k - 2; static const long vs[] = {-1, 65, 0x1ff42};
    h.push_back(mk(k, to, k == SSTR || k == USTR ? 0 : mc::pick(vs), k == SSTR || k == USTR ? mc::choose(2) ? "q\xffr" : "" : "")); } compare(h);
}
MC_SCENARIO(narrow_values, 0, 0, 2, 2) {
  int to = mc::choose(3), b = mc::choose(3), k = mc::choose(4), v = mc::choose_in(-300, 300); if (k < 2 && mc::choose(2)) v *= 109; std::vector<Op> h; h.push_back(mk(DEC + b, to)); h.push_back(mk(NK + k, to, v)); h.push_back(mk(CH, to, ' ')); h.push_back(mk(INT, to, 10)); compare(h);
}
MC_SCENARIO(numbers, 0, 0, 2, 2) {
  int to = mc::choose(3), b = mc::choose(4), k = mc::choose(3), e = mc::choose(64), d = mc::choose_in(-1, 1), neg = mc::choose(2);
  long v = (long)((1ul << e) + (unsigned long)(long)d); if (neg) v = (long)(0ul - (unsigned long)v); std::vector<Op> h; if (b < 3) h.push_back(mk(DEC + b, to)); h.push_back(mk(INT + k, to, v)); h.push_back(mk(CH, to, ' ')); h.push_back(mk(INT, to, 10)); compare(h);
}
MC_SCENARIO(chars, 0, 0, 1, 1) {
  int to = mc::choose(3), c = mc::choose(256), k = mc::choose(3); std::vector<Op> h; std::string s(1, (char)c);
  h.push_back(k == 0 ? mk(CH, to, c) : k == 1 ? mk(CSTR, to, 0, "l" + s + "r") : mk(STR, to, 0, "l" + s + "r")); compare(h);
}
MC_SCENARIO(lengths, 0, 0, 2, 2) {
  int to = mc::choose(3), k = mc::choose(6), far = mc::choose(2), n = far ? pick_edge(mc::thorough ? 131073 : 16385) : mc::choose_in(0, mc::thorough ? 1100 : 300); if (k == 3 && !far) n *= 7; std::string s; for (int i = 0; i < n; i++) s += char('a' + i % 26);
  std::vector<Op> h; h.push_back(k == 0 ? mk(CSTR, to, 0, s) : k == 1 ? mk(STR, to, 0, s) : k == 2 ? mk(PRINTF, 0, 3, s) : k == 4 ? mk(PRINTF, 0, 12, s) : k == 5 ? mk(FPRINTF, to == 2 ? 0 : to, 12, s) : mk(FPRINTF, to == 2 ? 0 : to, 11, s)); compare(h);
}
// a stream of one's own is none of the three
MC_SCENARIO(private_stream, 2, 3, 1, 1) {
  cest::ostream own(nullptr); std::string got[3];
  { Redirect r; for (int i = 0; i < depth; i++) switch (mc::choose(8)) { case 0: own << 'x'; break; case 1: own << "ab"; break; case 2: own << cest::string("s"); break; case 3: own << 1; break; case 4: own << 2u; break; case 5: own << 3l; break; case 6: own << cest::endl; break; default: own << cest::hex; }
    for (int i = 0; i < 3; i++) got[i] = sink[i]; }
  mc::op(); for (int i = 0; i < 3; i++) if (!got[i].empty()) mc::fail("an insertion into another stream reaches a standard one"); mc::state(depth);
}
// nor is a stream of another character type, or over traits of one's own; the line ends and base switches come back as the stream itself
struct OwnTraits : std::char_traits<char> {};
template <class C, class T> static void foreign(int depth) {
  using O = cest::basic_ostream<C, T>; struct B : cest::basic_streambuf<C, T> {} b; O own(mc::choose(2) ? &b : nullptr); bool was = own.good(); std::string got[3]; static const C text[] = {C('a'), C('b'), C(0)}; int k = 0;
  { Redirect r; for (int i = 0; i < depth; i++) { O *p = &own; mc::op(); switch (k = mc::choose(12)) { case 0: p = &(own << C('x')); break; case 1: p = &(own << text); break; case 2: p = &(own << cest::basic_string<C, T>(text, 2)); break; case 3: p = &(own << 1); break; case 4: p = &(own << 2u); break; case 5: p = &(own << 3l); break;
      case 6: p = &(own << cest::endl<C, T>); break; case 7: p = &(own << cest::hex); break; case 8: p = &(own << cest::oct); break; case 9: p = &(own << cest::dec); break; case 10: p = &(own << (short)-1); break; default: p = &(own << static_cast<const void *>(&own)); }
      if (p != &own) mc::fail("an insertion into a stream of one's own does not return it"); if (own.good() != was) mc::fail("an insertion into a stream of one's own changes its state"); mc::state(mc::hash(&k, sizeof k, i)); }
    for (int i = 0; i < 3; i++) got[i] = sink[i]; }
  for (int i = 0; i < 3; i++) if (!got[i].empty()) mc::fail("an insertion into another stream reaches a standard one");
}
MC_SCENARIO(foreign_wide, 2, 3, 1, 1) { foreign<wchar_t, std::char_traits<wchar_t>>(depth); }
MC_SCENARIO(foreign_traits, 2, 3, 1, 1) { foreign<char, OwnTraits>(depth); }
MC_SCENARIO(foreign_char, 2, 3, 1, 1) { foreign<char, std::char_traits<char>>(depth); }
#if !__has_feature(memory_sanitizer)
// texts whose lengths need 16 bits and more
MC_SCENARIO(long_texts, 0, 0, 2, 2) {
  int n = huge::size(), to = mc::choose(3), k = mc::choose(6); std::string s; for (int i = 0; i < n; i++) s += char('a' + (i + i / 251) % 26); if (k == 1) s[n / 2] = 0;
  std::vector<Op> h; h.push_back(k == 0 ? mk(CSTR, to, 0, s) : k == 1 ? mk(STR, to, 0, s) : k == 2 ? mk(PRINTF, 0, 3, s) : k == 4 ? mk(PRINTF, 0, 12, s) : k == 5 ? mk(FPRINTF, to == 2 ? 0 : to, 12, s) : mk(FPRINTF, to == 2 ? 0 : to, 11, s)); h.push_back(mk(INT, to, 7)); compare(h);
}
#endif
MC_MAIN
