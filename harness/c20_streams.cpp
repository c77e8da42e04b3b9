#include "huge.hpp"
#include "seq.hpp"
#include <cest/sstream.hpp>
#include <sstream>
TRK_HEAP
// Under MemorySanitizer the other side is the library too: what is decided there is that nothing depends on memory never written.
#define MEM __has_feature(memory_sanitizer)
#if MEM
namespace ref = cest;
#else
namespace ref = std;
#endif
// Each call is made on the library's stream and on the standard library's, and everything both report is compared.
template <class Ch> constexpr Ch letter(int i) { constexpr Ch a[] = {Ch('a'), Ch(0), Ch(0xff), Ch(' '), Ch('\n')}; return a[i]; }
template <class Ch> using Txt = std::basic_string<Ch>;
template <class Ch> Txt<Ch> text(int max, int letters) { Txt<Ch> t; int n = mc::choose_in(0, max); for (int i = 0; i < n; i++) t += letter<Ch>(mc::choose(letters)); return t; }
template <class Ch> std::string sh(const Txt<Ch> &t) { std::string r = "\""; for (Ch c : t) { char b[18]; if (c > 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%x", (unsigned)c & 0xffff); r += b; } } return r + "\""; }

static cest::ios_base::iostate cst(int m) { cest::ios_base::iostate r = cest::ios_base::goodbit; if (m & 1) r |= cest::ios_base::badbit; if (m & 2) r |= cest::ios_base::eofbit; if (m & 4) r |= cest::ios_base::failbit; return r; }
static ref::ios_base::iostate sst(int m) { ref::ios_base::iostate r = ref::ios_base::goodbit; if (m & 1) r |= ref::ios_base::badbit; if (m & 2) r |= ref::ios_base::eofbit; if (m & 4) r |= ref::ios_base::failbit; return r; }
static int bits(cest::ios_base::iostate s) { return ((s & cest::ios_base::badbit) ? 1 : 0) | ((s & cest::ios_base::eofbit) ? 2 : 0) | ((s & cest::ios_base::failbit) ? 4 : 0); }
#if !MEM
static int bits(ref::ios_base::iostate s) { return ((s & ref::ios_base::badbit) ? 1 : 0) | ((s & ref::ios_base::eofbit) ? 2 : 0) | ((s & ref::ios_base::failbit) ? 4 : 0); }
#endif
static cest::ios_base::openmode cmd(int m) { cest::ios_base::openmode r{}; if (m & 1) r |= cest::ios_base::in; if (m & 2) r |= cest::ios_base::out; if (m & 4) r |= cest::ios_base::ate; if (m & 8) r |= cest::ios_base::app; return r; }
static ref::ios_base::openmode smd(int m) { ref::ios_base::openmode r{}; if (m & 1) r |= ref::ios_base::in; if (m & 2) r |= ref::ios_base::out; if (m & 4) r |= ref::ios_base::ate; if (m & 8) r |= ref::ios_base::app; return r; }

template <class Ch, class CS, class SS> struct Pair {
  CS *c; SS *s; using CT = cest::basic_string<Ch>; using T = Txt<Ch>;
  static CT ct(const T &t) { return CT(t.data(), t.size()); }
#if MEM
  static CT rt(const T &t) { return ct(t); }
#else
  static const T &rt(const T &t) { return t; }
#endif
  template <class X> static T lt(const X &x) { return T(x.data(), x.size()); }
  void same(const char *op) {
    const CS &c = *this->c; const SS &s = *this->s;
    if (c.gcount() != s.gcount()) mc::fail("%s: gcount() is %ld, not %ld", op, (long)c.gcount(), (long)s.gcount());
    if (bits(c.rdstate()) != bits(s.rdstate())) mc::fail("%s: the state is %d, not %d (bad 1, eof 2, fail 4)", op, bits(c.rdstate()), bits(s.rdstate()));
    if (c.good() != s.good() || c.eof() != s.eof() || c.fail() != s.fail() || bool(c) != bool(s) || !c != !s) mc::fail("%s: a flag reader is wrong in state %d", op, bits(s.rdstate()));
    if (bits(c.exceptions()) != bits(s.exceptions())) mc::fail("%s: the exception mask is %d, not %d", op, bits(c.exceptions()), bits(s.exceptions()));
  }
  void text(const char *op) {
    CT a = c->str(); T b = lt(s->str()), g(a.data(), a.size()); if (g != b) mc::fail("%s: str() is %s, not %s", op, sh(g).c_str(), sh(b).c_str());
  }
  template <class F, class G> void both(const char *op, F f, G g) {
    mc::op(); bool ct = false, st = false;
    try { f(); } catch (std::ios_base::failure &) { ct = true; }
    try { g(); } catch (std::ios_base::failure &) { st = true; }
    if (ct != st) mc::fail("%s: %s", op, ct ? "throws, the standard stream does not" : "does not throw, the standard stream does");
    same(op);
  }
  void get() {
    Ch a = Ch(0x55), b = Ch(0x55); CS *ra = c; bool ok = true; mc::tr("get");
    both("get", [&] { ok = false; auto &r = c->get(a); ok = &r == static_cast<cest::basic_istream<Ch> *>(c); }, [&] { s->get(b); if (0) ok = true; });
    (void)ra; (void)ok; if (a != b) mc::fail("get delivers %x, not %x", (unsigned)a, (unsigned)b);
  }
  void unget() { mc::tr("unget"); both("unget", [&] { c->unget(); }, [&] { s->unget(); }); }
  void read(int n) {
    mc::tr("read(%d)", n); Ch *a = (Ch *)malloc(n * sizeof(Ch) + (n == 0)), *b = (Ch *)malloc(n * sizeof(Ch) + (n == 0)); for (int i = 0; i < n; i++) a[i] = b[i] = Ch(0x55);
    both("read", [&] { c->read(a, n); }, [&] { s->read(b, n); });
    for (int i = 0; i < n; i++) if (a[i] != b[i]) mc::fail("read(%d) leaves %x at %d, not %x", n, (unsigned)a[i], i, (unsigned)b[i]);
    free(a); free(b);
  }
  void buf(int k) {
    mc::op(); cest::basic_ios<Ch> &ci = *c; ref::basic_ios<Ch> &si = *s; auto *cb = ci.rdbuf(); auto *sb = si.rdbuf(); long a = 0, b = 0;
    switch (k) {
    case 0: mc::tr("sgetc"); a = cb->sgetc(); b = sb->sgetc(); break;
    case 1: mc::tr("sbumpc"); a = cb->sbumpc(); b = sb->sbumpc(); break;
    case 2: mc::tr("snextc"); a = cb->snextc(); b = sb->snextc(); break;
    case 3: mc::tr("sungetc"); a = cb->sungetc(); b = sb->sungetc(); break;
    case 4: { mc::tr("sgetn(2)"); Ch p[2] = {Ch(0x55), Ch(0x55)}, q[2] = {Ch(0x55), Ch(0x55)}; a = cb->sgetn(p, 2); b = sb->sgetn(q, 2); if (p[0] != q[0] || p[1] != q[1]) mc::fail("sgetn delivers other characters"); break; }
    default: mc::tr("pubsync"); a = cb->pubsync(); sb->pubsync(); b = 0;
    }
    if (a != b) mc::fail("call %d on the stream's buffer returns %ld, not %ld", k, a, b); same("a call on the buffer");
  }
  void sentry(bool noskip) {
    mc::tr("a sentry%s", noskip ? " that does not skip" : ""); bool a = false, b = false;
    both("a sentry", [&] { typename cest::basic_istream<Ch>::sentry x(*c, noskip); a = bool(x); }, [&] { typename ref::basic_istream<Ch>::sentry x(*s, noskip); b = bool(x); });
    if (a != b) mc::fail("the sentry says %d, not %d", a, b);
  }
  void relocate(int k) {                                // the history goes on in another stream, and the old one is gone
    static const char *const w[] = {"a stream moved from it", "a new stream assigned by moving", "another stream assigned by moving", "a stream swapped with it"}; mc::tr("go on in %s", w[k]); mc::op();
    if (k == 0) { CS *d = new CS(std::move(*c)); delete c; c = d; SS *e = new SS(std::move(*s)); delete s; s = e; }
    else {
      T o; if (k > 1) { o += Ch('p'); o += Ch('q'); o += Ch('r'); } CS *d = k == 1 ? new CS : new CS(ct(o)); SS *e = k == 1 ? new SS : new SS(rt(o)); Ch x; if (k == 2) { d->get(x); e->get(x); }
      if (k < 3) { *d = std::move(*c); *e = std::move(*s); } else { std::swap(*d, *c); std::swap(*e, *s); }
      delete c; c = d; delete s; s = e;
    }
    same(w[k]); text(w[k]);
  }
  enum { LEAN = 3, FLAGS = 25, FULL = 31 };
  void step(int k, int max, int letters) {
    switch (k) {
    case 0: get(); break; case 1: unget(); break; case 2: read(2); break;
    case 3: read(0); break; case 4: read(1); break; case 5: read(5); break;
    case 6: { T t = ::text<Ch>(max, letters); mc::tr("str(%s)", sh(t).c_str()); both("str", [&] { c->str(ct(t)); }, [&] { s->str(rt(t)); }); text("str"); break; }
    case 7: { mc::tr("str(str())"); both("str", [&] { CT t = c->str(); c->str(t); }, [&] { auto t = s->str(); s->str(t); }); text("str"); break; }
    case 8: mc::tr("clear()"); both("clear", [&] { c->clear(); }, [&] { s->clear(); }); break;
    default:
      if (k < 16) { int m = k - 8; mc::tr("clear(%d)", m); both("clear", [&] { c->clear(cst(m)); }, [&] { s->clear(sst(m)); }); }
      else if (k < 19) { int m = 1 << (k - 16); mc::tr("setstate(%d)", m); both("setstate", [&] { c->setstate(cst(m)); }, [&] { s->setstate(sst(m)); }); }
      else if (k < 25) { static const int ms[] = {0, 1, 2, 4, 6, 7}; int m = ms[k - 19]; mc::tr("exceptions(%d)", m); both("exceptions", [&] { c->exceptions(cst(m)); }, [&] { s->exceptions(sst(m)); }); }
      else buf(k - 25);
    }
  }
  void drain(int limit) {                               // where the stream stands, seen by reading on
    c->exceptions(cst(0)); s->exceptions(sst(0)); c->clear(); s->clear();
    for (int i = 0; i < limit; i++) { get(); if (s->fail()) break; }
    text("in the end");
    c->clear(); s->clear(); for (int i = 0; i < limit; i++) { unget(); if (s->fail()) break; }
    c->clear(); s->clear(); get();
  }
};
template <class Ch, bool BOTH> struct Kind { using CS = std::conditional_t<BOTH, cest::basic_stringstream<Ch>, cest::basic_istringstream<Ch>>; using SS = std::conditional_t<BOTH, ref::basic_stringstream<Ch>, ref::basic_istringstream<Ch>>; using P = Pair<Ch, CS, SS>; };
template <class Ch, bool B> typename Kind<Ch, B>::P open(const Txt<Ch> &t, int mode) {
  using K = Kind<Ch, B>; typename K::P p; auto x = K::P::ct(t);
  if (mode == -2) { mc::tr("default-constructed"); p.c = new typename K::CS; p.s = new typename K::SS; }
  else if (mode == -1) { mc::tr("on %s", sh(t).c_str()); p.c = new typename K::CS(x); p.s = new typename K::SS(K::P::rt(t)); }
  else { mc::tr("on %s, mode %d (in 1, out 2, ate 4, app 8)", sh(t).c_str(), mode); p.c = new typename K::CS(x, cmd(mode)); p.s = new typename K::SS(K::P::rt(t), smd(mode)); }
  p.same("construction"); p.text("construction"); return p;
}
static uint64_t hs(const std::string &t, int a, int b, int c) { return mc::hash(t.data(), t.size(), a + 31 * b + 977 * c); }
template <class Ch, bool B> void hist(int depth, int menu, int max, int letters) {
  Txt<Ch> t = text<Ch>(max, letters); auto p = open<Ch, B>(t, -1);
  for (int i = 0; i < depth; i++) p.step(mc::choose(menu), 1, letters);
  mc::state(hs(sh(p.lt(p.s->str())), bits(p.s->rdstate()), (int)p.s->gcount(), bits(p.s->exceptions()) + (B ? 100 : 0)));
  p.drain(8); delete p.c; delete p.s;
}
using I = Pair<char, cest::istringstream, ref::istringstream>;
MC_SCENARIO(istringstream, 3, 4, 8, 16) { hist<char, false>(depth, I::FULL, depth < 3 ? 3 : 2, 3); }
MC_SCENARIO(stringstream, 3, 4, 8, 16) { hist<char, true>(depth, I::FULL, depth < 3 ? 3 : 1 + mc::thorough, 3); }
MC_SCENARIO(wide, 2, 3, 2, 8) { if (mc::choose(2)) hist<wchar_t, true>(depth, I::FULL, 2, 3); else hist<wchar_t, false>(depth, I::FULL, 2, 3); }
MC_SCENARIO(flags, 3, 4, 4, 16) { hist<char, false>(depth, I::FLAGS, 2, 1); }
// long histories of reads and un-reads
MC_SCENARIO(lean, 8, 11, 4, 8) {
  static const char *const ts[] = {"", "x", "abcd"}; std::string t = mc::pick(ts); auto p = open<char, false>(t, -1);
  for (int i = 0; i < depth; i++) p.step(mc::choose(3), 0, 1);
  mc::state(hs(t, bits(p.s->rdstate()), (int)p.s->gcount(), 7)); p.drain(8); delete p.c; delete p.s;
}
MC_SCENARIO(lean_clear, 6, 8, 4, 8) {
  auto p = open<char, true>("ab", -1); static const int ops[] = {0, 1, 2, 8, 6};
  for (int i = 0; i < depth; i++) p.step(mc::pick(ops), 1, 1);
  mc::state(hs(p.lt(p.s->str()), bits(p.s->rdstate()), (int)p.s->gcount(), 8)); p.drain(8); delete p.c; delete p.s;
}
// every way to open, then replace the text
MC_SCENARIO(modes, 2, 3, 4, 8) {
  int both = mc::choose(2), m = mc::choose_in(-2, 15); std::string t = m == -2 ? std::string() : text<char>(2, 3);
  auto go = [&](auto p) { for (int i = 0; i < depth; i++) { static const int ops[] = {0, 1, 2, 4, 5, 6, 7, 8, 12}; p.step(mc::pick(ops), 2, 2); } mc::state(hs(p.lt(p.s->str()), bits(p.s->rdstate()), (int)p.s->gcount(), 20 + m)); p.drain(8); delete p.c; delete p.s; };
  if (both) go(open<char, true>(t, m)); else go(open<char, false>(t, m));
}
// streams that are moved, and go on where they stood
template <class Ch, bool B> void moves(int depth) {
  auto p = open<Ch, B>(text<Ch>(depth < 4 ? 3 : 2, 2), mc::choose_in(-1, B ? 15 : 0)); static const int ops[] = {0, 1, 2, 6, 8, 20, 17};
  for (int i = 0; i < depth; i++) { int k = mc::choose(11); if (k < 7) p.step(ops[k], 1, 1); else p.relocate(k - 7); }
  mc::state(hs(sh(p.lt(p.s->str())), bits(p.s->rdstate()), (int)p.s->gcount(), bits(p.s->exceptions()) + 40)); p.drain(8); delete p.c; delete p.s;
}
MC_SCENARIO(moves_string, 3, 4, 4, 8) { moves<char, true>(depth); }
MC_SCENARIO(moves_istring, 4, 5, 4, 8) { moves<char, false>(depth); }
MC_SCENARIO(moves_wide, 3, 4, 2, 4) { moves<wchar_t, true>(depth); }
MC_SCENARIO(moves_far, 0, 0, 2, 4) {
  int n = pick_edge(mc::thorough ? 4097 : 600), a = pick_edge(n), k = mc::choose(4); std::string t; for (int i = 0; i < n; i++) t += (char)(i * 37 + (i >> 8));
  auto p = open<char, true>(t, -1); p.read(a); mc::state(hs("", n, a, k)); p.relocate(k); p.unget(); p.get(); p.read(n - a); p.read(1); p.c->clear(); p.s->clear(); p.unget(); p.relocate(k); p.get(); p.text("in the end"); delete p.c; delete p.s;
}
// every pair of block lengths, against every length of text
MC_SCENARIO(blocks, 0, 0, 8, 8) {
  int top = mc::thorough ? 140 : 70, n = mc::choose_in(0, top), a = mc::choose_in(0, n + 2), b = mc::choose_in(0, n + 2 - (a < n ? a : n)); std::string t;
  for (int i = 0; i < n; i++) t += (char)(i * 37); auto p = open<char, true>(t, -1); p.read(a); p.read(b);
  mc::state(hs("", n, a, b)); p.c->clear(); p.s->clear(); p.unget(); p.drain(0); p.read(n + 1); p.read(1); delete p.c; delete p.s;
}
// every character survives
MC_SCENARIO(every_char, 0, 0, 1, 1) {
  int ch = mc::choose(256), k = mc::choose(3); std::string t(3, 'm'); t[k] = (char)ch; auto p = open<char, true>(t, -1); mc::state(ch * 4 + k);
  p.drain(8); p.buf(1); p.read(3); delete p.c; delete p.s;
  auto q = open<wchar_t, false>(std::wstring(2, wchar_t(ch * 0x1010101u & 0x1fffff)), -1); q.drain(8); delete q.c; delete q.s;
}
// the same around powers of two: blocks, single characters, steps back
MC_SCENARIO(far, 0, 0, 4, 8) {
  int top = mc::thorough ? 8193 : 1025, n = pick_edge(top), a = pick_edge(top), b = pick_edge(top), k = mc::choose(3); std::string t; for (int i = 0; i < n; i++) t += (char)(i * 37 + (i >> 8));
  auto p = k == 2 ? open<char, true>(std::string("x"), -1) : open<char, true>(t, -1); if (k == 2) { p.both("str", [&] { p.c->str(p.ct(t)); }, [&] { p.s->str(p.rt(t)); }); p.text("str"); }
  if (a > n + 1) a = n + 1; if (b > n + 1) b = n + 1; p.read(a); if (k == 1) { p.unget(); p.get(); p.unget(); } p.read(b); mc::state(hs("", n, a, b + k));
  p.c->clear(); p.s->clear(); p.unget(); p.get(); p.read(n + 1); p.read(1); p.text("in the end"); delete p.c; delete p.s;
}
// sentries, which skip white space, among other calls; and for every character
template <class Ch> void sentries(int depth) {
  static const Ch ls[] = {'a', ' ', '\n', '\t'}; Txt<Ch> t; for (int i = 0, n = mc::choose_in(0, depth < 3 ? 4 : 3); i < n; i++) t += ls[mc::choose(depth < 3 ? 4 : 3)];
  auto p = open<Ch, true>(t, -1); static const int ops[] = {0, 1, 2, 8, 23, 25};
  for (int i = 0; i < depth; i++) { int k = mc::choose(8); if (k < 6) p.step(ops[k], 1, 1); else p.sentry(k == 7); }
  mc::state(hs(sh(t), bits(p.s->rdstate()), (int)p.s->gcount(), 30)); p.drain(8); delete p.c; delete p.s;
}
MC_SCENARIO(sentries_char, 4, 5, 4, 8) { sentries<char>(depth); }
MC_SCENARIO(sentries_wide, 3, 4, 2, 8) { sentries<wchar_t>(depth); }
MC_SCENARIO(sentry_every_char, 0, 0, 1, 1) {
  int ch = mc::choose(256), k = mc::choose(3); std::string t = k == 0 ? "" : k == 1 ? " " : "x"; t += (char)ch; t += 'y'; auto p = open<char, false>(t, -1); mc::state(ch * 4 + k + (1 << 20));
  if (k == 2) p.get(); p.sentry(false); p.get(); p.sentry(true); p.get(); p.drain(4); delete p.c; delete p.s;
  auto q = open<wchar_t, true>(std::wstring(t.begin(), t.end()), -1); q.sentry(false); q.get(); q.sentry(false); q.drain(4); delete q.c; delete q.s;
}
// flag sets: every pair of sets made of up to two named flags, and of their complements
template <class F, class G> void sets(const F (&a)[18], const G (&b)[18], int n) {
  int v[4]; F x[2]; G y[2]; for (int i = 0; i < 4; i++) v[i] = mc::choose(n);
  for (int i = 0; i < 2; i++) { x[i] = a[v[2 * i]] | a[v[2 * i + 1]]; y[i] = b[v[2 * i]] | b[v[2 * i + 1]]; if (mc::choose(2)) { x[i] = ~x[i]; y[i] = ~y[i]; } }
  auto cmp = [&](const char *op, F f, G g) { mc::op(); for (int i = 0; i < n; i++) if (((f & a[i]) == a[i]) != ((g & b[i]) == b[i]) || bool(f & a[i]) != bool(g & b[i])) mc::fail("of sets {%d,%d} and {%d,%d}, %s has or lacks flag %d wrongly", v[0], v[1], v[2], v[3], op, i); };
  mc::state(mc::hash(v, sizeof v, n)); cmp("one", x[0], y[0]); cmp("|", x[0] | x[1], y[0] | y[1]); cmp("&", x[0] & x[1], y[0] & y[1]); cmp("^", x[0] ^ x[1], y[0] ^ y[1]); cmp("~", ~x[0], ~y[0]);
  F f = x[0]; G g = y[0]; f |= x[1]; g |= y[1]; cmp("|=", f, g); f = x[0]; g = y[0]; f &= x[1]; g &= y[1]; cmp("&=", f, g); f = x[0]; g = y[0]; f ^= x[1]; g ^= y[1]; cmp("^=", f, g);
  if ((x[0] == x[1]) != (y[0] == y[1])) mc::fail("sets {%d,%d} and {%d,%d} compare wrongly", v[0], v[1], v[2], v[3]);
}
MC_SCENARIO(flag_sets, 0, 0, 1, 2) {
  using C = cest::ios_base; using S = ref::ios_base; cest::istringstream ci; ref::istringstream si;
  if ((ci.flags() == (C::skipws | C::dec)) != (si.flags() == (S::skipws | S::dec))) mc::fail("a new stream's format flags are not skipws and dec");
  switch (mc::choose(3)) {
  case 0: { const C::iostate a[18] = {C::goodbit, C::badbit, C::eofbit, C::failbit}; const S::iostate b[18] = {S::goodbit, S::badbit, S::eofbit, S::failbit}; sets(a, b, 4); break; }
  case 1: { const C::openmode a[18] = {C::app, C::ate, C::binary, C::in, C::out, C::trunc}; const S::openmode b[18] = {S::app, S::ate, S::binary, S::in, S::out, S::trunc}; sets(a, b, 6); break; }
  default: { const C::fmtflags a[18] = {C::boolalpha, C::dec, C::fixed, C::hex, C::internal, C::left, C::oct, C::right, C::scientific, C::showbase, C::showpoint, C::showpos, C::skipws, C::unitbuf, C::uppercase, C::adjustfield, C::basefield, C::floatfield};
             const S::fmtflags b[18] = {S::boolalpha, S::dec, S::fixed, S::hex, S::internal, S::left, S::oct, S::right, S::scientific, S::showbase, S::showpoint, S::showpos, S::skipws, S::unitbuf, S::uppercase, S::adjustfield, S::basefield, S::floatfield};
             sets(a, b, mc::thorough || mc::choose(2) ? 18 : 8); break; }
  }
}
// texts and blocks whose lengths need 16 bits and more
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(farthest, 0, 0, 4, 8) {
  int n = huge::size(), a = huge::size(), k = 2 * mc::choose(2), back = mc::choose(2); std::string t; for (int i = 0; i < n; i++) t += (char)(i * 37 + (i >> 8));
  auto p = k == 2 ? open<char, true>(std::string("x"), -1) : open<char, true>(t, -1); if (k == 2) { p.both("str", [&] { p.c->str(p.ct(t)); }, [&] { p.s->str(p.rt(t)); }); p.text("str"); }
  if (a > n + 1) a = n + 1; p.read(a); mc::state(hs("", n, a, k * 2 + back)); if (back) { p.unget(); p.get(); p.unget(); } p.read(n - a > 0 ? n - a : 1); p.c->clear(); p.s->clear(); p.unget(); p.get(); p.read(n + 1); p.read(1); p.text("in the end"); delete p.c; delete p.s;
}
#endif
MC_MAIN
