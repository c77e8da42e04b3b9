#include "huge.hpp"
#include "seq.hpp"
#include <cest/sstream.hpp>
#include <cest/iostream.hpp>
#include <sstream>
TRK_HEAP
// Under MemorySanitizer the other side is the library too: what is decided there is that nothing depends on memory never written.
#define MEM __has_feature(memory_sanitizer)
#if MEM
namespace ref = cest;
#else
namespace ref = std;
#endif
// One buffer class, derived from the library's stream buffer and from the standard library's; each call is made on a stream over either,
// and everything both report is compared. The class may keep the whole text, chunks of it, or nothing at hand; and may throw at any call.
static cest::ios_base::iostate cst(int m) { cest::ios_base::iostate r = cest::ios_base::goodbit; if (m & 1) r |= cest::ios_base::badbit; if (m & 2) r |= cest::ios_base::eofbit; if (m & 4) r |= cest::ios_base::failbit; return r; }
static ref::ios_base::iostate sst(int m) { ref::ios_base::iostate r = ref::ios_base::goodbit; if (m & 1) r |= ref::ios_base::badbit; if (m & 2) r |= ref::ios_base::eofbit; if (m & 4) r |= ref::ios_base::failbit; return r; }
static int bits(cest::ios_base::iostate s) { return ((s & cest::ios_base::badbit) ? 1 : 0) | ((s & cest::ios_base::eofbit) ? 2 : 0) | ((s & cest::ios_base::failbit) ? 4 : 0); }
#if !MEM
static int bits(ref::ios_base::iostate s) { return ((s & ref::ios_base::badbit) ? 1 : 0) | ((s & ref::ios_base::eofbit) ? 2 : 0) | ((s & ref::ios_base::failbit) ? 4 : 0); }
#endif

struct Boom {};
struct Plan { int kind, chunk, boom, back, syncs; };       // kind 0: the whole text, 1: chunks, 2: nothing at hand, 3: chunks and block reads of its own; back: un-reads are possible beyond the chunk
template <class B> struct Src : B {
  using Ch = typename B::char_type; using Tr = typename B::traits_type; using I = typename B::int_type;
  std::basic_string<Ch> t; long pos = 0; Plan p; Ch *area = nullptr; int n = 0; int calls = 0;  // pos: where the chunk at hand ends
  Src(std::basic_string<Ch> t, Plan p) : t(t), p(p) { if (p.kind == 0) show(0, (long)t.size(), 0); }
  ~Src() { free(area); }
  void show(long from, long len, long at) {              // exactly the chunk, so that nothing beyond it can be read unnoticed
    free(area); area = (Ch *)malloc(len * sizeof(Ch) + (len == 0)); for (long i = 0; i < len; i++) area[i] = t[from + i];
    pos = from + len; n = (int)len; this->setg(area, area + at, area + len);
  }
  void call() { if (++calls == p.boom) throw Boom(); }
  long at() const { return pos - (this->egptr() - this->gptr()); }
  I underflow() override {
    call();
    if (p.kind == 2) return pos < (long)t.size() ? Tr::to_int_type(t[pos]) : Tr::eof();
    if (pos >= (long)t.size()) return Tr::eof();
    long len = std::min<long>(p.chunk, (long)t.size() - pos); show(pos, len, 0); return Tr::to_int_type(*this->gptr());
  }
  I uflow() override {
    if (p.kind != 2) return B::uflow();
    call(); return pos < (long)t.size() ? Tr::to_int_type(t[pos++]) : Tr::eof();
  }
  I pbackfail(I = Tr::eof()) override {
    call(); if (!p.back) return Tr::eof();
    if (p.kind == 2) { if (pos == 0) return Tr::eof(); --pos; return Tr::to_int_type(t[pos]); }
    long a = at(); if (a == 0) return Tr::eof();
    long from = std::max<long>(0, a - p.chunk); show(from, a - from, a - from - 1); return Tr::to_int_type(*this->gptr());
  }
  std::streamsize xsgetn(Ch *s, std::streamsize k) override {
    if (p.kind != 3) return B::xsgetn(s, k);
    call(); long a = at(), len = std::min<long>(k, (long)t.size() - a); for (long i = 0; i < len; i++) s[i] = t[a + i]; show(a + len, 0, 0); return len;
  }
  int sync() override { ++calls; if (p.syncs == 2) throw Boom(); return p.syncs == 1 ? -1 : 0; }
};
template <class Ch> struct Both {
  Src<cest::basic_streambuf<Ch>> cb; Src<ref::basic_streambuf<Ch>> sb; cest::basic_istream<Ch> c; ref::basic_istream<Ch> s;
  Both(const std::basic_string<Ch> &t, Plan p) : cb(t, p), sb(t, p), c(&cb), s(&sb) { same("construction"); }
  void same(const char *op) {
    if (c.gcount() != s.gcount()) mc::fail("%s: gcount() is %ld, not %ld", op, (long)c.gcount(), (long)s.gcount());
    if (bits(c.rdstate()) != bits(s.rdstate())) mc::fail("%s: the state is %d, not %d (bad 1, eof 2, fail 4)", op, bits(c.rdstate()), bits(s.rdstate()));
    if (c.good() != s.good() || c.eof() != s.eof() || c.fail() != s.fail() || bool(c) != bool(s) || !c != !s) mc::fail("%s: a flag reader is wrong in state %d", op, bits(s.rdstate()));
    if (cb.at() != sb.at()) mc::fail("%s: %ld characters of the source are consumed, not %ld", op, cb.at(), sb.at());
    if (c.rdbuf() != &cb) mc::fail("%s: rdbuf() is another buffer", op);
  }
  template <class F> static int outcome(F f) { try { f(); return 0; } catch (Boom &) { return 1; } catch (std::ios_base::failure &) { return 2; } }
  template <class F, class G> void both(const char *op, F f, G g) {
    static const char *const w[] = {"returns", "lets the buffer's exception through", "throws a failure"};
    mc::op(); int a = outcome(f), b = outcome(g); if (a != b) mc::fail("%s %s, where the standard stream %s", op, w[a], w[b]); same(op);
  }
  void read(int n) {
    mc::tr("read(%d)", n); Ch *a = (Ch *)malloc(n * sizeof(Ch) + (n == 0)), *b = (Ch *)malloc(n * sizeof(Ch) + (n == 0)); for (int i = 0; i < n; i++) a[i] = b[i] = Ch(0x55);
    both("read", [&] { c.read(a, n); }, [&] { s.read(b, n); });
    for (int i = 0; i < n; i++) if (a[i] != b[i]) mc::fail("read(%d) leaves %x at %d, not %x", n, (unsigned)a[i], i, (unsigned)b[i]);
    free(a); free(b);
  }
  void get() { Ch a = Ch(0x55), b = Ch(0x55); mc::tr("get"); both("get", [&] { c.get(a); }, [&] { s.get(b); }); if (a != b) mc::fail("get delivers %x, not %x", (unsigned)a, (unsigned)b); }
  void raw(int k) {
    static const char *const w[] = {"sgetc", "sbumpc", "snextc", "sungetc", "sgetn(2)"}; mc::tr("%s", w[k]); mc::op(); long a = 0, b = 0; Ch p[2] = {Ch(0x55), Ch(0x55)}, q[2] = {Ch(0x55), Ch(0x55)};
    auto go = [&](auto &x, long &r, Ch *o) { return outcome([&] { r = k == 0 ? (long)x.sgetc() : k == 1 ? (long)x.sbumpc() : k == 2 ? (long)x.snextc() : k == 3 ? (long)x.sungetc() : (long)x.sgetn(o, 2); }); };
    int x = go(*c.rdbuf(), a, p), y = go(*s.rdbuf(), b, q);
    if (x != y || a != b || p[0] != q[0] || p[1] != q[1]) mc::fail("%s of the buffer returns %ld (%d), not %ld (%d), or other characters", w[k], a, x, b, y);
    same(w[k]);
  }
  enum { MENU = 20 };
  void step(int k) {
    switch (k) {
    case 0: get(); break; case 1: mc::tr("unget"); both("unget", [&] { c.unget(); }, [&] { s.unget(); }); break;
    case 2: read(2); break; case 3: read(5); break; case 4: read(0); break; case 5: read(1); break;
    case 6: mc::tr("clear()"); both("clear", [&] { c.clear(); }, [&] { s.clear(); }); break;
    case 7: case 8: case 9: case 10: raw(k - 7); break;
    case 11: raw(4); break;
    case 12: case 13: case 14: case 15: { static const int ms[] = {1, 2, 4, 0}; int m = ms[k - 12]; mc::tr("exceptions(%d)", m); both("exceptions", [&] { c.exceptions(cst(m)); }, [&] { s.exceptions(sst(m)); }); break; }
    case 18: case 19: { bool no = k == 19, a = false, b = false; mc::tr("a sentry%s", no ? " that does not skip" : "");
      both("a sentry", [&] { typename cest::basic_istream<Ch>::sentry x(c, no); a = bool(x); }, [&] { typename ref::basic_istream<Ch>::sentry x(s, no); b = bool(x); }); if (a != b) mc::fail("the sentry says %d, not %d", a, b); break; }
    case 16: case 17: { int m = k == 16 ? 2 : 4; mc::tr("setstate(%d)", m); both("setstate", [&] { c.setstate(cst(m)); }, [&] { s.setstate(sst(m)); }); break; }
    }
  }
  void drain() {
    cb.p.boom = sb.p.boom = -1; c.exceptions(cst(0)); s.exceptions(sst(0)); c.clear(); s.clear();
    for (int i = 0; i < 9; i++) { get(); if (s.fail()) break; }
    c.clear(); s.clear(); for (int i = 0; i < 9; i++) { step(1); if (s.fail()) break; }
    c.clear(); s.clear(); read(9);
  }
  uint64_t hash(int x) { uint64_t h = mc::hash(sb.t.data(), sb.t.size() * sizeof(Ch), x); long v[] = {sb.at(), bits(s.rdstate()), (long)s.gcount(), bits(s.exceptions()), sb.p.kind, sb.p.chunk, sb.p.boom, sb.p.back, sb.calls}; return mc::hash(v, sizeof v, h); }
};
static Plan plan(int booms) {
  Plan p{}; p.kind = mc::choose(4); p.chunk = p.kind == 1 || p.kind == 3 ? mc::choose_in(1, 3) : p.kind == 0 ? 100 : 1; p.back = mc::choose(2); p.boom = mc::choose(booms + 1); if (!p.boom) p.boom = -1;
  mc::tr("%s (chunks of %d), %s, throws at call %d", p.kind == 0 ? "whole text" : p.kind == 1 ? "chunks" : p.kind == 2 ? "unbuffered" : "chunks and block reads", p.chunk, p.back ? "steps back" : "does not step back", p.boom); return p;
}
template <class Ch> std::basic_string<Ch> text(int k) { static const char *const ts[] = {"", "a", "ab", " \n cd", "\xff\xff", "abc \t  "}; static const int ls[] = {0, 1, 2, 5, 3, 7}; std::basic_string<Ch> r; for (int i = 0; i < ls[k]; i++) r += (Ch)(k == 4 && i == 2 ? 0 : ts[k][i]); mc::tr("on a text of %d", ls[k]); return r; }
template <class Ch> void hist(int depth, int booms) {
  int k = mc::choose(6); Plan p = plan(booms); Both<Ch> b(text<Ch>(k), p); for (int i = 0; i < depth; i++) b.step(mc::choose(Both<Ch>::MENU)); mc::state(b.hash(1)); b.drain();
}
MC_SCENARIO(history, 3, 4, 8, 16) { hist<char>(depth, depth < 3 ? 3 : 1 + mc::thorough); }
MC_SCENARIO(throwing, 2, 3, 4, 8) { hist<char>(depth, 5); }
MC_SCENARIO(wide, 2, 3, 2, 8) { hist<wchar_t>(depth, 2); }
// long histories of reads and un-reads over chunks
MC_SCENARIO(lean, 7, 9, 4, 8) {
  Plan p{1, mc::choose_in(1, 3), -1, mc::choose(2), 0}; p.kind = mc::choose_in(1, 2); Both<char> b("abcde", p); for (int i = 0; i < depth; i++) b.step(mc::choose(3)); mc::state(b.hash(2)); b.drain();
}
// every block length against every chunk length and text length
MC_SCENARIO(blocks, 0, 0, 4, 8) {
  int top = mc::thorough ? 34 : 17, n = mc::choose_in(0, top), ch = mc::choose_in(1, top), a = mc::choose_in(0, n + 1), kind = mc::choose_in(1, 3); std::string t; for (int i = 0; i < n; i++) t += (char)(i * 37);
  mc::tr("a text of %d in chunks of %d", n, ch); Both<char> b(t, Plan{kind, ch, -1, 1, 0}); b.read(a); mc::state(b.hash(3)); b.c.clear(); b.s.clear(); b.step(1); b.get(); b.read(n - a > 0 ? n - a : 1); b.read(2); b.drain();
}
// flushing, and streams without any buffer
MC_SCENARIO(flush, 0, 0, 1, 1) {
  int syncs = mc::choose(3), mask = mc::choose(8), none = mc::choose(2); Plan p{0, 1, -1, 0, syncs}; mc::tr("%s, sync %s, exceptions(%d)", none ? "no buffer" : "a buffer", syncs == 0 ? "succeeds" : syncs == 1 ? "fails" : "throws", mask);
  Src<cest::basic_streambuf<char>> cb("x", p); Src<ref::basic_streambuf<char>> sb("x", p); cest::ostream c(none ? nullptr : &cb); ref::ostream s(none ? nullptr : &sb); mc::state(syncs * 16 + mask * 2 + none);
  auto same = [&](const char *op) { mc::op(); if (bits(c.rdstate()) != bits(s.rdstate()) || bool(c) != bool(s) || c.good() != s.good()) mc::fail("%s: the state is %d, not %d (bad 1, eof 2, fail 4)", op, bits(c.rdstate()), bits(s.rdstate())); };
  same("construction"); int a = Both<char>::outcome([&] { c.exceptions(cst(mask)); }), b = Both<char>::outcome([&] { s.exceptions(sst(mask)); }); if (a != b) mc::fail("exceptions(%d) has outcome %d, not %d", mask, a, b); same("exceptions");
  if (!s.good()) return;
  a = Both<char>::outcome([&] { c.flush(); }); b = Both<char>::outcome([&] { s.flush(); }); if (a != b) mc::fail("flush has outcome %d, not %d (1 the buffer's exception, 2 a failure)", a, b); same("flush");
  if (cb.calls != sb.calls) mc::fail("flush synchronises %d times, not %d", cb.calls, sb.calls);
}
MC_SCENARIO(no_buffer, 3, 4, 1, 1) {
  cest::istream c(nullptr); ref::istream s(nullptr); bool drop = false;
  for (int i = 0; i < depth; i++) {
    int k = mc::choose(7); char x = 'x', y = 'x'; int a = 0, b = 0; mc::op(); mc::tr("call %d", k);
    auto go = [&](auto &f, char &ch, auto st) { return Both<char>::outcome([&] { switch (k) { case 0: f.get(ch); break; case 1: f.unget(); break; case 2: f.read(&ch, 1); break; case 3: f.clear(); break; case 4: f.setstate(st(2)); break; case 5: f.exceptions(st(4)); break; case 6: f.exceptions(st(0)); break; } }); };
    a = go(c, x, cst); b = go(s, y, sst);
    if (a != b || x != y || bits(c.rdstate()) != bits(s.rdstate()) || c.gcount() != s.gcount()) mc::fail("without a buffer, call %d has outcome %d, state %d, not %d, state %d", k, a, bits(c.rdstate()), b, bits(s.rdstate()));
  }
  mc::state(bits(s.rdstate()) * 8 + bits(s.exceptions())); (void)drop;
}
#if !__has_feature(memory_sanitizer)
// texts, chunks and blocks whose lengths need 16 bits and more
MC_SCENARIO(long_blocks, 0, 0, 2, 4) {
  static const int cs[] = {1000, 32768, 65536, 65537, 200000}; int n = huge::size(), a = huge::size(), ch = mc::pick(cs), kind = mc::choose(4); if (kind == 2 && ch != 1000) return; if (kind == 0) { if (ch != 1000) return; ch = 1 << 20; } std::string t; for (int i = 0; i < n; i++) t += (char)(i * 37 + (i >> 8)); if (a > n + 1) a = n + 1;
  mc::tr("a text of %d in chunks of %d, kind %d", n, ch, kind); Both<char> b(t, Plan{kind, ch, -1, 1, 0}); b.read(a); mc::state(b.hash(4)); b.c.clear(); b.s.clear(); b.step(1); b.get(); b.read(n - a > 0 ? n - a : 1); b.read(2); b.drain();
}
#endif
// a buffer that is copied, or assigned: the copy stands where the other stood, and goes on alone
template <class B> struct Mem : B { using Ch = typename B::char_type; int fills = 0; Mem(Ch *b, int at, int n) { if (b) this->setg(b, b + at, b + n); } long at() const { return this->gptr() - this->eback(); } long left() const { return this->egptr() - this->gptr(); } typename B::int_type underflow() override { fills++; return B::traits_type::eof(); } };
template <class Ch> void copied(int depth) {
  using C = Mem<cest::basic_streambuf<Ch>>; using S = Mem<ref::basic_streambuf<Ch>>; Ch t[3] = {Ch('p'), Ch(0xff), Ch('q')}; int n = mc::choose(4), at = mc::choose_in(0, n), bare = n == 0 ? mc::choose(2) : 0, how = mc::choose(4); mc::tr("%d characters at hand, at %d%s, %s", n, at, bare ? ", no area" : "", how == 0 ? "copied" : how == 1 ? "assigned" : how == 2 ? "copied twice" : "copied after reading"); mc::state(n * 64 + at * 8 + bare * 4 + how);
  C c0(bare ? nullptr : t, at, n); S s0(bare ? nullptr : t, at, n); cest::basic_istream<Ch> ci0(&c0); ref::basic_istream<Ch> si0(&s0); if (how == 3) { Ch x; ci0.get(x); si0.get(x); }
  alignas(C) static unsigned char room[2][sizeof(C)]; memset(room, 0x5a, sizeof room); C *k = new (room[0]) C(c0), *c1 = how == 2 ? new (room[1]) C(*k) : k; S s1(s0); Ch other[1] = {Ch('z')}; C ca(other, 0, 1); S sa(other, 0, 1); if (how == 1) { ca = c0; sa = s0; c1 = &ca; } S &s1r = how == 1 ? sa : s1;
  cest::basic_istream<Ch> ci1(c1); ref::basic_istream<Ch> si1(&s1r); mc::op();
  auto same = [&](const char *op) { mc::op(); if (c0.at() != s0.at() || c0.left() != s0.left() || c1->at() != s1r.at() || c1->left() != s1r.left() || c0.fills != s0.fills || c1->fills != s1r.fills) mc::fail("after %s the areas are at %ld of %ld and %ld of %ld, not %ld of %ld and %ld of %ld", op, c0.at(), c0.at() + c0.left(), c1->at(), c1->at() + c1->left(), s0.at(), s0.at() + s0.left(), s1r.at(), s1r.at() + s1r.left());
    if (bits(ci0.rdstate()) != bits(si0.rdstate()) || bits(ci1.rdstate()) != bits(si1.rdstate())) mc::fail("after %s the states are %d and %d, not %d and %d", op, bits(ci0.rdstate()), bits(ci1.rdstate()), bits(si0.rdstate()), bits(si1.rdstate())); };
  same("the copy"); for (int i = 0; i < depth; i++) { int w = mc::choose(2), o = mc::choose(4); mc::tr("call %d of the %s", o, w ? "copy" : "original"); Ch a[2] = {}, b[2] = {};
    auto go = [&](auto &x, Ch *p) { switch (o) { case 0: x.get(*p); break; case 1: x.unget(); break; case 2: x.read(p, 2); break; default: x.clear(); } }; go(w ? ci1 : ci0, a); go(w ? si1 : si0, b); same("a call"); if (a[0] != b[0] || a[1] != b[1]) mc::fail("other characters are delivered"); }
  k->~C(); if (how == 2) c1->~C();
}
MC_SCENARIO(copied_char, 3, 5, 2, 4) { copied<char>(depth); }
MC_SCENARIO(copied_wide, 2, 3, 1, 2) { copied<wchar_t>(depth); }
MC_MAIN
