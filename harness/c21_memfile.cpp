#include "seq.hpp"
#include <cest/cstdio.hpp>
#include <stdio.h>
TRK_HEAP
// An in-memory file against the buffer it was opened on, and against the C library's fmemopen.
static char at(int i) { static const char a[] = {'a', 0, char(0xff), '\n', 26, 'z', 0, 1}; return i < 8 ? a[i] : char(i * 37 + (i >> 3)); }
struct File {
  cest::FILE *c; ::FILE *f; std::string text; size_t pos; char *mem;
  void open(const std::string &t) {
    text = t; pos = 0; mem = (char *)malloc(t.size() + (t.empty())); memcpy(mem, t.data(), t.size());
    mc::op(); c = cest::fmemopen(mem, t.size(), "r"); if (!c) mc::fail("fmemopen fails");
    f = t.empty() ? nullptr : ::fmemopen((void *)text.data(), text.size(), "r");
  }
  void read(size_t n) {
    mc::tr("fread of %zu at %zu of %zu", n, pos, text.size()); mc::op();
    char *b = (char *)malloc(n + (n == 0)); memset(b, 0x55, n); size_t r = cest::fread(b, 1, n, c), want = std::min(n, text.size() - pos);
    if (r != want) mc::fail("fread of %zu at %zu of %zu returns %zu, not %zu", n, pos, text.size(), r, want);
    for (size_t i = 0; i < n; i++) { char w = i < want ? text[pos + i] : char(0x55); if (b[i] != w) mc::fail("fread of %zu at %zu of %zu: byte %zu is %02x, not %02x", n, pos, text.size(), i, b[i] & 255, w & 255); }
    if (f) { char *d = (char *)malloc(n + (n == 0)); memset(d, 0x55, n); size_t q = ::fread(d, 1, n, f); if (q != want || memcmp(b, d, n)) mc::internal_error("the model differs from the C library"); free(d); }
    free(b); pos += want;
  }
  void close() {
    mc::tr("fclose"); mc::op(); int r = cest::fclose(c); if (r != 0) mc::fail("fclose returns %d", r); if (f) ::fclose(f);
    if (mem) { if (memcmp(mem, text.data(), text.size())) mc::fail("the buffer changed"); free(mem); }
  }
};
static std::string bytes(int n) { std::string t; for (int i = 0; i < n; i++) t += at(i); return t; }
static uint64_t hs(const File &f, int k) { return mc::hash(f.text.data(), f.text.size(), f.pos * 1024 + f.text.size() + ((uint64_t)k << 40)); }
// every text over three letters, every sequence of lengths
MC_SCENARIO(texts, 3, 4, 4, 8) {
  std::string t; int n = mc::choose_in(0, depth < 3 || mc::thorough ? 4 : 3); static const char a[] = {'a', 0, char(0xff)}; for (int i = 0; i < n; i++) t += mc::pick(a);
  mc::tr("a file of %d bytes", n); File f; f.open(t);
  for (int i = 0; i < depth; i++) f.read(mc::choose_in(0, n + 1));
  mc::state(hs(f, 1)); f.read(n + 1); f.read(1); f.close();
}
// longer files in longer sequences
MC_SCENARIO(sequences, 5, 6, 4, 8) {
  static const int ls[] = {0, 5, 6, 7, 8, 9, 16}; int n = mc::pick(ls); mc::tr("a file of %d bytes", n); File f; f.open(bytes(n));
  static const int bs[] = {1, 2, 0, 3, 5, 8, 17}; for (int i = 0; i < depth; i++) f.read(mc::pick(bs));
  mc::state(hs(f, 2)); f.read(20); f.read(20); f.close();
}
// every length of file, every pair of block lengths around it
MC_SCENARIO(lengths, 0, 0, 4, 8) {
  int n = mc::choose_in(0, mc::thorough ? 600 : 300); int near[] = {0, 1, n / 2, n > 0 ? n - 1 : 0, n, n + 1, 2 * n + 3, 15, 16, 17}; int a = near[mc::choose(10)], b = near[mc::choose(10)];
  mc::tr("a file of %d bytes", n); File f; f.open(bytes(n)); f.read(a); f.read(b); mc::state(hs(f, 3)); f.read(n + 2); f.read(1); f.close();
}
MC_SCENARIO(all_pairs, 0, 0, 4, 8) {
  int n = mc::choose_in(0, mc::thorough ? 80 : 40), a = mc::choose_in(0, n + 1), b = mc::choose_in(0, n + 1); File f; f.open(bytes(n)); f.read(a); f.read(b); mc::state(hs(f, 4)); f.read(n); f.close();
}
// several files at once, opened and closed in any order
MC_SCENARIO(several, 5, 7, 4, 8) {
  File f[2]; bool open[2] = {false, false};
  for (int s = 0; s < depth; s++) {
    int i = mc::choose(2); if (!open[i]) { int n = mc::choose_in(0, 3); mc::tr("file %d of %d bytes", i, n); f[i].open(bytes(n + 2 * i)); open[i] = true; continue; }
    int k = mc::choose(4); mc::tr("file %d:", i); if (k == 3) { f[i].close(); open[i] = false; } else f[i].read(k);
  }
  for (int i = 0; i < 2; i++) if (open[i]) { mc::state(hs(f[i], 5 + i)); f[i].read(9); f[i].close(); }
}
// a big one, and every byte value
MC_SCENARIO(big, 0, 0, 1, 1) {
  static const int ls[] = {255, 256, 257, 1000, 4095, 4096, 4097, 65537, 1000000}, bs[] = {1, 7, 255, 256, 257, 4096, 1000001}; int n = mc::pick(ls), b = mc::pick(bs); File f; f.open(bytes(n));
  for (int i = 0; i < n / b + 2 && i < 5000; i++) f.read(b); mc::state(hs(f, 8)); f.read(n); f.close();
}
// every length of file, with special bytes (null, line ends, end-of-file marks) at its start, at its end or all over it
MC_SCENARIO(tails, 0, 0, 4, 8) {
  int n = mc::choose_in(0, mc::thorough ? 2100 : 1100); static const char cs[] = {0, '\n', '\r', 26, char(0xff), ' ', 4}; char c = mc::pick(cs); int where = mc::choose(4);
  std::string t = bytes(n); if (where == 3) t.assign(n, c); else if (n) { t[where == 0 ? 0 : n - 1] = c; if (where == 2) t[n / 2] = c; }
  mc::tr("a file of %d bytes with byte %02x %s", n, c & 255, where == 0 ? "first" : where == 1 ? "last" : where == 2 ? "last and in the middle" : "all over it");
  File f; f.open(t); f.read(n / 2); f.read(n); mc::state(hs(f, 9)); f.read(1); f.close();
}
// the special bytes one after another at the end, in every order
MC_SCENARIO(endings, 0, 0, 4, 8) {
  static const int ls[] = {2, 3, 4, 8, 15, 16, 17, 64, 128, 512, 1024}; static const char cs[] = {0, '\n', '\r', 26, char(0xff), 'a'}; int n = mc::pick(ls); std::string t = bytes(n);
  t[n - 1] = mc::pick(cs); t[n - 2] = mc::pick(cs); t[n > 3 ? n - 3 : 0] = mc::pick(cs); mc::tr("a file of %d bytes ending with %02x %02x %02x", n, t[n > 3 ? n - 3 : 0] & 255, t[n - 2] & 255, t[n - 1] & 255);
  File f; f.open(t); f.read(n - 1); f.read(3); mc::state(hs(f, 10)); f.close();
}
MC_MAIN
