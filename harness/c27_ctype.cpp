#include "mc.hpp"
#include <cest/cctype.hpp>
static bool up(long c) { return c >= 'A' && c <= 'Z'; }
static bool an(long c) { return up(c) || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
static void block(long lo, long n) {
  mc::tr("%ld to %ld", lo, lo + n - 1);
  for (long c = lo; c < lo + n; c++) {
    bool a = cest::isalnum((int)c) != 0, u = cest::isupper((int)c) != 0;
    if (a != an(c)) mc::fail("isalnum(%ld) is %s", c, a ? "true" : "false");
    if (u != up(c)) mc::fail("isupper(%ld) is %s", c, u ? "true" : "false");
    mc::op(); mc::op();
  }
  mc::state((uint64_t)lo);
}
// all ints, in blocks of 2^16. Quick: each block whose base has its high half near a value that a
// narrowing, masking or sign mistake would confuse with a character; thorough: all of them.
MC_SCENARIO(blocks, 0, 0, 8, 8) {
  int a = mc::choose(256), b = mc::choose(256);
  long hi = a * 256L + b;
  if (!mc::thorough) {
    auto near = [](int x) { return x <= 1 || x >= 254 || x == 0x7f || x == 0x80 || x == 0x30 || x == 0x41 || x == 0x61; };
    if (!near(a) || !near(b)) return;
  }
  block((hi << 16) - (1L << 31), 1L << 16);
}
// each int with one character in one of its bytes and every byte elsewhere filled alike
MC_SCENARIO(bytes, 0, 0, 4, 8) {
  int c = mc::choose(256), k = mc::choose(4), f = mc::choose(256);
  unsigned x = (unsigned)f * 0x01010101u; x = (x & ~(0xffu << (8 * k))) | ((unsigned)c << (8 * k));
  block((int)x, 1);
}
MC_MAIN
