// The number of comparisons of lookups and insertions, for every insertion order.
#include "tree.hpp"
#include <cmath>
TRK_HEAP
using namespace tree;
static long calls;
struct Count { template <class A, class B> bool operator()(const A &a, const B &b) const { calls++; return a < b; } };
struct CountDesc { template <class A, class B> bool operator()(const A &a, const B &b) const { calls++; return b < a; } };
static double lg(size_t n) { return std::log2((double)n + 1); }

template <class T> struct Meter {
  typename T::C c; size_t n = 0;
  void put(int k) {
    mc::op(); calls = 0; bool hinted = false;
    if constexpr (!T::is_map) if (n % 3) { hinted = true; c.insert(n % 3 == 1 ? c.begin() : c.end(), k); }
    if (!hinted) T::put(c, k, 0);
    if (calls > 8 * lg(n + 1) + 8) mc::fail("inserting into %zu keys%s takes %ld comparisons", n, hinted ? " with a hint" : "", calls);
    n = c.size();
    if constexpr (!T::is_map) if (n) for (int h = 0; h < 2; h++) {
      calls = 0; c.insert(h ? c.begin() : c.end(), k);
      if (calls > 8 * lg(n + 1) + 8) mc::fail("inserting a key of %zu again, with a hint, takes %ld comparisons", n, calls);
    }
  }
  void find(int k, bool in) {
    mc::op(); calls = 0; auto f = c.find(k); long a = calls;
    if ((f != c.end()) != in) mc::fail("find(%d) is wrong", k);
    calls = 0; (void)static_cast<const typename T::C &>(c).find(k); if (calls > a) a = calls;
    calls = 0; (void)c.find((long)k); if (calls > a) a = calls;
    calls = 0; (void)static_cast<const typename T::C &>(c).find((long)k); if (calls > a) a = calls;
    if (a > 4 * lg(n) + 4) mc::fail("finding a key among %zu takes %ld comparisons", n, a);
  }
};
template <class T> void perms(int n) {
  Meter<T> x; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(2 * i);
  uint64_t h = 0;
  for (int i = 0; i < n; i++) { int j = mc::choose((int)left.size()); x.put(left[j]); h = h * 16 + left[j] / 2; left.erase(left.begin() + j); }
  for (int k = -1; k < 2 * n; k++) x.find(k, k >= 0 && k % 2 == 0);
  for (int k = 0; k < n; k++) x.put(2 * k);
  mc::state(h + n);
}
using S = SetOf<int, Count>; using SD = SetOf<int, CountDesc>; using M = MapOf<int, Count>; using MD = MapOf<int, CountDesc>;
MC_SCENARIO(perms_set, 9, 10, 4, 16) { perms<S>(depth); }
MC_SCENARIO(perms_map, 9, 10, 4, 16) { perms<M>(depth); }
template <class T> void words(int len, int n) {
  std::vector<int> w; uint64_t h = 0;
  for (int i = 0; i < len; i++) { w.push_back(mc::choose(MOVES)); h = h * 7 + w.back() + 1; }
  auto keys = relative_order(w, n); Meter<T> x;
  for (int t = 0; t < n; t++) x.put(2 * keys[t]);
  for (int k = -1; k <= 2 * n; k++) x.find(k, k >= 0 && k % 2 == 0 && k < 2 * n);
  mc::state(h * 4 + 1);
}
MC_SCENARIO(words_set, 4, 5, 8, 16) { words<S>(depth, mc::thorough ? 600 : 250); }
MC_SCENARIO(words_map, 4, 5, 8, 16) { words<M>(depth, mc::thorough ? 600 : 250); }
MC_SCENARIO(words_desc, 3, 4, 4, 16) { words<SD>(depth, 400); }
MC_SCENARIO(words_desc_map, 3, 4, 4, 16) { words<MD>(depth, 400); }
// large: ascending, descending, alternating, bit-reversed, in blocks, multiplicative
template <class T> void large(int n) {
  int w = mc::choose(10); Meter<T> x; std::vector<int> ks(n);
  int bits = 0; while ((1 << bits) < n) bits++;
  for (int i = 0; i < n; i++) {
    int k = i;
    switch (w) {
    case 0: break;
    case 1: k = n - 1 - i; break;
    case 2: k = i & 1 ? n - 1 - i / 2 : i / 2; break;          // from both ends
    case 3: k = i & 1 ? n / 2 + i / 2 : n / 2 - 1 - i / 2; break; // from the middle
    case 4: { int r = 0; for (int b = 0; b < bits; b++) if (i >> b & 1) r |= 1 << (bits - 1 - b); k = r; break; }
    case 5: k = (i % 16) * (n / 16) + i / 16; break;            // sixteen interleaved ascents
    case 6: k = (i % 16) * (n / 16) + (n / 16 - 1 - i / 16); break;
    case 7: k = i / 16 * 16 + (15 - i % 16); break;             // ascending blocks, descending inside
    case 8: k = (n - 16 - i / 16 * 16) + i % 16; break;
    case 9: k = int((long)i * 40503 % n); break;
    }
    ks[i] = k;
  }
  mc::tr("%d keys, order %d", n, w);
  for (int k : ks) x.put(2 * k);
  for (int i = 0; i < n; i++) { x.find(2 * i, true); x.find(2 * i + 1, false); }
  mc::state(100 + w);
}
MC_SCENARIO(large_set, 0, 0, 2, 4) { large<S>(mc::thorough ? 1 << 16 : 1 << 13); }
MC_SCENARIO(large_map, 0, 0, 2, 4) { large<M>(mc::thorough ? 1 << 16 : 1 << 13); }
MC_MAIN
