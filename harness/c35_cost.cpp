// What calls cost: element operations and blocks, per call and over programs
// repeated hundreds of times; and the storage that is held on to.
#include "mc.hpp"
#include <new>
#include <cest/vector.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/string.hpp>
#include <cest/sstream.hpp>
#include <cest/memory.hpp>
#include <cest/functional.hpp>
#include <cest/cstdio.hpp>
#include <cest/swap.hpp>
#include <algorithm>
#include <string>
#include <vector>

#ifdef CEST_VERIF_CHUNK_SIZE
constexpr size_t CHUNK = CEST_VERIF_CHUNK_SIZE;
#else
constexpr size_t CHUNK = 1024;
#endif

// ---- the ledger ----------------------------------------------------------------
static long news, blocks, bytes, got;          // calls of new; live blocks and bytes; bytes ever obtained
static long ev;                                // elements constructed, assigned or destroyed
static long elems;                             // elements alive
constexpr size_t HEAD = 16;
static void *take(size_t n) {
  char *p = (char *)malloc(n + HEAD); if (!p) abort();
  *(size_t *)p = n; memset(p + HEAD, 0xCD, n);
  news++; blocks++; bytes += n; got += n;
  if (bytes > (1l << 30)) mc::fail("allocation without end");
  return p + HEAD;
}
static void give(void *q) { if (!q) return; char *p = (char *)q - HEAD; blocks--; bytes -= *(size_t *)p; free(p); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

struct Cnt {
  int v;
  Cnt(int x = 0) : v(x) { ev++; elems++; }
  Cnt(const Cnt &o) : v(o.v) { ev++; elems++; }
  Cnt(Cnt &&o) noexcept : v(o.v) { ev++; elems++; }
  Cnt &operator=(const Cnt &o) { v = o.v; ev++; return *this; }
  Cnt &operator=(Cnt &&o) noexcept { v = o.v; ev++; return *this; }
  ~Cnt() { ev++; elems--; }
  friend bool operator<(const Cnt &a, const Cnt &b) { return a.v < b.v; }
  friend bool operator==(const Cnt &a, const Cnt &b) { return a.v == b.v; }
};

// One call: what it may cost at most, and what it pays into the account.
struct Run {
  long ev0, news0, peak = 0, credit = 0, work = 0, obtained = 0, got0;
  const char *cont; int k; std::string word; int rep = 0;
  void start() { ev0 = ev; news0 = news; got0 = got; }
  // at most `e` element operations and `a` blocks; it counts as `c` elements' worth of work
  void end(const char *what, long n, long e, long a, long c) {
    long de = ev - ev0, da = news - news0; mc::op();
    if (de > e) mc::fail("%s: %s of %ld elements takes %ld element operations, more than %ld (start %d, round %d of '%s')", cont, what, n, de, e, k, rep, word.c_str());
    if (da > a) mc::fail("%s: %s of %ld elements takes %ld blocks, more than %ld (start %d, round %d of '%s')", cont, what, n, da, a, k, rep, word.c_str());
    credit += c; work += de; obtained += got - got0;
  }
  void account(long per, long fixed) {
    if (work > 12 * credit + 200) mc::fail("%s: %ld element operations for calls worth %ld (start %d, round %d of '%s')", cont, work, credit, k, rep, word.c_str());
    if (obtained > 8 * per * credit + 8 * fixed) mc::fail("%s: blocks of %ld bytes in all for calls worth %ld elements (start %d, round %d of '%s')", cont, obtained, credit, k, rep, word.c_str());
  }
  // what is held, against the most that was ever in
  void held(long base, long most, long per, long fixed) {
    long h = bytes - base, lim = most * per + fixed;
    if (h > lim) mc::fail("%s: %ld bytes are held after %d rounds of '%s' from %d, though there were never more than %ld elements", cont, h, rep + 1, word.c_str(), k, most);
  }
};

template <class C> void read_all(Run &r, const C &c, C &w, long n) {
  r.start(); long s = 0, t = 0;
  for (auto i = c.begin(); i != c.end(); ++i) s++;
  for (auto i = w.begin(); i != w.end(); i++) t++;
  for (const auto &x : c) { s += (long)sizeof(x) * 0; }
  if (s != n || t != n) mc::fail("%s: iteration visits %ld and %ld elements of %ld", r.cont, s, t, n);
  r.end("iterating", n, 0, 0, 0);
}

// ---- each container's calls -----------------------------------------------------
struct Vec {
  using C = cest::vector<Cnt>; static constexpr const char *name = "vector"; static constexpr int ops = 10; static constexpr long per = 8 * sizeof(Cnt) + 8, fixed = 256;
  static constexpr const char *opn = "brpefhcsay"; C c, d; long n = 0, dn = 0;
  long most = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.push_back(Cnt(i)); n = k; most = k; }
  void go(int op, Run &r) {
    long cap = c.capacity(); bool room = n < cap; Cnt x(1);
    switch (op) {
    case 0: r.start(); c.push_back(x); r.end("push_back", n, room ? 4 : 4 * n + 8, room ? 0 : 2, 1); n++; break;
    case 1: r.start(); c.push_back(std::move(x)); r.end("push_back(&&)", n, room ? 4 : 4 * n + 8, room ? 0 : 2, 1); n++; break;
    case 2: if (!n) return; r.start(); c.pop_back(); r.end("pop_back", n, 2, 0, 1); n--; break;
    case 3: if (!n) return; r.start(); c.erase(c.end() - 1, c.end()); r.end("erase of the last", n, 4, 0, 1); n--; break;
    case 4: { if (!n) return; long i = n / 2; r.start(); c.erase(c.begin() + i, c.begin() + i + 1); r.end("erase in the middle", n, 4 * (n - i) + 4, 0, n - i); n--; break; }
    case 5: r.start(); c.resize(n ? n - 1 : 0); r.end("resize by -1", n, 4, 0, 1); if (n) n--; break;
    case 6: r.start(); c.clear(); r.end("clear", n, n, 0, n); n = 0; break;
    case 7: r.start(); c.swap(d); r.end("swap", n, 0, 0, 0); std::swap(n, dn); break;
    case 8: { long dc = d.capacity(); r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 4 * (n + dn) + 4, dc >= cap ? 0 : 2, n + dn); dn = n; break; }
    case 9: { r.start(); C t(std::move(c)); c = std::move(t); r.end("moving out and back", n, 0, 0, 0); break; }
    }
  }
  void peek(Run &r) {
    const C &k = c; read_all(r, k, c, n); r.start();
    if ((long)k.size() != n || k.empty() != (n == 0)) mc::fail("vector: size");
    if (n) { (void)k.front(); (void)k.back(); (void)c.front(); (void)c.back(); (void)k[0]; (void)c.at(0); (void)k.at(0); (void)k.data(); }
    r.end("reading", n, 0, 0, 0);
  }
};
template <class D> struct DeqT {
  using C = D; static constexpr const char *name = "deque"; static constexpr int ops = 8; static constexpr long per = 6 * (sizeof(Cnt) + 8) + 16, fixed = 6 * CHUNK * sizeof(Cnt) + 512;
  static constexpr const char *opn = "bfBFpqca"; C c, d; long n = 0, dn = 0, most = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.push_back(Cnt(i)); n = k; most = k; }
  void go(int op, Run &r) {
    Cnt x(1);
    switch (op) {
    case 0: r.start(); c.push_back(x); r.end("push_back", n, 6, 3, 1); n++; break;
    case 1: r.start(); c.push_front(x); r.end("push_front", n, 6, 3, 1); n++; break;
    case 2: r.start(); c.push_back(std::move(x)); r.end("push_back(&&)", n, 6, 3, 1); n++; break;
    case 3: r.start(); c.push_front(std::move(x)); r.end("push_front(&&)", n, 6, 3, 1); n++; break;
    case 4: if (!n) return; r.start(); c.pop_back(); r.end("pop_back", n, 2, 0, 1); n--; break;
    case 5: if (!n) return; r.start(); c.pop_front(); r.end("pop_front", n, 2, 0, 1); n--; break;
    case 6: r.start(); c.clear(); r.end("clear", n, n, 0, n); n = 0; break;
    case 7: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 4 * (n + dn) + 4, 2 * (n / CHUNK) + 12, n + dn); dn = n; break;
    }
  }
  void peek(Run &r) {
    const C &k = c; read_all(r, k, c, n); r.start();
    if ((long)k.size() != n || k.empty() != (n == 0)) mc::fail("deque: size");
    if (n) { (void)k.front(); (void)k.back(); (void)c.front(); (void)c.back(); (void)k[0]; (void)c[n - 1]; (void)*(k.begin() + (n - 1)); (void)*(c.end() - 1); }
    r.end("reading", n, 0, 0, 0);
  }
};
using Deq = DeqT<cest::deque<Cnt>>;
template <class Q> struct QueT {
  using C = Q; static constexpr const char *name = "queue"; static constexpr int ops = 4; static constexpr long per = 6 * (sizeof(Cnt) + 24) + 16, fixed = 6 * CHUNK * sizeof(Cnt) + 512;
  static constexpr const char *opn = "puqa"; C c, d; long n = 0, dn = 0, most = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.push(Cnt(i)); n = k; most = k; }
  void go(int op, Run &r) {
    Cnt x(1);
    switch (op) {
    case 0: r.start(); c.push(x); r.end("push", n, 6, 3, 1); n++; break;
    case 1: r.start(); c.push(std::move(x)); r.end("push(&&)", n, 6, 3, 1); n++; break;
    case 2: if (!n) return; r.start(); c.pop(); r.end("pop", n, 2, 0, 1); n--; break;
    case 3: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 4 * (n + dn) + 4, 2 * n + 12, n + dn); dn = n; break;
    }
  }
  void peek(Run &r) {
    const C &k = c; r.start();
    if ((long)k.size() != n || k.empty() != (n == 0)) mc::fail("queue: size");
    if (n) { (void)k.front(); (void)k.back(); (void)c.front(); (void)c.back(); }
    r.end("reading", n, 0, 0, 0);
  }
};
struct Lst {
  using C = cest::list<Cnt>; static constexpr const char *name = "list"; static constexpr int ops = 11; static constexpr long per = 2 * (sizeof(Cnt) + 28), fixed = 256;
  static constexpr const char *opn = "bfimpqecanx"; C c, d; long n = 0, dn = 0, most = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.push_back(Cnt(i)); n = k; most = k; }
  typename C::iterator mid() { auto i = c.begin(); for (long j = 0; j < n / 2; j++) ++i; return i; }
  void go(int op, Run &r) {
    Cnt x(1);
    switch (op) {
    case 0: r.start(); c.push_back(x); r.end("push_back", n, 6, 1, 1); n++; break;
    case 1: r.start(); c.push_front(std::move(x)); r.end("push_front", n, 6, 1, 1); n++; break;
    case 2: { auto i = mid(); r.start(); c.insert(i, x); r.end("insert", n, 6, 1, 1); n++; break; }
    case 3: { auto i = mid(); r.start(); c.emplace(i, 7); r.end("emplace", n, 6, 1, 1); n++; break; }
    case 4: if (!n) return; r.start(); c.pop_back(); r.end("pop_back", n, 1, 0, 1); n--; break;
    case 5: if (!n) return; r.start(); c.pop_front(); r.end("pop_front", n, 1, 0, 1); n--; break;
    case 6: { if (!n) return; auto i = mid(); r.start(); c.erase(i); r.end("erase", n, 1, 0, 1); n--; break; }
    case 7: r.start(); c.clear(); r.end("clear", n, n, 0, n); n = 0; break;
    case 8: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 4 * (n + dn) + 4, n + 1, n + dn); dn = n; break;
    case 9: r.start(); c.emplace_back(1); r.end("emplace_back", n, 6, 1, 1); n++; break;
    case 10: r.start(); c.emplace_front(1); r.end("emplace_front", n, 6, 1, 1); n++; break;
    }
  }
  void peek(Run &r) {
    const C &k = c; read_all(r, k, c, n); r.start();
    if ((long)k.size() != n || k.empty() != (n == 0)) mc::fail("list: size");
    if (n) { (void)k.front(); (void)k.back(); (void)c.front(); (void)c.back(); }
    r.end("reading", n, 0, 0, 0);
  }
};
struct Fwd {
  using C = cest::forward_list<Cnt>; static constexpr const char *name = "forward_list"; static constexpr int ops = 9; static constexpr long per = 2 * (sizeof(Cnt) + 20), fixed = 256;
  static constexpr const char *opn = "fgiepcsar"; C c, d; long n = 0, dn = 0, most = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.push_front(Cnt(i)); n = k; most = k; }
  typename C::iterator mid() { auto i = c.before_begin(); for (long j = 0; j < n / 2; j++) ++i; return i; }
  void go(int op, Run &r) {
    Cnt x(1);
    switch (op) {
    case 0: r.start(); c.push_front(x); r.end("push_front", n, 6, 1, 1); n++; break;
    case 1: r.start(); c.push_front(std::move(x)); r.end("push_front(&&)", n, 6, 1, 1); n++; break;
    case 2: { auto i = mid(); r.start(); c.insert_after(i, x); r.end("insert_after", n, 6, 1, 1); n++; break; }
    case 3: { if (!n) return; auto i = mid(); r.start(); c.erase_after(i); r.end("erase_after", n, 1, 0, 1); n--; break; }
    case 4: if (!n) return; r.start(); c.pop_front(); r.end("pop_front", n, 1, 0, 1); n--; break;
    case 5: r.start(); c.clear(); r.end("clear", n, n, 0, n); n = 0; break;
    case 6: r.start(); c.swap(d); r.end("swap", n, 0, 0, 0); std::swap(n, dn); break;
    case 7: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 4 * (n + dn) + 4, n + 1, n + dn); dn = n; break;
    case 8: { auto i = mid(); r.start(); c.erase_after(i, c.end()); r.end("erase_after to the end", n, n - n / 2, 0, n - n / 2 + 1); n = n / 2; break; }
    }
  }
  void peek(Run &r) {
    const C &k = c; read_all(r, k, c, n); r.start();
    if (k.empty() != (n == 0)) mc::fail("forward_list: empty");
    if (n) { (void)k.front(); (void)c.front(); }
    r.end("reading", n, 0, 0, 0);
  }
};
inline long logs(long n) { long l = 1; while (n) { l++; n >>= 1; } return l; }
struct Set {
  using C = cest::set<Cnt>; static constexpr const char *name = "set"; static constexpr int ops = 7; static constexpr long per = 2 * (sizeof(Cnt) + 44), fixed = 256;
  static constexpr const char *opn = "uldmhca"; C c, d; long n = 0, dn = 0, most = 0; int hi = 0, lo = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.insert(Cnt(i)); n = k; most = k; hi = k; }
  void go(int op, Run &r) {
    switch (op) {
    case 0: { Cnt x(hi++); r.start(); c.insert(x); r.end("insert", n, 8, 1, 1); n++; break; }
    case 1: { Cnt x(--lo); r.start(); c.insert(x); r.end("insert", n, 8, 1, 1); n++; break; }
    case 2: { if (!n) return; Cnt x(c.begin()->v); r.start(); c.insert(x); r.end("insert of a present key", n, 8, 1, 1); break; }
    case 3: { if (!n) return; Cnt x((lo + hi) / 2); r.start(); (void)c.find(x); (void)static_cast<const C &>(c).find(x); r.end("find", n, 0, 0, 0); break; }
    case 4: { Cnt x(hi++); r.start(); c.insert(c.cend(), x); r.end("insert with a hint", n, 8, 1, 1); n++; break; }
    case 5: r.start(); c.clear(); r.end("clear", n, n, 0, n); n = 0; break;
    case 6: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 8 * (n + dn) + 4, n + 1, n + dn); dn = n; break;
    }
  }
  void peek(Run &r) { read_all(r, c, c, n); r.start(); if ((long)c.size() != n || c.empty() != (n == 0)) mc::fail("set: size"); r.end("reading", n, 0, 0, 0); }
};
struct Map {
  using C = cest::map<Cnt, Cnt>; static constexpr const char *name = "map"; static constexpr int ops = 6; static constexpr long per = 2 * (2 * sizeof(Cnt) + 44), fixed = 256;
  static constexpr const char *opn = "uldmca"; C c, d; long n = 0, dn = 0, most = 0; int hi = 0, lo = 0;
  void fill(int k) { for (int i = 0; i < k; i++) c.insert(std::pair<const Cnt, Cnt>(i, i)); n = k; most = k; hi = k; }
  void go(int op, Run &r) {
    switch (op) {
    case 0: { std::pair<const Cnt, Cnt> x(hi++, 1); r.start(); c.insert(x); r.end("insert", n, 16, 1, 1); n++; break; }
    case 1: { std::pair<const Cnt, Cnt> x(--lo, 1); r.start(); c.insert(x); r.end("insert", n, 16, 1, 1); n++; break; }
    case 2: { if (!n) return; std::pair<const Cnt, Cnt> x(c.cbegin()->first.v, 1); r.start(); c.insert(x); r.end("insert of a present key", n, 16, 1, 1); break; }
    case 3: { if (!n) return; Cnt x((lo + hi) / 2); r.start(); (void)c.find(x); (void)static_cast<const C &>(c).find(x); r.end("find", n, 0, 0, 0); break; }
    case 4: r.start(); c.clear(); r.end("clear", n, 2 * n, 0, 2 * n); n = 0; break;
    case 5: r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 16 * (n + dn) + 4, n + 1, 2 * (n + dn)); dn = n; break;
    }
  }
  void peek(Run &r) { read_all(r, c, c, n); r.start(); if ((long)c.size() != n || c.empty() != (n == 0)) mc::fail("map: size"); r.end("reading", n, 0, 0, 0); }
};

// ---- a short program, repeated ---------------------------------------------------
// Every word over the calls, from every starting size, over and over: what a call
// costs must not depend on how long ago the object was made, nor what it holds on to.
template <class A> void program(int maxlen, const std::vector<int> &starts, int target) {
  Run r; r.cont = A::name; r.k = starts[mc::choose((int)starts.size())];
  int len = mc::choose_in(1, maxlen); int w[8];
  for (int i = 0; i < len; i++) { w[i] = mc::choose(A::ops); r.word += A::opn[w[i]]; }
  mc::tr("from %d elements, '%s' repeated", r.k, r.word.c_str());
  long base = bytes, elems0 = elems;
  {
    A a; a.fill(r.k);
    long most = std::max(a.most, 1l);
    for (r.rep = 0; r.rep * len < target && a.n + a.dn < 900; r.rep++) {
      for (int i = 0; i < len; i++) {
        a.go(w[i], r);
        most = std::max(most, std::max(a.n, a.dn));
      }
      if constexpr (!requires { A::plain; }) {
      if (elems - elems0 > 2 * (a.n + a.dn)) mc::fail("%s: %ld elements are alive, not %ld", r.cont, elems - elems0, a.n + a.dn);
      if (elems - elems0 < a.n + a.dn) mc::fail("%s: %ld elements are alive, not %ld", r.cont, elems - elems0, a.n + a.dn);
      }
      r.account(A::per, A::fixed);
      r.held(base, 2 * most, A::per, A::fixed);
      if (r.rep < 3) a.peek(r);
    }
    a.peek(r);
    mc::state(mc::hash_str(r.word.c_str()) * 31 + r.k + mc::hash_str(A::name));
  }
  if (elems != elems0) mc::fail("%s: %ld elements outlive it", r.cont, elems - elems0);
}
#ifndef CEST_VERIF_CHUNK_SIZE
// ---- strings ---------------------------------------------------------------------
struct Str {
  using C = cest::string; static constexpr const char *name = "string"; static constexpr int ops = 12; static constexpr long per = 4, fixed = 1600;
  static constexpr bool plain = true; static constexpr const char *opn = "b+pcAlsaQvrR"; C c, d; long n = 0, dn = 0, most = 0; C lng = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";
  void fill(int k) { for (int i = 0; i < k; i++) c.push_back('x'); n = k; most = k; }
  void go(int op, Run &r) {
    bool room = n + 1 <= (long)c.capacity();
    switch (op) {
    case 0: r.start(); c.push_back('a'); r.end("push_back", n, 0, room ? 0 : 1, 1); n++; break;
    case 1: r.start(); c += 'b'; r.end("+=", n, 0, room ? 0 : 1, 1); n++; break;
    case 2: if (!n) return; r.start(); c.pop_back(); r.end("pop_back", n, 0, 0, 1); n--; break;
    case 3: r.start(); c.clear(); r.end("clear", n, 0, 0, 1); n = 0; break;
    case 4: r.start(); c.append("cde", 3); r.end("append", n, 0, 1, n + 3); n += 3; break;
    case 5: r.start(); c = lng; r.end("assignment of a long text", n, 0, 1, 100); n = 100; break;
    case 6: r.start(); c = "short"; r.end("assignment of a short text", n, 0, 1, 5); n = 5; break;
    case 7: { bool fits = (long)d.capacity() >= n + 1; r.start(); d = static_cast<const C &>(c); r.end("copy assignment", n, 0, fits ? 0 : 1, n + 1); dn = n; break; }
    case 8: r.start(); c.assign("qrst", 2); r.end("assign", n, 0, 1, 2); n = 2; break;
    case 9: { r.start(); C t(c); c = t; r.end("copying out and back", n, 0, 2, 2 * n + 2); break; }
    case 10: r.start(); c.reserve(n); r.end("reserve of the size", n, 0, 0, 1); break;
    case 11: r.start(); c.reserve(c.capacity()); r.end("reserve of the capacity", n, 0, 0, 1); break;
    }
  }
  void peek(Run &r) {
    const C &k = c; r.start();
    if ((long)k.size() != n || (long)k.length() != n || k.empty() != (n == 0)) mc::fail("string: size");
    long s = 0; for (char x : k) s += x != 0; for (char x : c) s += x != 0;
    if (s != 2 * n) mc::fail("string: iteration");
    (void)k.c_str(); (void)k.data(); (void)k.find('z'); (void)k.find("zz"); (void)k.find(d); (void)k.compare(d); (void)k.compare("abc"); (void)(k == d); (void)(k < d); (void)(k == "abc");
    if (n) { (void)k.front(); (void)k.back(); (void)k[0]; }
    r.end("reading", n, 0, 0, 0);
  }
};
MC_SCENARIO(strings, 0, 0, 8, 8) { program<Str>(mc::thorough ? 5 : 4, {0, 1, 2, 7, 40, 300}, 300); }

// what fits in the capacity takes no block, up to the last character
MC_SCENARIO(text_fits, 0, 0, 1, 2) {
  using S = cest::string; Run r; r.cont = "string"; int k = mc::choose_in(0, mc::thorough ? 70 : 40), way = mc::choose(4), form = mc::choose(4), n = mc::choose_in(0, 6); static const char z[161] = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";
  S c; if (way == 0) c.reserve(k); else if (way == 1) { S t(z, k); c = t; } else if (way == 2) { c.append(z, k); c.clear(); } else for (int i = 0; i < k; i++) c.push_back(z[i]);
  long room = (long)c.capacity() - (long)c.size(); if (room > 150) return; int m = (int)room - n; if (m < 0) return; S t(z, m), u(z, n); mc::op(); mc::tr("%zu characters, capacity %zu, append %d and %d", (size_t)c.size(), (size_t)c.capacity(), m, n); mc::state((k * 4 + way) * 28 + form * 7 + n);
  auto add = [&](const S &x, int len) { r.start(); switch (form) { case 0: c.append(z, len); break; case 1: c.append(x); break; case 2: c += x; break; case 3: for (int i = 0; i < len; i++) c.push_back(z[i]); } r.end("appending within the capacity", (long)c.size(), 0, 0, len + 1); };
  add(t, m); add(u, n);
}
// appending to long strings, from every way to make one
template <class CH> void text_growth(int N) {
  using S = cest::basic_string<CH>; Run r; r.cont = "string"; int way = mc::choose(5), k = mc::choose_in(0, 40), how = mc::choose(2); S c; CH z[64] = {}; for (int i = 0; i < k; i++) z[i] = CH('a');
  mc::tr("start %d of %d characters, then %d more", way, k, N);
  switch (way) { case 0: c.reserve(k); break; case 1: { S t(z); c = t; break; } case 2: c.append(z, k); c.clear(); break; case 3: c = z; break; case 4: for (int i = 0; i < k; i++) c.push_back(z[i]); break; }
  long n0 = news; double lim = 8; for (int t = N; t; t >>= 1) lim += 4;
  for (int i = 0; i < N; i++) {
    mc::op(); long n1 = news; bool room = c.size() < c.capacity(); if (how) c += CH('b'); else c.push_back(CH('c'));
    if (room && news != n1) mc::fail("string: appending within the capacity %zu takes a block", (size_t)c.capacity());
    if (news - n0 > lim) mc::fail("string: appending %d characters takes %ld blocks (start %d of %d)", i + 1, news - n0, way, k);
  }
  if (c.capacity() > 8 * (c.size() + 16)) mc::fail("string: %zu characters in a capacity of %zu", (size_t)c.size(), (size_t)c.capacity());
  mc::state(way * 100 + k * 2 + how);
}
MC_SCENARIO(text, 0, 0, 2, 4) { text_growth<char>(mc::thorough ? 1 << 21 : 1 << 17); }
MC_SCENARIO(wide_text, 0, 0, 1, 4) { text_growth<char32_t>(mc::thorough ? 1 << 18 : 1 << 14); }

// ---- streams: what they hold depends on their present text only ----------------------
static void words(int maxlen, int ops, const char *names, Run &r, int *w, int &len) {
  len = mc::choose_in(1, maxlen);
  for (int i = 0; i < len; i++) { w[i] = mc::choose(ops); r.word += names[w[i]]; }
  mc::tr("'%s' repeated", r.word.c_str());
}
MC_SCENARIO(streams, 0, 0, 4, 8) {
  Run r; r.cont = "stringstream"; r.k = 0; int w[8], len; words(mc::thorough ? 6 : 5, 8, "slicegrw", r, w, len);
  long base = bytes;
  {
    cest::stringstream ss; char buf[200]; std::string text = "12 ab "; for (int i = 0; i < 90; i++) text += 'y';
    for (r.rep = 0; r.rep < 100; r.rep++) {
      for (int i = 0; i < len; i++) { mc::op(); switch (w[i]) {
      case 0: ss.str("7 x "); break;
      case 1: ss.str(text.c_str()); break;
      case 2: ss.unget(); break;
      case 3: ss.clear(); break;
      case 4: ss.read(buf, 150); break;
      case 5: { char x; ss.get(x); break; }
      case 6: ss.read(buf, 5); break;
      case 7: { cest::string x = ss.str(); break; }
      } }
      r.held(base, 100, 8, 1600);
    }
  }
  if (bytes != base) mc::fail("stringstream: %ld bytes outlive it", bytes - base);
  mc::state(mc::hash_str(r.word.c_str()));
}
MC_SCENARIO(files, 0, 0, 1, 1) {
  Run r; r.cont = "fmemopen"; r.k = mc::choose_in(0, 40); int step = mc::choose_in(1, 9), rounds = mc::choose_in(1, 12);
  long base = bytes; char text[64], buf[64]; memset(text, 'q', sizeof text); cest::FILE *keep[3] = {};
  for (r.rep = 0; r.rep < 200; r.rep++) {
    cest::FILE *f = cest::fmemopen(text, r.k + 1, "r"); mc::op();
    long used = bytes - base;
    for (int i = 0; i < rounds; i++) (void)cest::fread(buf, 1, step, f);
    if (bytes - base > used) mc::fail("reading from an in-memory file takes %ld bytes", bytes - base - used);
    cest::fclose(f); (void)keep;
    r.held(base, 0, 0, 0);
  }
  mc::state(r.k * 1000 + step * 20 + rounds);
}

// ---- owners and functions ------------------------------------------------------------
struct Big { Cnt c; char pad[100]; Big() { memset(pad, 1, sizeof pad); } };
MC_SCENARIO(owners, 0, 0, 4, 8) {
  Run r; r.cont = "smart pointers"; r.k = 0; int w[8], len; words(mc::thorough ? 6 : 5, 10, "nmcsrqux=*", r, w, len);
  long base = bytes, e0 = elems; uint64_t h;
  {
    cest::shared_ptr<Big> p, q; cest::unique_ptr<Big> u, v;
    for (r.rep = 0; r.rep < 60; r.rep++) {
      for (int i = 0; i < len; i++) switch (w[i]) {
      case 0: r.start(); p = cest::shared_ptr<Big>(new Big); r.end("making a shared_ptr", 1, 4, 3, 1); break;
      case 1: r.start(); q = cest::shared_ptr<Big>(new Big); r.end("making a shared_ptr", 1, 4, 3, 1); break;
      case 2: r.start(); q = static_cast<const cest::shared_ptr<Big> &>(p); r.end("copying a shared_ptr", 1, 1, 0, 1); break;
      case 3: r.start(); { cest::shared_ptr<Big> t(p); p = q; q = t; } r.end("exchanging shared_ptrs", 1, 0, 0, 1); break;
      case 4: r.start(); p = cest::shared_ptr<Big>(); r.end("letting go", 1, 1, 0, 1); break;
      case 5: r.start(); { cest::shared_ptr<Big> t[4] = {p, q, p, q}; if (t[0].use_count() < 0 || t[1].get() != q.get()) mc::fail("a copy of a shared_ptr is wrong"); } r.end("copies", 1, 0, 0, 1); break;
      case 6: r.start(); u = cest::make_unique<Big>(); r.end("make_unique", 1, 4, 1, 1); break;
      case 7: r.start(); v = std::move(u); r.end("moving a unique_ptr", 1, 1, 0, 1); break;
      case 8: r.start(); u.reset(v.release()); r.end("reset and release", 1, 1, 0, 1); break;
      case 9: r.start(); (void)p.get(); (void)bool(q); (void)p.use_count(); (void)u.get(); (void)(p == q); (void)(u == v); r.end("looking", 1, 0, 0, 0); break;
      }
      r.held(base, 4, sizeof(Big) + 100, 64);
      if (elems - e0 > 4) mc::fail("smart pointers: %ld objects are alive for 4 pointers", elems - e0);
    }
    h = mc::hash_str(r.word.c_str()) + ((bool)p * 8 + (bool)q * 4 + (bool)u * 2 + (bool)v);
  }
  if (bytes != base) mc::fail("smart pointers: %ld bytes outlive them", bytes - base);
  mc::state(h);
}
MC_SCENARIO(functions, 0, 0, 4, 8) {
  Run r; r.cont = "function"; r.k = 0; int w[8], len; words(mc::thorough ? 6 : 5, 9, "nmcxabCDs", r, w, len);
  long base = bytes, e0 = elems; uint64_t h;
  {
    using F = cest::function<int(int)>; auto mk = [](int k) { Cnt c(k); return F([c](int x) { return x + c.v; }); };
    F f = mk(1), g = mk(2); bool fs = true, gs = true; Cnt own(5); cest::function<int(const Cnt &)> byref([](const Cnt &c) { return c.v; }); cest::function<void(Cnt &)> bylref([](Cnt &c) { c.v++; });
    for (r.rep = 0; r.rep < 60; r.rep++) {
      for (int i = 0; i < len; i++) switch (w[i]) {
      case 0: r.start(); f = mk(3); fs = true; r.end("making a function", 1, 24, 3, 1); break;
      case 1: r.start(); g = mk(4); gs = true; r.end("making a function", 1, 24, 3, 1); break;
      case 2: r.start(); g = static_cast<const F &>(f); gs = fs; r.end("copying a function", 1, 8, 2, 1); break;
      case 3: r.start(); f = std::move(g); fs = gs; gs = false; r.end("moving a function", 1, 2, 0, 1); break;
      case 4: if (fs) { r.start(); (void)f(1); r.end("a call", 1, 0, 0, 0); } break;
      case 5: if (gs) { r.start(); (void)g(1); r.end("a call", 1, 0, 0, 0); } break;
      case 6: r.start(); if (byref(own) != own.v) mc::fail("a call by reference"); r.end("a call by reference", 1, 0, 0, 0); break;
      case 7: r.start(); bylref(own); r.end("a call by reference", 1, 0, 0, 0); break;
      case 8: { r.start(); F t(f); F s(std::move(t)); r.end("a copy, moved", 1, 12, 2, 1); break; }
      }
      r.held(base, 4, 100, 200);
    }
    h = mc::hash_str(r.word.c_str()) + (fs * 2 + gs);
  }
  if (bytes != base || elems != e0) mc::fail("function: %ld bytes and %ld targets outlive them", bytes - base, elems - e0);
  mc::state(h);
}

MC_SCENARIO(vectors, 0, 0, 8, 8) { program<Vec>(mc::thorough ? 5 : 4, {0, 1, 2, 8, 40, 300}, 300); }
MC_SCENARIO(lists, 0, 0, 8, 8) { program<Lst>(mc::thorough ? 4 : 3, {0, 1, 2, 40, 300}, 200); }
MC_SCENARIO(forward_lists, 0, 0, 8, 8) { program<Fwd>(mc::thorough ? 4 : 3, {0, 1, 2, 40, 300}, 200); }
MC_SCENARIO(sets, 0, 0, 8, 8) { program<Set>(mc::thorough ? 4 : 3, {0, 1, 2, 40, 300}, 200); }
MC_SCENARIO(maps, 0, 0, 8, 8) { program<Map>(mc::thorough ? 5 : 4, {0, 1, 2, 40, 300}, 200); }
MC_SCENARIO(list_queues, 0, 0, 2, 8) { program<QueT<cest::queue<Cnt, cest::list<Cnt>>>>(mc::thorough ? 6 : 4, {0, 1, 2, 40, 300}, 300); }
MC_SCENARIO(deques_far, 0, 0, 8, 8) { program<Deq>(mc::thorough ? 4 : 3, {0, 1, 2, 511, 512, 513}, 40 * 1024); }
MC_SCENARIO(queues_far, 0, 0, 8, 8) { program<QueT<cest::queue<Cnt>>>(mc::thorough ? 6 : 4, {0, 1, 511, 512, 513}, 40 * 1024); }
#else
MC_SCENARIO(deques, 0, 0, 8, 8) { program<Deq>(mc::thorough ? 5 : 4, {0, 1, 2, 3, 4, 5, 41, 300}, 2400); }
MC_SCENARIO(queues, 0, 0, 2, 8) { program<QueT<cest::queue<Cnt>>>(mc::thorough ? 6 : 5, {0, 1, 2, 3, 4, 5, 41, 300}, 2400); }
#endif
MC_MAIN
