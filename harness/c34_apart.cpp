// Different objects never interfere, and reading is not writing.
//
// Two threads run histories over objects of their own, or const operations on
// shared objects, with no synchronisation between them. Every interleaving of
// two such histories is equivalent to this one as long as no access of one
// conflicts with one of the other, so the happens-before monitor (TSan) on a
// single execution decides all their interleavings; the explorer enumerates
// the histories. (c34_switch.cpp enumerates interleavings proper.)
#include "mc.hpp"
#include <cest/algorithm.hpp>
#include <cest/cctype.hpp>
#include <cest/cmath.hpp>
#include <cest/complex.hpp>
#include <cest/cstdio.hpp>
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/functional.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/numeric.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/sstream.hpp>
#include <cest/string.hpp>
#include <cest/swap.hpp>
#include <cest/vector.hpp>
#include <atomic>
#include <functional>
#include <sys/syscall.h>
#include <thread>

static const char *now[2] = {"", ""};
#define RAW __attribute__((disable_sanitizer_instrumentation)) // the monitor holds locks there
static char raw[1024]; static int rawn;
RAW static void put(const char *t) { while (*t && rawn < 900) raw[rawn++] = *t++; }
extern "C" RAW void __tsan_on_report(void *) {
  put("MC-FAIL two threads using different objects, or only reading one, access the same memory: "); put(now[0]); put("; "); put(now[1]); put("\n");
  syscall(SYS_write, 2, raw, rawn); for (int i = 8; i + 1 < rawn; i++) mc::S->msg[i - 8] = raw[i];
  syscall(SYS_exit_group, 2);
}
// ---- two threads -------------------------------------------------------------
static std::atomic<int> go{0}, done{0}; static std::function<void()> job;
static void other() { for (int n = 1;; n++) { int v; while ((v = go.load()) < n) go.wait(v); job(); done.store(n); done.notify_one(); } }
static void both(std::function<void()> f, std::function<void()> g) {
  static int n = 0; if (!n) std::thread(other).detach();
  n++; job = std::move(g); go.store(n); go.notify_one(); f();
  int v; while ((v = done.load()) < n) done.wait(v);
}
// ---- what a thread does to objects of its own: a checksum of all it sees -----
struct E {                               // an element with a block of its own and no global state
  int *p; E(int v = 0) : p(new int(v)) {} E(const E &o) : p(new int(*o.p)) {} E(E &&o) noexcept : p(o.p) { o.p = nullptr; }
  E &operator=(const E &o) { if (this != &o) { int *q = new int(*o.p); delete p; p = q; } return *this; } E &operator=(E &&o) noexcept { std::swap(p, o.p); return *this; } ~E() { delete p; }
  friend bool operator==(const E &a, const E &b) { return *a.p == *b.p; } friend bool operator<(const E &a, const E &b) { return *a.p < *b.p; }
};
static long n(int x) { return x; } static long n(char x) { return x; } static long n(const E &e) { return *e.p; } template <class A, class B> long n(const std::pair<A, B> &p) { return n(p.first) * 7 + n(p.second); }
struct Sum { unsigned long v = 17; void operator()(long x) { v = v * 1000003 + (unsigned long)x; } };
template <class C> void all(Sum &s, const C &c) { long k = 0; for (auto i = c.begin(); !(i == c.end()); ++i, ++k) s(n(*i)); s(k); }
template <class T> struct Seq {          // vector, deque, list, forward_list, string: by what they have
  using V = typename T::value_type; T c, d;
  static constexpr int ops = 14; static const char *name(int o) { static const char *const N[] = {"push_back", "push_front", "pop_back", "pop_front", "clear", "copy construction", "copy assignment", "insert", "erase", "reserve or resize", "read", "algorithms", "swap or move", "compare"}; return N[o]; }
  Seq() { for (int i = 1; i <= 3; i++) add(V(i)); }
  template <class X> void add(X &&x) { if constexpr (requires { c.push_back(x); }) c.push_back(std::forward<X>(x)); else c.push_front(std::forward<X>(x)); }
  void step(int o, Sum &s) {
    switch (o) {
    case 0: add(V(4)); break;
    case 1: if constexpr (requires { c.push_front(V(1)); }) { V x(5); c.push_front(x); } break;
    case 2: if (!(c.begin() == c.end())) { if constexpr (requires { c.pop_back(); }) c.pop_back(); } break;
    case 3: if (!(c.begin() == c.end())) { if constexpr (requires { c.pop_front(); }) c.pop_front(); } break;
    case 4: c.clear(); break;
    case 5: { T t(c); all(s, t); break; }
    case 6: d = c; break;
    case 7: if constexpr (requires { c.insert(c.begin(), V(1)); }) { V x(6); c.insert(c.begin(), x); c.emplace_back(7); } else if constexpr (requires { c.insert_after(c.before_begin(), V(1)); }) c.insert_after(c.before_begin(), V(6)); else if constexpr (requires { c.append("x", 1); }) { c.append("ab", 2); c += 'c'; c = "own"; c.assign("wn", 1); } break;
    case 8: if (!(c.begin() == c.end())) { if constexpr (requires { c.erase(c.begin(), c.end()); }) c.erase(c.begin(), c.begin() + 1); else if constexpr (requires { c.erase(c.begin()); }) c.erase(c.begin()); else if constexpr (requires { c.erase_after(c.before_begin()); }) c.erase_after(c.before_begin()); } break;
    case 9: if constexpr (requires { c.reserve(1); }) c.reserve(c.capacity() * 2); if constexpr (requires { c.resize(1); }) c.resize(c.size() + 1); break;
    case 10: if (!(c.begin() == c.end())) { s(n(c.front())); *c.begin() = V(8); if constexpr (requires { c.back(); }) s(n(c.back())); if constexpr (requires { c[0]; c.size(); }) s(n(c[c.size() - 1])); if constexpr (requires { c.at(0); }) { s(n(c.at(0))); try { c.at(99); } catch (std::out_of_range &) { s(1); } } if constexpr (requires { c.c_str(); }) { s((long)c.find(c[0])); s((long)c.find("8")); s(c.compare("abc")); s(c.c_str()[c.size()]); } } break;
    case 11: s(cest::count(c.begin(), c.end(), V(4))); if constexpr (requires { c.end() - c.begin(); }) cest::sort(c.begin(), c.end()); break;
    case 12: if constexpr (requires { c.swap(d); }) c.swap(d); else { T t(std::move(c)); c = std::move(t); } break;
    case 13: if constexpr (requires { c == d; }) s(c == d); else s(cest::equal(c.begin(), c.end(), d.begin(), d.end())); break;
    }
    all(s, c); all(s, d);
  }
};
template <class T> struct Tree {
  T c, d; static auto mk(int k) { if constexpr (requires { c.begin()->second; }) return typename T::value_type(k, k * 3); else return typename T::value_type(k); }
  static constexpr int ops = 8; static const char *name(int o) { static const char *const N[] = {"insert", "insert again", "find", "copy construction", "copy assignment", "clear", "step back", "insert in order"}; return N[o]; }
  Tree() { for (int i : {4, 2, 6}) c.insert(mk(i)); }
  void step(int o, Sum &s) {
    switch (o) {
    case 0: s(c.insert(mk(1)).second); break; case 1: s(c.insert(mk(4)).second); c.insert(mk(5)); break;
    case 2: { s(c.find(2) == c.end()); s(c.find(3) == c.end()); const T &k = c; s(k.find(6) == k.end()); break; }
    case 3: { T t(c); all(s, t); break; } case 4: d = c; break; case 5: c.clear(); break;
    case 6: { auto i = c.end(); long k = 0; while (!(i == c.begin())) { --i; s(n(*i)); k++; } s(k); break; }
    case 7: for (int i = 10; i < 15; i++) c.insert(mk(i)); break;
    }
    all(s, c); all(s, d); s((long)c.size());
  }
};
template <class C> struct Que {
  cest::queue<E, C> q; static constexpr int ops = 4; static const char *name(int o) { static const char *const N[] = {"push", "pop", "copy", "read"}; return N[o]; }
  Que() { q.push(E(1)); q.push(E(2)); }
  void step(int o, Sum &s) { switch (o) { case 0: { E e(3); q.push(e); break; } case 1: if (!q.empty()) q.pop(); break; case 2: { auto t = q; while (!t.empty()) { s(n(t.front())); t.pop(); } break; } case 3: if (!q.empty()) { s(n(q.front())); s(n(q.back())); } break; } s((long)q.size()); }
};
struct Own {
  cest::unique_ptr<E> a, b; cest::shared_ptr<E> x, y; static constexpr int ops = 9; static const char *name(int o) { static const char *const N[] = {"make_unique", "unique_ptr move", "reset", "release", "new shared_ptr", "shared_ptr copy", "shared_ptr reset", "alias and deleter", "compare"}; return N[o]; }
  Own() : a(new E(1)), x(new E(2)) {}
  void step(int o, Sum &s) {
    switch (o) {
    case 0: a = cest::make_unique<E>(3); break; case 1: b = std::move(a); break; case 2: a.reset(new E(4)); b.reset(); break; case 3: { E *e = a.release(); delete e; break; }
    case 4: x = cest::shared_ptr<E>(new E(5)); break; case 5: y = x; break; case 6: x = cest::shared_ptr<E>(); break;
    case 7: { if (x) { cest::shared_ptr<E> k(x, x.get()); s(n(*k)); s(k.use_count()); } int gone = 0; { cest::shared_ptr<E> z(new E(6), [&gone](E *e) { gone++; delete e; }); s(n(*z)); } s(gone); break; }
    case 8: s(a == b); s(x == y); s(bool(a) && n(*a) == 1); break;
    }
    s(a ? n(*a) : -1); s(b ? n(*b) : -1); s(x ? n(*x) : -1); s(y ? n(*y) : -1); s(x.use_count()); s(y.use_count());
  }
};
struct Fun {
  int v = 0; using F = cest::function<int(int)>; F f, g; cest::function<void(int)> h; static constexpr int ops = 6; static const char *name(int o) { static const char *const N[] = {"call", "call of a void function", "copy", "move", "new target", "function pointer"}; return N[o]; }
  Fun() : f([k = E(1)](int a) mutable { return ++*k.p + a; }), g([](int a) { return a; }), h([this](int a) { v += a; }) {}
  void step(int o, Sum &s) { switch (o) { case 0: s(f(2)); s(g(3)); break; case 1: h(4); break; case 2: { F t(f); s(t(1)); g = f; break; } case 3: { F t(std::move(f)); f = std::move(t); break; } case 4: f = F([k = v](int a) { return k * 10 + a; }); break; case 5: g = F(+[](int a) { return a * 2; }); break; } s(f(1)); s(g(1)); s(v); }
};
struct Str {
  cest::istringstream i; cest::stringstream t; static constexpr int ops = 9; static const char *name(int o) { static const char *const N[] = {"get", "read", "unget", "str", "clear and setstate", "flags", "stringstream read", "fmemopen", "failing read"}; return N[o]; }
  Str() : i(cest::string("one two three")), t(cest::string("four")) {}
  void step(int o, Sum &s) {
    char b[32] = {};
    switch (o) {
    case 0: { char ch = 0; i.get(ch); s(ch); break; } case 1: i.read(b, 3); s(b[0]); s(b[2]); s(i.gcount()); break; case 2: i.unget(); break; case 3: i.str(cest::string("again")); s(n(i.str()[0])); break;
    case 4: i.clear(); i.setstate(cest::ios_base::failbit); i.clear(); break; case 5: s(i.good()); s(i.eof()); s(i.fail()); s(bool(t)); break;
    case 6: t.read(b, 2); s(b[1]); t.get(b[5]); s(b[5]); s((long)t.str().size()); break;
    case 7: { char text[] = "a file"; cest::FILE *f = cest::fmemopen(text, 6, "r"); s((long)cest::fread(b, 1, 4, f)); s(b[3]); s((long)cest::fread(b, 1, 9, f)); s(b[0]); cest::fclose(f); break; }
    case 8: t.read(b, 30); s(t.gcount()); s(t.eof()); break;
    }
    s(i.rdstate()); s(t.rdstate());
  }
};
struct Num {
  double x = 0.3; cest::complex<double> z{1, 2}; int a[4] = {1, 2, 3, 4}; static constexpr int ops = 8; static const char *name(int o) { static const char *const N[] = {"powers and roots", "trigonometry", "hyperbolics and logarithms", "complex arithmetic", "complex functions", "character classes", "n-ary swap", "accumulate and sort"}; return N[o]; }
  void d(Sum &s, double v) { s(long(v * 100000)); }
  void step(int o, Sum &s) {
    switch (o) {
    case 0: d(s, cest::sqrt(x)); d(s, cest::pow(x, 3)); d(s, cest::abs(-x)); d(s, cest::floor(x * 9)); d(s, cest::ceil(x * 9)); break;
    case 1: d(s, cest::sin(x)); d(s, cest::cos(x)); d(s, cest::atan(x)); d(s, cest::atan2(x, 2.0)); break; case 2: d(s, cest::exp(x)); d(s, cest::log(x + 1)); d(s, cest::sinh(x)); d(s, cest::cosh(x)); break;
    case 3: z = z * z + cest::complex<double>(1, x); z /= cest::complex<double>(2, 1); d(s, cest::norm(z)); d(s, cest::abs(z)); break; case 4: d(s, cest::real(cest::sqrt(z))); d(s, cest::imag(cest::exp(cest::complex<double>(x, x)))); d(s, cest::arg(z)); break;
    case 5: for (int c = -1; c < 256; c += 7) { s(cest::isalnum(c) != 0); s(cest::isupper(c) != 0); } break; case 6: nary::swap(a[0], a[1], a[2], a[3]); nary::swapr(a[0], a[2]); break; case 7: s(cest::accumulate(a, a + 4, 0)); cest::reverse(a, a + 4); x += 0.1; break;
    }
    d(s, x); d(s, z.real()); for (int k : a) s(k);
  }
};
// ---- pairs of histories --------------------------------------------------------
template <class A> unsigned long script(const int *o, int len, int who) { Sum s; A a; for (int i = 0; i < len; i++) { now[who] = A::name(o[i]); a.step(o[i], s); } now[who] = "destruction"; return s.v; }
template <class A> void pairs(int depth) {
  static unsigned long alone[20 * 20 * 20 * 2]; int o[2][4]; mc::op();
  for (int w = 0; w < 2; w++) for (int i = 0; i < depth; i++) { o[w][i] = mc::choose(A::ops); mc::tr("thread %d: %s", w + 1, A::name(o[w][i])); }
  unsigned long r[2]; both([&] { r[0] = script<A>(o[0], depth, 0); }, [&] { r[1] = script<A>(o[1], depth, 1); });
  for (int w = 0; w < 2; w++) { int k = 1; for (int i = 0; i < depth; i++) k = k * 20 + o[w][i]; if (!alone[k]) alone[k] = script<A>(o[w], depth, w); if (r[w] != alone[k]) mc::fail("thread %d sees other values than when it runs alone", w + 1); }
  mc::state(mc::hash(o[0], sizeof(int) * depth) * 31 + mc::hash(o[1], sizeof(int) * depth));
}
#define PAIRS(name, ...) MC_SCENARIO(name, 2, 3, 4, 16) { pairs<__VA_ARGS__>(depth); }
#define ALL(X) X(vector, Seq<cest::vector<E>>) X(vector_int, Seq<cest::vector<int>>) X(deque, Seq<cest::deque<E>>) X(list, Seq<cest::list<E>>) X(forward_list, Seq<cest::forward_list<E>>) X(string, Seq<cest::string>) \
  X(set, Tree<cest::set<int>>) X(map, Tree<cest::map<int, E>>) X(queue, Que<cest::deque<E>>) X(queue_list, Que<cest::list<E>>) X(owners, Own) X(functions, Fun) X(streams, Str) X(numbers, Num)
ALL(PAIRS)
// each component against each other, over longer histories: from every place, in every stride
MC_SCENARIO(mixed, 0, 0, 4, 8) {
  using F = unsigned long (*)(const int *, int, int); struct Comp { F f; int ops; const char *name; };
  static const Comp comp[] = {
#define ROW(name, ...) {script<__VA_ARGS__>, __VA_ARGS__::ops, #name},
    ALL(ROW)
  };
  const int N = sizeof comp / sizeof *comp; int i = mc::choose(N), j = mc::choose(N), from = mc::choose(14), by = mc::choose_in(1, 3), len = mc::thorough ? 60 : 20; int o[2][60]; mc::op();
  for (int k = 0; k < len; k++) { o[0][k] = (from + k * by) % comp[i].ops; o[1][k] = (from + k * by + k / 3) % comp[j].ops; }
  mc::tr("%s with %s, from %d by %d", comp[i].name, comp[j].name, from, by); unsigned long r[2];
  both([&] { r[0] = comp[i].f(o[0], len, 0); }, [&] { r[1] = comp[j].f(o[1], len, 1); });
  if (r[0] != comp[i].f(o[0], len, 0) || r[1] != comp[j].f(o[1], len, 1)) mc::fail("%s or %s sees other values than when it runs alone", comp[i].name, comp[j].name);
  mc::state(((i * N + j) * 14 + from) * 3 + by);
}
// ---- two threads read one object -------------------------------------------------
template <class C> struct Read {
  static constexpr int ops = 10; static const char *name(int o) { static const char *const N[] = {"iteration", "size and emptiness", "ends", "indexing", "copying", "comparison", "search", "reverse iteration", "text", "algorithms"}; return N[o]; }
  static void step(const C &c, const C &d, int o, Sum &s) {
    bool e = c.begin() == c.end();
    switch (o) {
    case 0: all(s, c); if constexpr (requires { c.cbegin(); }) s(c.cbegin() == c.cend()); break;
    case 1: s(c.empty()); if constexpr (requires { c.size(); }) s((long)c.size()); if constexpr (requires { c.capacity(); }) s((long)c.capacity() >= 0); if constexpr (requires { c.get_allocator(); }) (void)c.get_allocator(); break;
    case 2: if (!e) { if constexpr (requires { c.front(); }) s(n(c.front())); if constexpr (requires { c.back(); }) s(n(c.back())); } break;
    case 3: if (!e) { if constexpr (requires { c[0]; c.size(); }) s(n(c[c.size() - 1])); if constexpr (requires { c.at(0); c.data(); }) s(n(c.at(0))); if constexpr (requires { c.data(); }) s(n(*c.data())); } break;
    case 4: { C t(c); all(s, t); t = d; all(s, t); break; }
    case 5: if constexpr (requires { c == d; }) { s(c == d); s(d == c); } if constexpr (requires { c < d; c.c_str(); }) { s(c < d); s(c != d); s(c.compare(d)); s(c == "ab"); } break;
    case 6: if constexpr (requires { c.find(3) == c.end(); }) { for (int k = 0; k < 9; k++) s(c.find(k) == c.end()); } else if constexpr (requires { c.c_str(); }) { s((long)c.find('\2')); s((long)c.find("\3\4")); s((long)c.find(d)); } break;
    case 7: if constexpr (requires { c.rbegin(); }) { for (auto i = c.rbegin(); i != c.rend(); ++i) s(n(*i)); } else if constexpr (requires { --c.end(); }) { auto i = c.end(); while (!(i == c.begin())) { --i; s(n(*i)); } } break;
    case 8: if constexpr (requires { c.c_str(); }) { s((long)strlen(c.c_str())); s(c.c_str()[c.size()]); s((long)c.length()); cest::string t; t += c; s((long)t.size()); } break;
    case 9: s(std::distance(c.begin(), c.end())); if (!e) s(n(*cest::max_element(c.begin(), c.end(), [](auto &x, auto &y) { return n(x) < n(y); }))); if constexpr (requires { c.end() - c.begin(); }) s(c.end() - c.begin()); break;
    }
  }
};
template <class C> void reads(int max) {
  using R = Read<C>; int len = mc::choose_in(0, max), way = mc::choose(3), a = mc::choose(R::ops), b = mc::choose(R::ops);
  C c, d; auto put = [](C &c, int i) { if constexpr (requires { c.begin()->second; }) c.insert(typename C::value_type(i, i * 2)); else if constexpr (requires { c.push_back(i); }) c.push_back(typename C::value_type(i)); else if constexpr (requires { c.push_front(i); }) c.push_front(typename C::value_type(i)); else c.insert(typename C::value_type(i)); };
  for (int i = 1; i <= len; i++) { put(c, i * 5 % 8); if (i > 1) put(d, i); }
  if (way == 1) { if constexpr (requires { c.pop_back(); }) { put(c, 9); c.pop_back(); } else if constexpr (requires { c.pop_front(); }) { put(c, 9); c.pop_front(); } }
  if (way == 2) { C t(c); c = d; d = t; }
  mc::tr("%d elements, state %d: %s; %s", len, way, R::name(a), R::name(b)); mc::op(); now[0] = R::name(a); now[1] = R::name(b);
  const C &cc = c, &dd = d; Sum s[4]; both([&] { R::step(cc, dd, a, s[0]); }, [&] { R::step(cc, dd, b, s[1]); });
  R::step(cc, dd, a, s[2]); R::step(cc, dd, b, s[3]); if (s[0].v != s[2].v || s[1].v != s[3].v) mc::fail("a read gives another value when another thread reads too");
  mc::state(((len * 3 + way) * 10 + a) * 10 + b);
}
#define READS(name, ...) MC_SCENARIO(read_##name, 0, 0, 1, 2) { reads<__VA_ARGS__>(mc::thorough ? 20 : 6); }
READS(vector, cest::vector<E>) READS(vector_int, cest::vector<int>) READS(deque, cest::deque<E>) READS(list, cest::list<E>) READS(forward_list, cest::forward_list<E>) READS(string, cest::string) READS(set, cest::set<int>) READS(map, cest::map<int, E>)
// other objects that are only read
MC_SCENARIO(read_others, 0, 0, 1, 1) {
  int k = mc::choose(3), a = mc::choose(6), b = mc::choose(6); mc::op(); mc::state((k * 6 + a) * 6 + b);
  const cest::unique_ptr<E> u(k ? new E(k) : nullptr); const cest::shared_ptr<E> h(k ? new E(k) : nullptr), h2(h); const cest::complex<double> z(k, 1); cest::queue<int> qm; if (k) { qm.push(k); qm.push(3); } const cest::queue<int> &q = qm;
  const cest::istringstream i(cest::string(k ? "text" : "")); const cest::stringstream t(cest::string(k ? "text" : "")); int arr[3] = {k, 2, 1}; const int *ar = arr; const cest::function<int(int)> f([k](int x) { return x + k; });
  auto go = [&](int o, Sum &s, int w) { static const char *const N[] = {"unique_ptr", "shared_ptr", "complex", "queue", "streams", "functions and ranges"}; now[w] = N[o];
    switch (o) { case 0: s(bool(u)); if (k) { s(n(*u)); s(n(*u.get())); s(*u->p); } s(u == u); break; case 1: s(bool(h)); s(h.use_count()); if (k) { s(n(*h)); s(*h->p); } s(h == h2); s(h.get() == h2.get()); break;
    case 2: s((long)cest::norm(z)); s((long)z.real()); s((long)cest::imag(z * z)); s(z == cest::complex<double>(1, 1)); break; case 3: s(q.empty()); s((long)q.size()); if (k) { s(q.front()); s(q.back()); } { auto r = q; while (!r.empty()) r.pop(); } break;
    case 4: s(i.good()); s(i.eof()); s(i.rdstate()); s((long)i.str().size()); s(t.fail()); s(bool(t)); s((long)t.str().size()); s(i.gcount()); break; case 5: s(cest::accumulate(ar, ar + 3, 0)); s(*cest::max_element(ar, ar + 3)); { cest::function<int(int)> g(f); s(g(2)); } break; } };
  Sum s[4]; both([&] { go(a, s[0], 0); }, [&] { go(b, s[1], 1); }); go(a, s[2], 0); go(b, s[3], 1); if (s[0].v != s[2].v || s[1].v != s[3].v) mc::fail("a read gives another value when another thread reads too");
}
// ---- two threads print, each to a stream of its own -----------------------------
struct Sink : std::streambuf { char t[4096]; int n = 0;
  std::streamsize xsputn(const char *p, std::streamsize k) override { for (std::streamsize i = 0; i < k && n < 4096; i++) t[n++] = p[i]; return k; }
  int overflow(int c) override { if (c != -1 && n < 4096) t[n++] = (char)c; return c == -1 ? 0 : c; } };
MC_SCENARIO(printing, 2, 3, 4, 8) {
  static const char *const N[] = {"fprintf of a short text", "fprintf of a long text", "fprintf without arguments", "integers", "a string", "characters and C strings", "bases", "a pointer", "a line end"}; const int ops = 9;
  int o[2][4]; mc::op(); for (int w = 0; w < 2; w++) for (int i = 0; i < depth; i++) { o[w][i] = mc::choose(ops); mc::tr("thread %d: %s", w + 1, N[o[w][i]]); }
  static const std::string far(600, 'q'); static Sink sink[2]; sink[0].n = sink[1].n = 0;
  cest::ostream *const to[2] = {&cest::cout, &cest::clog}; std::ostream *const st[2] = {&std::cout, &std::clog};
  std::streambuf *was[2]; for (int w = 0; w < 2; w++) was[w] = st[w]->rdbuf(&sink[w]);
  auto go = [&](int w, int at) { cest::ostream &s = *to[at]; for (int i = 0; i < depth; i++) { now[w] = N[o[w][i]]; switch (o[w][i]) {
    case 0: cest::fprintf(&s, "%d and %s;", w * 1000 + i, w ? "second" : "first"); break; case 1: cest::fprintf(&s, "%d %s;", w, far.c_str()); break; case 2: cest::fprintf(&s, w ? "plain " : "only "); break;
    case 3: s << 7 * w + i; s << 70000L * (w + 1); s << (short)w; s << 5u; break; case 4: s << cest::string(w ? "of the second " : "of the first "); break; case 5: s << char('a' + w); s << (w ? "xyz" : "pqrs"); break;
    case 6: s << cest::hex; s << 255 + w; s << cest::dec; break; case 7: s << (const void *)(16L + w); break; case 8: s << cest::endl; break; } } now[w] = "the end"; };
  both([&] { go(0, 0); }, [&] { go(1, 1); });
  std::string r[2]; for (int w = 0; w < 2; w++) { r[w].assign(sink[w].t, sink[w].n); sink[w].n = 0; }
  for (int w = 0; w < 2; w++) { go(w, w); bool same = r[w] == std::string(sink[w].t, sink[w].n) && sink[1 - w].n == 0; sink[w].n = 0; if (!same) { for (int k = 0; k < 2; k++) st[k]->rdbuf(was[k]); mc::fail("thread %d prints another text than when it runs alone", w + 1); } }
  for (int w = 0; w < 2; w++) st[w]->rdbuf(was[w]);
  mc::state(mc::hash(o[0], sizeof(int) * depth) * 31 + mc::hash(o[1], sizeof(int) * depth) + 77);
}
MC_MAIN
