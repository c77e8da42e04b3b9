// Two histories over different objects, interleaved at every point where the
// library calls out (an element constructed, copied, moved, assigned, compared
// or destroyed, a block allocated or released, a target called), with at most
// so many switches taken before one of them ends: each history sees exactly
// what it sees alone. (This also covers elements that use the library
// themselves, and threads at the granularity of call-outs.)
#include "mc.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/functional.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <cest/swap.hpp>
#include <cest/vector.hpp>
#include <algorithm>
#include <new>
#include <ucontext.h>
#include <unistd.h>

// ---- two coroutines ------------------------------------------------------------
static ucontext_t ctx[3]; static char stack_[2][1 << 17]; static int running = 2; static bool over[2]; static int budget; static void (*body)(int);
static long points;
static void leap(int to) { int from = running; running = to; swapcontext(&ctx[from], &ctx[to]); }
static void point() {                    // here the other may go on
  if (running == 2 || budget <= 0 || over[1 - running]) return;
  points++;
  if (mc::choose(2)) { budget--; leap(1 - running); }
}
static void start(int w) { body(w); over[w] = true; int o = 1 - w; running = over[o] ? 2 : o; setcontext(&ctx[running]); }
static void interleave(void (*b)(int), int first, int switches) {
  body = b; budget = switches; over[0] = over[1] = false;
  for (int w = 0; w < 2; w++) { getcontext(&ctx[w]); ctx[w].uc_stack.ss_sp = stack_[w]; ctx[w].uc_stack.ss_size = sizeof stack_[w]; ctx[w].uc_link = nullptr; makecontext(&ctx[w], (void (*)())start, 1, w); }
  leap(first);
  if (!over[0] || !over[1]) mc::internal_error("a coroutine did not end");
}
// ---- call-outs ---------------------------------------------------------------------
struct E {
  int v; const void *self;
  void live() const { if (self != this) mc::fail("an element that does not exist is used"); }
  E(int x = 0) : v(x), self(this) { point(); } E(const E &o) : v(0), self(this) { point(); o.live(); v = o.v; point(); } E(E &&o) noexcept : v(0), self(this) { point(); o.live(); v = o.v; o.v = -1; point(); }
  E &operator=(const E &o) { live(); point(); o.live(); v = o.v; point(); return *this; } E &operator=(E &&o) noexcept { live(); point(); o.live(); v = o.v; if (&o != this) o.v = -1; point(); return *this; }
  ~E() { live(); point(); self = nullptr; }
  friend bool operator==(const E &a, const E &b) { a.live(); b.live(); point(); return a.v == b.v; } friend bool operator<(const E &a, const E &b) { a.live(); b.live(); point(); return a.v < b.v; }
};
static long held[2];
template <class T> struct Al {           // where blocks come from
  using value_type = T; Al() = default; template <class U> Al(const Al<U> &) {}
  T *allocate(size_t n) { point(); T *p = (T *)malloc(n * sizeof(T)); memset((void *)p, 0xCD, n * sizeof(T)); held[running & 1]++; point(); return p; }
  void deallocate(T *p, size_t n) { if (p) { point(); held[running & 1]--; memset((void *)p, 0xDD, n * sizeof(T)); free(p); point(); } }
  friend bool operator==(const Al &, const Al &) { return true; }
};
struct Less { bool operator()(int a, int b) const { point(); bool r = a < b; point(); return r; } };
static long n(int x) { return x; } static long n(char x) { return x; } static long n(const E &e) { e.live(); return e.v; } template <class A, class B> long n(const std::pair<A, B> &p) { return n(p.first) * 7 + n(p.second); }
struct Sum { unsigned long v = 17; void operator()(long x) { v = v * 1000003 + (unsigned long)x; } };
template <class C> void all(Sum &s, const C &c) { long k = 0; for (auto i = c.begin(); !(i == c.end()); ++i, ++k) s(n(*i)); s(k); }
// ---- components: a state and one operation each -------------------------------------
template <class T> struct Seq {
  using V = typename T::value_type; static constexpr int ops = 13;
  static const char *name(int o) { static const char *const N[] = {"push_back", "push_front", "pops", "clear", "copy construction", "copy assignment", "insert", "erase", "growth", "own element", "sort", "swap or move", "compare"}; return N[o]; }
  static void run(int o, int pre, Sum &s) {
    T c, d; auto add = [](T &c, V x) { if constexpr (requires { c.push_back(x); }) c.push_back(std::move(x)); else c.push_front(std::move(x)); };
    for (int i = 1; i <= pre; i++) add(c, V(i)); add(d, V(7));
    switch (o) {
    case 0: { V x(4); if constexpr (requires { c.push_back(x); }) c.push_back(x); add(c, V(5)); break; }
    case 1: if constexpr (requires { c.push_front(V(1)); }) { V x(5); c.push_front(x); c.push_front(V(6)); } break;
    case 2: if (pre) { if constexpr (requires { c.pop_back(); }) c.pop_back(); else c.pop_front(); } if (pre > 1) if constexpr (requires { c.pop_front(); }) c.pop_front(); break;
    case 3: c.clear(); add(c, V(9)); break; case 4: { T t(c); all(s, t); break; } case 5: d = c; c = c; break;
    case 6: if constexpr (requires { c.insert(c.begin(), V(1)); }) { V x(6); c.insert(c.begin(), x); c.emplace_back(7); c.emplace(c.begin(), 3); } else if constexpr (requires { c.insert_after(c.before_begin(), V(1)); }) c.insert_after(c.before_begin(), V(6)); else if constexpr (requires { c.append("x", 1); }) { c.append("ab", 2); c += 'c'; c = "own"; c.assign("wn", 1); } break;
    case 7: if (pre) { if constexpr (requires { c.erase(c.begin(), c.end()); }) c.erase(c.begin(), c.begin() + 1); else if constexpr (requires { c.erase(c.begin()); }) c.erase(c.begin()); else if constexpr (requires { c.erase_after(c.before_begin()); }) c.erase_after(c.before_begin()); } break;
    case 8: if constexpr (requires { c.reserve(1); }) c.reserve(c.capacity() * 2 + 1); if constexpr (requires { c.resize(1); }) { c.resize(pre + 2); c.resize(1); } break;
    case 9: if (pre) { if constexpr (requires { c.push_back(c.front()); }) c.push_back(c.front()); else c.push_front(c.front()); } break;
    case 10: if constexpr (requires { c.end() - c.begin(); }) { std::reverse(c.begin(), c.end()); std::sort(c.begin(), c.end()); } break;
    case 11: if constexpr (requires { c.swap(d); }) c.swap(d); else { T t(std::move(c)); c = std::move(t); } break;
    case 12: if constexpr (requires { c == d; }) { s(c == d); T t(c); s(c == t); } break;
    }
    all(s, c); all(s, d);
  }
};
template <class T> struct Tree {
  static constexpr int ops = 6; static const char *name(int o) { static const char *const N[] = {"insert", "insert again", "find", "copy construction", "copy assignment", "clear"}; return N[o]; }
  static void run(int o, int pre, Sum &s) {
    T c, d; auto mk = [](int k) { if constexpr (requires { c.begin()->second; }) return typename T::value_type(k, k * 3); else return typename T::value_type(k); };
    for (int i = 1; i <= pre; i++) c.insert(mk(i * 3 % 7)); d.insert(mk(2));
    switch (o) { case 0: s(c.insert(mk(4)).second); s(c.insert(mk(8)).second); break; case 1: s(c.insert(mk(3)).second); break; case 2: { s(c.find(2) == c.end()); const T &k = c; s(k.find(6) == k.end()); break; }
    case 3: { T t(c); all(s, t); break; } case 4: d = c; break; case 5: c.clear(); c.insert(mk(1)); break; }
    all(s, c); all(s, d);
  }
};
struct Fun {
  static constexpr int ops = 5; static const char *name(int o) { static const char *const N[] = {"call", "copy", "move", "new target", "throwing target"}; return N[o]; }
  static void run(int o, int pre, Sum &s) {
    using F = cest::function<int(E)>; F f([k = E(pre)](E a) mutable { point(); k.v++; point(); return k.v * 10 + a.v; }), g([](E a) { return a.v; });
    switch (o) { case 0: s(f(E(2))); s(g(E(3))); break; case 1: { F t(f); s(t(E(1))); g = f; break; } case 2: { F t(std::move(f)); f = std::move(t); break; } case 3: f = F([k = E(pre + 1)](E a) { return k.v - a.v; }); break; case 4: { E x(1); f = F([](E a) -> int { return a.v + 100; }); break; } }
    s(f(E(1))); s(g(E(1)));
  }
};
struct Own {
  static constexpr int ops = 5; static const char *name(int o) { static const char *const N[] = {"make_unique", "unique_ptr move", "shared_ptr copy", "shared_ptr assignment", "deleter"}; return N[o]; }
  static void run(int o, int pre, Sum &s) {
    cest::unique_ptr<E> a(new E(pre)), b; cest::shared_ptr<E> x(new E(pre + 1)), y;
    switch (o) { case 0: a = cest::make_unique<E>(3); break; case 1: b = std::move(a); a.reset(new E(4)); break; case 2: { cest::shared_ptr<E> z(x); y = z; break; } case 3: y = cest::shared_ptr<E>(new E(5)); x = y; break;
    case 4: { int gone = 0; { cest::shared_ptr<E> z(new E(6), [&gone](E *e) { point(); gone++; delete e; point(); }); y = z; y = x; } s(gone); break; } }
    s(a ? n(*a) : -1); s(b ? n(*b) : -1); s(n(*x)); s(y ? n(*y) : -1); s(x.use_count()); s(y.use_count());
  }
};
struct Swap {
  static constexpr int ops = 4; static const char *name(int o) { static const char *const N[] = {"swap of two", "swap of three", "swapr of four", "swap of five"}; return N[o]; }
  static void run(int o, int pre, Sum &s) { E a(pre), b(2), c(3), d(4), e(5); switch (o) { case 0: nary::swap(a, b); break; case 1: nary::swap(a, b, c); break; case 2: nary::swapr(a, b, c, d); break; case 3: nary::swap(a, b, c, d, e); break; } for (auto *x : {&a, &b, &c, &d, &e}) s(n(*x)); }
};
template <class C> struct Que {
  static constexpr int ops = 3; static const char *name(int o) { static const char *const N[] = {"push", "pop", "copy"}; return N[o]; }
  static void run(int o, int pre, Sum &s) { cest::queue<E, C> q; for (int i = 1; i <= pre; i++) q.push(E(i)); switch (o) { case 0: { E x(8); q.push(x); q.push(E(9)); break; } case 1: if (pre) q.pop(); break; case 2: { auto t = q; q = t; q = q; break; } } while (!q.empty()) { s(n(q.front())); q.pop(); } }
};
// ---- every pair -----------------------------------------------------------------------
using Fn = void (*)(int, int, Sum &); struct Comp { Fn f; int ops; const char *(*name)(int); const char *comp; };
template <class A> constexpr Comp comp(const char *nm) { return {A::run, A::ops, A::name, nm}; }
static const Comp comps[] = {
  comp<Seq<cest::vector<E, Al<E>>>>("vector"), comp<Seq<cest::deque<E, Al<E>>>>("deque"), comp<Seq<cest::list<E, Al<E>>>>("list"), comp<Seq<cest::forward_list<E, Al<E>>>>("forward_list"),
  comp<Seq<cest::basic_string<char, std::char_traits<char>, Al<char>>>>("string"), comp<Tree<cest::set<int, Less>>>("set"), comp<Tree<cest::set<E>>>("set of elements"), comp<Tree<cest::map<int, E, Less>>>("map"), comp<Que<cest::deque<E, Al<E>>>>("queue"), comp<Que<cest::list<E, Al<E>>>>("queue over a list"),
  comp<Fun>("function"), comp<Own>("owners"), comp<Swap>("n-ary swap")};
constexpr int NC = sizeof comps / sizeof *comps;
static int which[2], oper[2], pre[2]; static Sum sums[2];
static void go(int w) { sums[w] = Sum(); comps[which[w]].f(oper[w], pre[w], sums[w]); }
static unsigned long alone(int w) { static unsigned long memo[NC][16][8]; unsigned long &m = memo[which[w]][oper[w]][pre[w]]; if (!m) { Sum s; comps[which[w]].f(oper[w], pre[w], s); m = s.v | 1; } return m; }
static void pair_of(int a, int b, int maxpre, int switches) {
  which[0] = a; which[1] = b; for (int w = 0; w < 2; w++) oper[w] = mc::choose(comps[which[w]].ops);
  int p = mc::choose(maxpre + 1); pre[0] = p; pre[1] = (p * 2 + 1) % (maxpre + 1); 
  for (int w = 0; w < 2; w++) { mc::tr("%d: %s of %s with %d elements", w, comps[which[w]].name(oper[w]), comps[which[w]].comp, pre[w]); alone(w); }
  mc::op(); mc::op(); held[0] = held[1] = 0; points = 0;
  interleave(go, 0, switches);
  for (int w = 0; w < 2; w++) if ((sums[w].v | 1) != alone(w)) mc::fail("%s of %s sees other values when interleaved with %s of %s", comps[which[w]].name(oper[w]), comps[which[w]].comp, comps[which[1 - w]].name(oper[1 - w]), comps[which[1 - w]].comp);
  if (held[0] || held[1]) mc::fail("blocks stay behind, or are released by the other: %ld, %ld", held[0], held[1]);
  mc::state((((a * NC + b) * 16 + oper[0]) * 16 + oper[1]) * 8 + p);
}
// one component twice: with every interleaving of up to `switches` switches
#define TWICE(name, i) MC_SCENARIO(name, 0, 0, 4, 16) { pair_of(i, i, 2, mc::thorough ? 3 : 2); }
TWICE(vectors, 0) TWICE(deques, 1) TWICE(lists, 2) TWICE(forward_lists, 3) TWICE(strings, 4) TWICE(sets, 5) TWICE(sets_of_elements, 6) TWICE(maps, 7) TWICE(queues, 8) TWICE(queues_of_lists, 9) TWICE(functions, 10) TWICE(owners, 11) TWICE(swaps, 12)
// each with each other
MC_SCENARIO(mixed, 0, 0, 8, 16) { int a = mc::choose(NC), b = mc::choose(NC); if (a == b) return; pair_of(a, b, 2, mc::thorough ? 2 : 1); }
MC_MAIN
