#include "mc.hpp"
#include "track.hpp"
#include <cest/functional.hpp>
#include <memory>
#include <stdexcept>
TRK_HEAP
using trk::Tok;
struct Call { int target, arg; bool operator==(const Call &) const = default; };
static std::vector<Call> *log_;
static int free_a(int x) { log_->push_back({1000, x}); return x + 1; }
static int free_b(int x) { log_->push_back({1001, x}); return x * 2; }
// A target: state kept between calls; throws on request; its copies are counted
struct Tgt { int id; Tok life; int n = 0; explicit Tgt(int i) : id(i), life(i) {}
  int operator()(int x) { if (life.get() != id) mc::fail("a target that was moved from is called"); log_->push_back({id, x}); if (x == 13) throw std::runtime_error("thirteen"); return id * 100 + x + n++; } };
struct CTgt { int id; Tok life; explicit CTgt(int i) : id(i), life(i) {} int operator()(int x) const { if (life.get() != id) mc::fail("a target that was moved from is called"); log_->push_back({id, x}); if (x == 13) throw 13; return -id - x; } };
struct Big { int id; Tok life; char pad[200]; explicit Big(int i) : id(i), life(i) { memset(pad, i, sizeof pad); }
  int operator()(int x) { life.get(); for (char c : pad) if (c != (char)id) mc::fail("the target is damaged"); log_->push_back({id, x}); if (x == 13) throw std::runtime_error("thirteen"); return id ^ x; } };
using F = cest::function<int(int)>;
struct MF { int kind = -1, id = 0, n = 0;                  // the model of a target
  int expect(int x) { switch (kind) { case 0: return x + 1; case 1: return x * 2; case 2: case 6: return id * 100 + x + n; case 3: case 7: return -id - x; default: return id ^ x; } }
  bool throws(int x) const { return kind >= 2 && x == 13; }
  int tag() const { return kind == 0 ? 1000 : kind == 1 ? 1001 : id; } };
static void call(F &f, MF &m, int x) {
  mc::op(); log_->clear(); bool threw = false; int r = 0, e = m.expect(x);
  try { r = f(x); } catch (std::runtime_error &) { threw = true; } catch (int) { threw = true; }
  if (threw != m.throws(x)) mc::fail(threw ? "a call throws" : "the target's exception does not come through");
  if (log_->size() != 1) mc::fail("one call calls %zu targets", log_->size());
  if ((*log_)[0].target != m.tag() || (*log_)[0].arg != x) mc::fail("the call reaches target %d with %d, not %d with %d", (*log_)[0].target, (*log_)[0].arg, m.tag(), x);
  if (!threw && r != e) mc::fail("the call returns %d, not %d", r, e);
  if (!threw && (m.kind == 2 || m.kind == 6)) m.n++;
}
static int next_id;
static F *build(MF &m) {
  m = MF{}; m.kind = mc::choose(8); m.id = next_id++; mc::op();
  static const char *nm[] = {"a function", "another function", "a callable", "a const callable", "a large callable", "a lambda", "an lvalue callable", "an lvalue const callable"};
  mc::tr("  built from %s, %d", nm[m.kind], m.id);
  switch (m.kind) {
  case 0: return new F(free_a);
  case 1: return new F(&free_b);
  case 2: return new F(Tgt(m.id));
  case 3: return new F(CTgt(m.id));
  case 4: { Big b(m.id); F *f = new F(b); if (b.life.get() != m.id) mc::fail("building from a callable changes it"); return f; }
  case 5: { Tok t(m.id); int id = m.id; return new F([t, id](int x) { if (t.get() != id) mc::fail("the lambda's capture is damaged"); log_->push_back({id, x}); if (x == 13) throw 13; return id ^ x; }); }
  case 6: { Tgt t(m.id); F *f = new F(t); log_->clear(); t(1); if (t.life.get() != m.id || t.n != 1) mc::fail("building from a callable changes it"); return f; }
  default: { const CTgt t(m.id); F *f = new F(t); if (t.life.get() != m.id) mc::fail("building from a const callable changes it"); return f; }
  }
}
static int targets(const MF *m, int n) { int k = 0; for (int i = 0; i < n; i++) k += m[i].kind >= 2; return k; }
MC_SCENARIO(hist, 4, 5, 8, 16) {
  std::vector<Call> lg; log_ = &lg; lg.reserve(16); next_id = 1; constexpr int N = 2; F *f[N]; MF m[N]; bool empty[N] = {};
  for (int i = 0; i < N; i++) f[i] = build(m[i]);
  for (int s = 0; s < depth - 1; s++) {
    int i = mc::choose(N), j = 1 - i;
    switch (mc::choose(7)) {
    case 0: if (!empty[i]) { int x = mc::choose(2) ? 13 : s + 3; mc::tr("f%d(%d)", i, x); call(*f[i], m[i], x); } break;
    case 1: if (empty[j]) break; mc::tr("f%d = move(f%d)", i, j); mc::op(); { F &r = (*f[i] = std::move(*f[j])); if (&r != f[i]) mc::fail("assignment does not return its target"); } m[i] = m[j]; empty[i] = false; empty[j] = true; m[j] = MF{}; break;
    case 2: { if (empty[j]) break; mc::tr("f%d is moved from f%d", i, j); mc::op(); F *n = new F(std::move(*f[j])); delete f[i]; f[i] = n; m[i] = m[j]; empty[i] = false; empty[j] = true; m[j] = MF{}; break; }
    case 3: { mc::tr("f%d rebuilt", i); MF t; F *n = build(t); *f[i] = std::move(*n); delete n; m[i] = t; empty[i] = false; break; }
    case 4: if (empty[j]) break; mc::tr("f%d = f%d", i, j); mc::op(); *f[i] = static_cast<const F &>(*f[j]); m[i] = m[j]; empty[i] = false; break;
    case 6: { if (empty[i]) break; mc::tr("f%d = f%d", i, i); mc::op(); F &r = *f[i]; *f[i] = static_cast<const F &>(r); break; }
    case 5: { if (empty[j]) break; mc::tr("f%d is copied from f%d", i, j); mc::op(); F *n = new F(static_cast<const F &>(*f[j])); delete f[i]; f[i] = n; m[i] = m[j]; empty[i] = false; break; }
    }
    if (trk::tok_live != targets(m, N)) mc::fail("%ld targets are alive, not %d", trk::tok_live, targets(m, N));
  }
  uint64_t h = 3; for (auto &x : m) h = h * 91 + x.kind * 64 + x.id * 4 + x.n; mc::state(h);
  for (int i = 0; i < N; i++) if (!empty[i]) { call(*f[i], m[i], 5); call(*f[i], m[i], 5); call(*f[i], m[i], 13); call(*f[i], m[i], -7); }
  int first = mc::choose(2); delete f[first]; m[first] = MF{};
  if (trk::tok_live != targets(m, N)) mc::fail("%ld targets are alive, not %d", trk::tok_live, targets(m, N));
  if (!empty[1 - first]) call(*f[1 - first], m[1 - first], 8);
  delete f[1 - first]; log_ = nullptr;
}
// arguments and results of every kind, values chosen
MC_SCENARIO(arguments, 0, 0, 1, 1) {
  int a = mc::choose_in(-2, 2), b = mc::choose_in(-2, 2), k = mc::choose(11), calls = 0; mc::op(); mc::state((a + 2) * 100 + (b + 2) * 20 + k);
  mc::tr("case %d with %d, %d", k, a, b);
  switch (k) {
  case 0: { cest::function<int()> f([&] { calls++; return a; }); if (f() != a || f() != a || calls != 2) mc::fail("no arguments"); break; }
  case 1: { cest::function<int(int, int, int)> f([](int x, int y, int z) { return x * 100 + y * 10 + z; }); if (f(a, b, 3) != a * 100 + b * 10 + 3) mc::fail("the arguments are out of order"); break; }
  case 2: { int v = a; cest::function<void(int &, int)> f([](int &x, int y) { x += y; }); f(v, b); if (v != a + b) mc::fail("an argument by reference is not passed through"); f(v, 1); if (v != a + b + 1) mc::fail("second call"); break; }
  case 3: { cest::function<int(std::unique_ptr<int>)> f([](std::unique_ptr<int> p) { return *p; }); if (f(std::make_unique<int>(a)) != a) mc::fail("a move-only argument is wrong"); break; }
  case 4: { cest::function<std::unique_ptr<int>(int)> f([](int x) { return std::make_unique<int>(x); }); auto p = f(b); if (!p || *p != b) mc::fail("a move-only result is wrong"); break; }
  case 5: { int v = a; cest::function<int &()> f([&v]() -> int & { return v; }); f() = b; if (v != b || &f() != &v) mc::fail("a result by reference is not the object"); break; }
  case 6: { Tok t(a); cest::function<int(const Tok &)> f([&](const Tok &x) { if (&x != &t) mc::fail("a reference argument is copied"); return x.get(); }); long made = trk::tok_made; if (f(t) != a || trk::tok_made != made) mc::fail("a const reference is wrong"); break; }
  case 7: { cest::function<void(Tok)> f([&](Tok x) { calls += x.get(); }); Tok t(a); f(t); if (calls != a || t.get() != a) mc::fail("an argument by value is wrong"); f(Tok(b)); if (calls != a + b) mc::fail("an rvalue argument is wrong"); break; }
  case 8: { Tok t(a); cest::function<int(Tok &&)> f([&](Tok &&x) { if (&x != &t) mc::fail("an rvalue reference is copied"); Tok y(std::move(x)); return y.get(); }); if (f(std::move(t)) != a) mc::fail("an rvalue reference is wrong"); break; }
  case 9: { cest::function<void()> f([&] { calls++; if (a == b) throw a; }); bool threw = false; try { f(); } catch (int x) { threw = x == a; } if (calls != 1 || threw != (a == b)) mc::fail("a call without result is wrong"); break; }
  case 10: { cest::function f(free_a); std::vector<Call> lg; log_ = &lg; if (f(a) != a + 1 || lg.size() != 1) mc::fail("a deduced function is wrong"); break; }
  }
}
// functions of functions: a function object as a target; several move along a chain
MC_SCENARIO(nested, 4, 5, 1, 4) {
  std::vector<Call> lg; log_ = &lg; lg.reserve(16); int c = 0; cest::function<int(int)> f([&c, t = Tok(3)](int x) mutable { c++; return x + t.get(); }); int add = 3;
  for (int s = 0; s < depth; s++) { mc::op();
    switch (mc::choose(4)) {
    case 0: { mc::tr("wrapped"); cest::function<int(int)> g([h = std::move(f), t = Tok(1)](int x) mutable { return h(x) + t.get(); }); f = std::move(g); add++; break; }
    case 1: { mc::tr("copied"); cest::function<int(int)> g(f); f = g; break; }
    case 2: { mc::tr("moved twice"); cest::function<int(int)> g(std::move(f)); cest::function<int(int)> h(std::move(g)); f = std::move(h); break; }
    case 3: { mc::tr("called"); int was = c; if (f(s) != s + add || c != was + 1) mc::fail("a nested call is wrong"); break; }
    } }
  mc::state(add * 8 + depth); int was = c; if (f(10) != 10 + add || c != was + 1) mc::fail("a nested call is wrong");
}
// every kind of parameter, alone and in pairs, with and without a result, seen by a target that takes anything: each argument arrives with its
// own value category, references as the very object, and unchanged
struct Seen { int cat; long val; const void *at; };
static std::vector<Seen> *seen_;
static long val(int x) { return x; } static long val(const Tok &t) { return t.get(); } static long val(const std::unique_ptr<int> &p) { return p ? *p : -999; } static long val(int *p) { return *p; } static long val(const std::string &s) { return (long)s.size() * 1000 + (s.empty() ? 0 : s[0]); }
template <class X> void note(X &&x) { using T = X &&; seen_->push_back({(std::is_lvalue_reference_v<T> ? 0 : 2) + std::is_const_v<std::remove_reference_t<T>>, val(x), (const void *)&x}); }
template <int K> struct Arg;
template <> struct Arg<0> { using P = int; int v; Arg(int n) : v(n) {} P give() { return v; } Seen want() { return {2, v, nullptr}; } };
template <> struct Arg<1> { using P = Tok; Tok v; int n; Arg(int n) : v(n), n(n) {} Tok &give() { return v; } Seen want() { if (v.get() != n) mc::fail("an argument passed by value is changed"); return {2, n, nullptr}; } };
template <> struct Arg<2> { using P = Tok; int n; Arg(int n) : n(n) {} Tok give() { return Tok(n); } Seen want() { return {2, n, nullptr}; } };
template <> struct Arg<3> { using P = Tok &; Tok v; int n; Arg(int n) : v(n), n(n) {} P give() { return v; } Seen want() { return {0, n, &v}; } };
template <> struct Arg<4> { using P = const Tok &; Tok v; int n; Arg(int n) : v(n), n(n) {} P give() { return v; } Seen want() { return {1, n, &v}; } };
template <> struct Arg<5> { using P = Tok &&; Tok v; int n; Arg(int n) : v(n), n(n) {} P give() { return std::move(v); } Seen want() { return {2, n, &v}; } };
template <> struct Arg<6> { using P = std::unique_ptr<int>; int n; Arg(int n) : n(n) {} P give() { return std::make_unique<int>(n); } Seen want() { return {2, n, nullptr}; } };
template <> struct Arg<7> { using P = int *; int v; Arg(int n) : v(n) {} P give() { return &v; } Seen want() { return {2, v, nullptr}; } };
template <> struct Arg<8> { using P = std::string; std::string v; Arg(int n) : v(40 + n, 'q') {} std::string &give() { return v; } Seen want() { if (val(v) == -1) mc::fail("?"); return {2, val(v), nullptr}; } };
struct Probe { template <class... X> int operator()(X &&...x) { (note(std::forward<X>(x)), ...); return (int)seen_->size() + 70; } };
template <class R, int... K> void probe(int a) {
  std::vector<Seen> sn; seen_ = &sn; sn.reserve(8); long live = trk::tok_live;
  { std::tuple<Arg<K>...> as{(K + a)...}; cest::function<R(typename Arg<K>::P...)> f{Probe{}};
    for (int round = 0; round < 3; round++) {
      mc::op(); sn.clear(); auto call = [&](auto &...x) -> R { return f(x.give()...); };
      if (round == 1) { cest::function<R(typename Arg<K>::P...)> g(f); f = g; } if (round == 2) { auto g = std::move(f); f = std::move(g); }
      if constexpr (std::is_void_v<R>) std::apply(call, as); else { int r = std::apply(call, as); if (r != (int)sizeof...(K) + 70) mc::fail("the call returns %d, not %d", r, (int)sizeof...(K) + 70); }
      std::vector<Seen> w; std::apply([&](auto &...x) { (w.push_back(x.want()), ...); }, as);
      if (sn.size() != w.size()) mc::fail("%zu arguments arrive, not %zu", sn.size(), w.size());
      for (size_t i = 0; i < w.size(); i++) {
        if (sn[i].cat != w[i].cat) mc::fail("argument %zu arrives as category %d, not %d (0 lvalue, 1 const, 2 rvalue)", i, sn[i].cat, w[i].cat);
        if (sn[i].val != w[i].val) mc::fail("argument %zu arrives as %ld, not %ld", i, sn[i].val, w[i].val);
        if (w[i].at && sn[i].at != w[i].at) mc::fail("argument %zu, a reference, is another object", i);
      }
    } }
  seen_ = nullptr; if (trk::tok_live != live) mc::fail("%ld elements too many are alive", trk::tok_live - live);
}
template <int I> void one(int a, bool v) { if (v) probe<void, I>(a); else probe<int, I>(a); }
template <int I, int J> void two(int a, bool v) { if (v) probe<void, I, J>(a); else probe<int, I, J>(a); }
template <int I, int... J> void row(int j, int a, bool v, std::integer_sequence<int, J...>) { if (j < 0) one<I>(a, v); else ((j == J ? two<I, J>(a, v) : (void)0), ...); }
template <int... I> void table(int i, int j, int a, bool v, std::integer_sequence<int, I...> s) { ((i == I ? row<I>(j, a, v, s) : (void)0), ...); }
MC_SCENARIO(forwarding, 0, 0, 1, 1) {
  int i = mc::choose(9), j = mc::choose_in(-1, 8), a = mc::choose(3); bool v = mc::choose(2); mc::tr("parameters of kind %d and %d, %s", i, j, v ? "no result" : "a result"); mc::state(i * 64 + j * 4 + v * 2 + 1000 * a);
  table(i, j, a, v, std::make_integer_sequence<int, 9>());
}
// targets that, while they run, call, copy or replace function objects, their own included
template <class R> struct Rec {
  using G = cest::function<R(int)>; struct M { int id, cnt; };
  static inline G *fs[2]; static inline M ms[3]; static inline G *temp; static inline int active[3], steps, ids;
  static G &at(int w) { return w == 2 ? *temp : *fs[w]; }
  struct T {
    Tok life; int id, cnt = 0; explicit T(int i) : life(i), id(i) {}
    void mine(int w, const char *when) const { if (life.get() != id || id != ms[w].id || cnt != ms[w].cnt) mc::fail("%s: function %d runs target %d with state %d, not target %d with state %d", when, w, id, cnt, ms[w].id, ms[w].cnt); }
    R operator()(int w) {
      mine(w, "on entry"); cnt++; ms[w].cnt++; active[w]++; struct Out { int w; ~Out() { active[w]--; } } out{w};
      while (steps > 0) {
        int a = mc::choose(7); if (a == 0) break; steps--; mc::op();
        if (a == 1 || a == 2) { mc::tr("%d calls %d", w, a - 1); call(a - 1); }
        else if (a == 3 && !temp) { mc::tr("%d is copied, and the copy called", w); G t(static_cast<const G &>(at(w))); temp = &t; ms[2] = ms[w]; try { call(2); } catch (...) { temp = nullptr; throw; } temp = nullptr; }
        else if (a == 4 && w < 2 && !active[1 - w]) { mc::tr("%d assigns itself to the other", w); *fs[1 - w] = static_cast<const G &>(*fs[w]); ms[1 - w] = ms[w]; }
        else if (a == 5 && w < 2 && !active[1 - w]) { mc::tr("%d gives the other a new target", w); *fs[1 - w] = G(T(ids)); ms[1 - w] = {ids++, 0}; }
        else if (a == 6) { mc::tr("%d throws", w); throw 6; }
        mine(w, "while it runs");
      }
      if constexpr (!std::is_void_v<R>) return id * 1000 + cnt;
    }
  };
  static void call(int w) {
    int was = active[w];
    try { if constexpr (std::is_void_v<R>) at(w)(w); else { int r = at(w)(w); if (r != ms[w].id * 1000 + ms[w].cnt) mc::fail("a call of function %d returns %d, not %d", w, r, ms[w].id * 1000 + ms[w].cnt); } } catch (int x) { if (x != 6) mc::fail("another exception comes out"); }
    if (active[w] != was) mc::fail("a call does not end");
  }
  static void run(int depth) {
    steps = depth; ids = 3; temp = nullptr; active[0] = active[1] = active[2] = 0;
    for (int i = 0; i < 2; i++) { fs[i] = new G(T(i + 1)); ms[i] = {i + 1, 0}; }
    call(mc::choose(2)); steps = 0; for (int i = 0; i < 2; i++) { call(i); if (trk::tok_live != 2 - 0) mc::fail("%ld targets are alive, not 2", trk::tok_live); }
    mc::state(((ms[0].id * 10 + ms[0].cnt) * 10 + ms[1].id) * 10 + ms[1].cnt); delete fs[0]; delete fs[1];
  }
};
// copying a target, or finding room for it, fails at any point: the assignment has no effect, a construction leaves nothing
MC_SCENARIO(failing, 3, 4, 1, 4) {
  std::vector<Call> lg; log_ = &lg; lg.reserve(16); next_id = 1; F *f[2]; MF m[2]; for (int i = 0; i < 2; i++) { m[i].kind = mc::choose(2) ? 2 : 4; m[i].id = next_id++; f[i] = m[i].kind == 2 ? new F(Tgt(m[i].id)) : new F(Big(m[i].id)); }
  for (int s = 0; s < depth - 1; s++) {
    int i = mc::choose(2), way = mc::choose(4); bool failed = false; mc::op(); mc::tr("%s f%d", way == 0 ? "assign the other to" : way == 1 ? "copy" : way == 2 ? "build for" : "assign itself to", i); Big b(next_id + 20);
    trk::budget = 1; trk::fault_hit = false; trk::arm_choices(); trk::heap_ticks = true;
    try { if (way == 0) { *f[i] = static_cast<const F &>(*f[1 - i]); m[i] = m[1 - i]; } else if (way == 1) { F t(static_cast<const F &>(*f[i])); } else if (way == 2) { F t(static_cast<const Big &>(b)); } else { F &r = *f[i]; *f[i] = static_cast<const F &>(r); } } catch (trk::Fault &) { failed = true; } catch (std::bad_alloc &) { failed = true; }
    trk::heap_ticks = false; bool hit = trk::fault_hit; trk::disarm_choices();
    if (hit != failed) mc::fail("a failure does not come through"); if (b.life.get() != next_id + 20) mc::fail("building from a callable changes it");
    if (trk::tok_live != 3) mc::fail("%ld targets are alive, not 3", trk::tok_live);
    call(*f[0], m[0], 5); call(*f[1], m[1], 6); mc::state(m[0].id * 8 + m[1].id + 64 * way + 512 * failed);
  }
  delete f[0]; delete f[1]; log_ = nullptr;
}
MC_SCENARIO(recursive, 5, 7, 4, 16) { if (mc::choose(2)) Rec<void>::run(depth); else Rec<int>::run(depth); }
MC_MAIN
