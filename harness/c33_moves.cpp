// Rvalues are moved: no operation that is given an rvalue, or that only
// relocates elements whose move cannot fail, makes a copy of an element; a
// single lvalue is copied once; and elements that cannot be copied at all work.
#include "seq.hpp"
#include <cest/functional.hpp>
#include <cest/memory.hpp>
#include <cest/queue.hpp>
#include <list>
#include <deque>
#include <algorithm>
TRK_HEAP
using trk::Tok; using trk::TAlloc;
static long copies, moves;
// an element that can be copied, and says so
struct Cnt {
  Tok t;
  Cnt() : t(0) {}
  Cnt(int v) : t(v) {}
  Cnt(const Cnt &o) : t(o.t.get()) { copies++; }
  Cnt(Cnt &&o) noexcept : t(std::move(o.t)) { moves++; }
  Cnt &operator=(const Cnt &o) { copies++; t = o.t.get(); return *this; }
  Cnt &operator=(Cnt &&o) noexcept { moves++; t = std::move(o.t); return *this; }
  bool operator==(const Cnt &o) const { return t.get() == o.t.get(); }
  bool operator<(const Cnt &o) const { return t.get() < o.t.get(); }
};
// one that cannot, and owns a block
struct Only {
  Tok t; std::unique_ptr<int> p;
  Only() : t(0), p(new int(0)) {}
  Only(int v) : t(v), p(new int(v)) {}
  Only(Only &&o) noexcept : t(std::move(o.t)), p(std::move(o.p)) { moves++; }
  Only &operator=(Only &&o) noexcept { moves++; t = std::move(o.t); p = std::move(o.p); return *this; }
  bool operator==(const Only &o) const { return t.get() == o.t.get(); }
  bool operator<(const Only &o) const { return t.get() < o.t.get(); }
};
static int num(const Cnt &c) { return c.t.get(); }
static int num(const Only &o) {
  int v = o.t.get();
  if (v == Tok::moved_from ? bool(o.p) : !o.p || *o.p != v) mc::fail("an element of value %d does not own its block", v);
  return v;
}
enum { MOVED = Tok::moved_from };
static long allowed;                     // copies the current call may make
static void begin() { mc::op(); copies = 0; allowed = 0; }
static void end(const char *what) {
  if (copies != allowed) mc::fail("%s makes %ld copies of elements, not %ld", what, copies, allowed);
}
template <class C> void agree(const C &c, const Model &m, const char *what) {
  size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) {
    if (i >= m.size()) mc::fail("%s: more than %zu elements", what, m.size());
    int got = num(*it);
    if (got != m[i]) mc::fail("%s: element %zu is %d, not %d", what, i, got, m[i]);
  }
  if (i != m.size()) mc::fail("%s: %zu elements, not %zu", what, i, m.size());
  if (copies != allowed) mc::fail("reading copies elements");
}
static int next_value;
template <class T, class F> void give(F f) {                // an rvalue, and what is left of it
  int v = next_value++; T x(v); f(std::move(x));
  if (num(x) != MOVED) mc::fail("an rvalue of value %d is not moved from", v);
}
template <class T, class F> void give_temp(F f) { f(T(next_value++)); }
template <class T, class F> void show(F f) {                // an lvalue keeps its value
  if constexpr (std::is_same_v<T, Cnt>) {
    int v = next_value++; T x(v); const T &r = x; allowed++; f(r); if (num(x) != v) mc::fail("an lvalue of value %d is moved from", v);
  } else give_temp<T>(f);
}
// ---- vector ----------------------------------------------------------------
template <class T> using V = cest::vector<T, TAlloc<T>>;
template <class T> void vectors(int depth) {
  V<T> c[2]; Model m[2]; next_value = 1;
  for (int s = 0; s < depth; s++) {
    int i = mc::choose(2), j = 1 - i; V<T> &a = c[i]; Model &x = m[i]; begin();
    const char *what = "";
    switch (mc::choose(12)) {
    case 0: mc::tr(what = "push_back(rvalue)"); x.push_back(next_value); give<T>([&](T &&r) { a.push_back(std::move(r)); }); break;
    case 1: mc::tr(what = "push_back(lvalue)"); x.push_back(next_value); show<T>([&](auto &&r) { a.push_back(std::forward<decltype(r)>(r)); }); break;
    case 2: mc::tr(what = "push_back(own element as an rvalue)"); if (x.empty()) break;
      { int k = mc::choose((int)x.size()); int v = x[k]; a.push_back(std::move(a[k])); x[k] = MOVED; x.push_back(v); x[k] = next_value; a[k] = T(next_value++); } break;
    case 3: mc::tr(what = "reserve"); a.reserve(a.capacity() + 1); break;
    case 4: mc::tr(what = "resize up"); a.resize(x.size() + 2); x.resize(x.size() + 2); break;
    case 5: mc::tr(what = "resize down"); if (!x.empty()) { a.resize(x.size() - 1); x.pop_back(); } break;
    case 6: mc::tr(what = "pop_back"); if (!x.empty()) { a.pop_back(); x.pop_back(); } break;
    case 7: mc::tr(what = "move assignment"); a = std::move(c[j]); x = m[j]; m[j].clear(); c[j].clear(); break;
    case 8: mc::tr(what = "move construction, there and back"); { V<T> t(std::move(a)); agree(t, x, "a moved vector"); a.clear(); V<T> u(std::move(t)); a = std::move(u); } break;
    case 9: mc::tr(what = "swap"); a.swap(c[j]); x.swap(m[j]); break;
    case 10: mc::tr(what = "clear"); a.clear(); x.clear(); break;
    case 11: mc::tr(what = "sort and reverse"); std::sort(a.begin(), a.end()); std::reverse(a.begin(), a.end());
      std::sort(x.begin(), x.end()); std::reverse(x.begin(), x.end()); break;
    }
    end(what); agree(c[0], m[0], what); agree(c[1], m[1], what);
  }
  mc::state(hmodel(m[0], 3) * 31 + hmodel(m[1], c[0].capacity()));
}
MC_SCENARIO(vector_counted, 4, 5, 4, 16) { vectors<Cnt>(depth); }
MC_SCENARIO(vector_move_only, 4, 5, 4, 16) { vectors<Only>(depth); }
// growth over many elements
template <class T> void grow() {
  int lv = mc::choose(2), n = mc::choose_in(1, 40), r = mc::choose(40); V<T> v; Model m; next_value = 1;
  if (r) v.reserve(r);
  for (int i = 0; i < n; i++) {
    begin(); m.push_back(next_value);
    if (lv) show<T>([&](auto &&x) { v.push_back(std::forward<decltype(x)>(x)); }); else give<T>([&](T &&x) { v.push_back(std::move(x)); });
    end("push_back"); 
  }
  agree(v, m, "after growing"); mc::state(n * 100 + r + lv * 10000);
}
MC_SCENARIO(vector_growth, 0, 0, 1, 1) { if (mc::choose(2)) grow<Cnt>(); else grow<Only>(); }
// vectors of vectors, and of functions, relocate them without copying what they hold
MC_SCENARIO(vector_nested, 6, 8, 4, 8) {
  cest::vector<V<Cnt>> v; std::vector<Model> m; next_value = 1;
  for (int s = 0; s < depth; s++) {
    begin(); const char *what = "";
    switch (mc::choose(5)) {
    case 0: { mc::tr(what = "push_back(vector&&)"); int k = mc::choose(3); V<Cnt> t; Model x; for (int i = 0; i < k; i++) { x.push_back(next_value); t.push_back(Cnt(next_value++)); } v.push_back(std::move(t)); m.push_back(x); break; }
    case 1: mc::tr(what = "push_back on the last"); if (m.empty()) break; v.back().push_back(Cnt(next_value)); m.back().push_back(next_value++); break;
    case 2: mc::tr(what = "reserve"); v.reserve(v.capacity() * 2 + 1); break;
    case 3: mc::tr(what = "resize"); v.resize(m.size() + 1); m.resize(m.size() + 1); break;
    case 4: mc::tr(what = "reverse"); std::reverse(v.begin(), v.end()); std::reverse(m.begin(), m.end()); break;
    }
    end(what);
    if (v.size() != m.size()) mc::fail("%zu vectors, not %zu", v.size(), m.size());
    for (size_t i = 0; i < m.size(); i++) agree(v[i], m[i], what);
  }
  uint64_t h = 7; for (auto &x : m) h = h * 31 + hmodel(x, 1); mc::state(h);
}
// ---- deque -----------------------------------------------------------------
template <class T> using D = cest::deque<T, TAlloc<T>>;
template <class T> void deques(int depth) {
  D<T> a; Model x; next_value = 1;
  if (mc::choose(2)) for (int i = 0; i < 3; i++) { x.push_back(next_value); a.push_back(T(next_value++)); }
  for (int s = 0; s < depth; s++) {
    begin(); const char *what = "";
    switch (mc::choose(10)) {
    case 0: mc::tr(what = "push_back(rvalue)"); x.push_back(next_value); give<T>([&](T &&r) { a.push_back(std::move(r)); }); break;
    case 1: mc::tr(what = "push_front(rvalue)"); x.insert(x.begin(), next_value); give<T>([&](T &&r) { a.push_front(std::move(r)); }); break;
    case 2: mc::tr(what = "push_back(lvalue)"); x.push_back(next_value); show<T>([&](auto &&r) { a.push_back(std::forward<decltype(r)>(r)); }); break;
    case 3: mc::tr(what = "push_front(lvalue)"); x.insert(x.begin(), next_value); show<T>([&](auto &&r) { a.push_front(std::forward<decltype(r)>(r)); }); break;
    case 4: mc::tr(what = "pop_back"); if (!x.empty()) { a.pop_back(); x.pop_back(); } break;
    case 5: mc::tr(what = "pop_front"); if (!x.empty()) { a.pop_front(); x.erase(x.begin()); } break;
    case 6: case 7: { bool f = mc::choose(2); mc::tr(what = "push of own element as an rvalue"); if (x.empty()) break;
      int k = mc::choose((int)x.size()), v = x[k]; if (f) a.push_front(std::move(a[k])); else a.push_back(std::move(a[k]));
      int n = next_value++; x[k] = n; a[k + f] = T(n); x.insert(f ? x.begin() : x.end(), v); break; }
    case 8: mc::tr(what = "clear"); a.clear(); x.clear(); break;
    case 9: mc::tr(what = "sort and reverse"); std::sort(a.begin(), a.end()); std::reverse(a.begin(), a.end()); std::sort(x.begin(), x.end()); std::reverse(x.begin(), x.end()); break;
    }
    end(what); agree(a, x, what);
  }
  mc::state(hmodel(x, 5));
}
MC_SCENARIO(deque_counted, 4, 6, 4, 16) { deques<Cnt>(depth); }
MC_SCENARIO(deque_move_only, 4, 6, 4, 16) { deques<Only>(depth); }
#ifndef CEST_VERIF_CHUNK_SIZE
// ---- list, forward_list ------------------------------------------------------
template <class T> using L = cest::list<T, TAlloc<T>>;
template <class C> auto nth(C &c, int k) { auto it = c.begin(); while (k--) ++it; return it; }
template <class T> void lists(int depth) {
  L<T> a; Model x; next_value = 1;
  for (int s = 0; s < depth; s++) {
    begin(); const char *what = ""; int n = (int)x.size();
    switch (mc::choose(14)) {
    case 0: mc::tr(what = "push_back(rvalue)"); x.push_back(next_value); give<T>([&](T &&r) { a.push_back(std::move(r)); }); break;
    case 1: mc::tr(what = "push_front(rvalue)"); x.insert(x.begin(), next_value); give<T>([&](T &&r) { a.push_front(std::move(r)); }); break;
    case 2: { int k = mc::choose(n + 1); mc::tr("%s", what = "insert(position, rvalue)"); x.insert(x.begin() + k, next_value); give<T>([&](T &&r) { auto it = a.insert(nth(a, k), std::move(r)); if (num(*it) != x[k]) mc::fail("insert yields another position"); }); break; }
    case 3: { int k = mc::choose(n + 1); mc::tr("%s", what = "emplace(position, rvalue)"); x.insert(x.begin() + k, next_value); give<T>([&](T &&r) { auto it = a.emplace(nth(a, k), std::move(r)); if (num(*it) != x[k]) mc::fail("emplace yields another position"); }); break; }
    case 4: { int k = mc::choose(n + 1); mc::tr("%s", what = "emplace(position, int)"); x.insert(x.begin() + k, next_value); a.emplace(nth(a, k), next_value++); break; }
    case 5: mc::tr(what = "emplace_back(rvalue)"); x.push_back(next_value); give<T>([&](T &&r) { if (num(a.emplace_back(std::move(r))) != x.back()) mc::fail("emplace_back yields another element"); }); break;
    case 6: mc::tr(what = "emplace_front(rvalue)"); x.insert(x.begin(), next_value); give<T>([&](T &&r) { if (num(a.emplace_front(std::move(r))) != x.front()) mc::fail("emplace_front yields another element"); }); break;
    case 7: mc::tr(what = "push_back(lvalue)"); x.push_back(next_value); show<T>([&](auto &&r) { a.push_back(std::forward<decltype(r)>(r)); }); break;
    case 8: mc::tr(what = "push_front(lvalue)"); x.insert(x.begin(), next_value); show<T>([&](auto &&r) { a.push_front(std::forward<decltype(r)>(r)); }); break;
    case 9: { int k = mc::choose(n + 1); mc::tr("%s", what = "insert(position, lvalue)"); x.insert(x.begin() + k, next_value); show<T>([&](auto &&r) { a.insert(nth(a, k), std::forward<decltype(r)>(r)); }); break; }
    case 10: { int k = mc::choose(n + 1); mc::tr("%s", what = "emplace(position, lvalue)"); x.insert(x.begin() + k, next_value); show<T>([&](auto &&r) { a.emplace(nth(a, k), std::forward<decltype(r)>(r)); }); break; }
    case 11: mc::tr(what = "erase"); if (n) { int k = mc::choose(n); a.erase(nth(a, k)); x.erase(x.begin() + k); } break;
    case 12: mc::tr(what = "insertion of own element as an rvalue"); if (n) { int k = mc::choose(n), v = x[k], at = mc::choose(n + 1); auto e = nth(a, k); a.insert(nth(a, at), std::move(*e)); int f = next_value++; *e = T(f); x[k] = f; x.insert(x.begin() + at, v); } break;
    case 13: mc::tr(what = "reverse and clear or not"); std::reverse(a.begin(), a.end()); std::reverse(x.begin(), x.end()); if (mc::choose(2)) { a.clear(); x.clear(); } break;
    }
    end(what); agree(a, x, what);
    if (a.size() != x.size()) mc::fail("size %zu, not %zu", a.size(), x.size());
  }
  mc::state(hmodel(x, 6));
}
MC_SCENARIO(list_counted, 4, 5, 4, 16) { lists<Cnt>(depth); }
MC_SCENARIO(list_move_only, 4, 5, 4, 16) { lists<Only>(depth); }
template <class T> using F = cest::forward_list<T, TAlloc<T>>;
template <class T> void flists(int depth) {
  F<T> c[2]; Model m[2]; next_value = 1;
  auto at = [](F<T> &a, int k) { auto it = a.before_begin(); while (k--) ++it; return it; };
  for (int s = 0; s < depth; s++) {
    int i = mc::choose(2); F<T> &a = c[i]; Model &x = m[i]; begin(); const char *what = ""; int n = (int)x.size();
    switch (mc::choose(9)) {
    case 0: mc::tr(what = "push_front(rvalue)"); x.insert(x.begin(), next_value); give<T>([&](T &&r) { a.push_front(std::move(r)); }); break;
    case 1: { int k = mc::choose(n + 1); mc::tr("%s", what = "insert_after(position, rvalue)"); x.insert(x.begin() + k, next_value); give<T>([&](T &&r) { auto it = a.insert_after(at(a, k), std::move(r)); if (num(*it) != x[k]) mc::fail("insert_after yields another position"); }); break; }
    case 2: mc::tr(what = "push_front(lvalue)"); x.insert(x.begin(), next_value); show<T>([&](auto &&r) { a.push_front(std::forward<decltype(r)>(r)); }); break;
    case 3: { int k = mc::choose(n + 1); mc::tr("%s", what = "insert_after(position, lvalue)"); x.insert(x.begin() + k, next_value); show<T>([&](auto &&r) { a.insert_after(at(a, k), std::forward<decltype(r)>(r)); }); break; }
    case 4: mc::tr(what = "insertion of own element as an rvalue"); if (n) { int k = mc::choose(n), v = x[k], p = mc::choose(n + 1); T &e = *at(a, k + 1); a.insert_after(at(a, p), std::move(e)); int f = next_value++; e = T(f); x[k] = f; x.insert(x.begin() + p, v); } break;
    case 5: mc::tr(what = "erase_after"); if (n) { int k = mc::choose(n); a.erase_after(at(a, k)); x.erase(x.begin() + k); } break;
    case 6: mc::tr(what = "swap"); a.swap(c[1 - i]); x.swap(m[1 - i]); break;
    case 7: mc::tr(what = "pop_front"); if (n) { a.pop_front(); x.erase(x.begin()); } break;
    case 8: mc::tr(what = "clear"); a.clear(); x.clear(); break;
    }
    end(what); agree(c[0], m[0], what); agree(c[1], m[1], what);
  }
  mc::state(hmodel(m[0], 8) * 31 + hmodel(m[1], 9));
}
MC_SCENARIO(forward_list_counted, 4, 5, 4, 16) { flists<Cnt>(depth); }
MC_SCENARIO(forward_list_move_only, 4, 5, 4, 16) { flists<Only>(depth); }
#endif
// ---- queue -----------------------------------------------------------------
template <class T, class C> void queues(int depth) {
  using Q = cest::queue<T, C>; Q q; Model x; next_value = 1;
  for (int s = 0; s < depth; s++) {
    begin(); const char *what = "";
    switch (mc::choose(5)) {
    case 0: mc::tr(what = "push(rvalue)"); x.push_back(next_value); give<T>([&](T &&r) { q.push(std::move(r)); }); break;
    case 1: mc::tr(what = "push(lvalue)"); x.push_back(next_value); show<T>([&](auto &&r) { q.push(std::forward<decltype(r)>(r)); }); break;
    case 2: mc::tr(what = "pop"); if (!x.empty()) { q.pop(); x.erase(x.begin()); } break;
    case 3: mc::tr(what = "push(move(front()))"); if (x.empty()) break; { int v = x[0]; q.push(std::move(q.front())); int f = next_value++; q.front() = T(f); x[0] = f; x.push_back(v); } break;
    case 4: mc::tr(what = "pop after moving the front out"); if (x.empty()) break; { T t(std::move(q.front())); q.pop(); if (num(t) != x[0]) mc::fail("the front is %d, not %d", num(t), x[0]); x.erase(x.begin()); } break;
    }
    end(what);
    if (q.size() != x.size() || q.empty() != x.empty()) mc::fail("size %zu, not %zu", q.size(), x.size());
    if (!x.empty() && (num(q.front()) != x.front() || num(q.back()) != x.back())) mc::fail("front %d, back %d, not %d, %d", num(q.front()), num(q.back()), x.front(), x.back());
  }
  mc::state(hmodel(x, 10));
  while (!x.empty()) { if (num(q.front()) != x[0]) mc::fail("%d leaves in place of %d", num(q.front()), x[0]); q.pop(); x.erase(x.begin()); }
}
MC_SCENARIO(queue_deque_counted, 6, 8, 2, 8) { queues<Cnt, cest::deque<Cnt, TAlloc<Cnt>>>(depth); }
MC_SCENARIO(queue_deque_move_only, 6, 8, 2, 8) { queues<Only, cest::deque<Only, TAlloc<Only>>>(depth); }
#ifndef CEST_VERIF_CHUNK_SIZE
MC_SCENARIO(queue_list_counted, 6, 8, 2, 8) { queues<Cnt, cest::list<Cnt, TAlloc<Cnt>>>(depth); }
MC_SCENARIO(queue_list_move_only, 6, 8, 2, 8) { queues<Only, cest::list<Only, TAlloc<Only>>>(depth); }
MC_SCENARIO(queue_std_list, 5, 7, 2, 8) { if (mc::choose(2)) queues<Cnt, std::list<Cnt>>(depth); else queues<Only, std::list<Only>>(depth); }
// a queue takes over a container given as an rvalue
template <class T, class C> void taken() {
  int n = mc::choose(6), k = mc::choose(3); C c; for (int i = 1; i <= n; i++) c.push_back(T(i));
  begin(); cest::queue<T, C> q(std::move(c)); end("building a queue on an rvalue");
  for (int i = 0; i < k; i++) q.push(T(n + 1 + i));
  begin(); cest::queue<T, C> r(std::move(q)); end("moving a queue");
  mc::state(n * 3 + k);
  for (int i = 1; i <= n + k; i++) { if (num(r.front()) != i) mc::fail("%d leaves in place of %d", num(r.front()), i); r.pop(); }
  if (!r.empty()) mc::fail("the queue is not empty in the end");
}
MC_SCENARIO(queue_taken, 0, 0, 1, 1) {
  switch (mc::choose(4)) { case 0: taken<Cnt, std::list<Cnt>>(); break; case 1: taken<Only, std::list<Only>>(); break; case 2: taken<Cnt, std::deque<Cnt>>(); break; case 3: taken<Only, std::deque<Only>>(); break; }
}
// ---- function ----------------------------------------------------------------
struct Target { Cnt c; int operator()(Cnt a) { return num(c) * 100 + num(a); } };
struct VTarget { Cnt c; int *out; void operator()(Cnt a) { *out = num(c) * 100 + num(a); } };
MC_SCENARIO(functions, 5, 6, 4, 16) {
  using Fn = cest::function<int(Cnt)>; using Vn = cest::function<void(Cnt)>;
  { int out = 0; Fn *f[2]; Vn *g[2]; int m[2] = {1, 2}; next_value = 3;
    for (int i = 0; i < 2; i++) { begin(); f[i] = new Fn(Target{Cnt(i + 1)}); g[i] = new Vn(VTarget{Cnt(i + 1), &out}); end("building a function on an rvalue"); }
    for (int s = 0; s < depth; s++) {
      int i = mc::choose(2), j = 1 - i; begin(); const char *what = "";
      switch (mc::choose(6)) {
      case 0: mc::tr(what = "building on an rvalue"); { Target t{Cnt(next_value)}; VTarget u{Cnt(next_value), &out}; Fn *n = new Fn(std::move(t)); Vn *k = new Vn(std::move(u)); delete f[i]; delete g[i]; f[i] = n; g[i] = k; m[i] = next_value++; if (num(t.c) != MOVED || num(u.c) != MOVED) mc::fail("the target is not moved from"); } break;
      case 1: mc::tr(what = "move construction"); { Fn *n = new Fn(std::move(*f[i])); Vn *k = new Vn(std::move(*g[i])); delete f[i]; delete g[i]; f[i] = n; g[i] = k; } break;
      case 2: mc::tr(what = "swap"); std::swap(*f[0], *f[1]); std::swap(*g[0], *g[1]); std::swap(m[0], m[1]); break;
      case 3: mc::tr(what = "assignment of an rvalue target"); *f[i] = Target{Cnt(next_value)}; *g[i] = VTarget{Cnt(next_value), &out}; m[i] = next_value++; break;
      case 4: mc::tr(what = "copy assignment"); allowed = 2; *f[i] = *f[j]; *g[i] = *g[j]; m[i] = m[j]; break;
      case 5: mc::tr(what = "building on an lvalue"); { Target t{Cnt(next_value)}; const VTarget u{Cnt(next_value), &out}; allowed = 2; Fn *n = new Fn(t); Vn *k = new Vn(u); delete f[i]; delete g[i]; f[i] = n; g[i] = k; m[i] = next_value++; if (num(t.c) != m[i] || num(u.c) != m[i]) mc::fail("an lvalue target is moved from"); } break;
      }
      end(what);
      for (int k = 0; k < 2; k++) {
        begin(); int got = (*f[k])(Cnt(7)); end("a call with an rvalue"); if (got != m[k] * 100 + 7) mc::fail("function %d yields %d", k, got);
        begin(); out = 0; (*g[k])(Cnt(8)); end("a call with an rvalue"); if (out != m[k] * 100 + 8) mc::fail("function %d passes %d", k, out);
        begin(); Cnt a(9); allowed = 1; got = (*f[k])(a); end("a call with an lvalue"); if (got != m[k] * 100 + 9 || num(a) != 9) mc::fail("function %d yields %d", k, got);
      }
    }
    mc::state(m[0] * 100 + m[1]);
    for (int i = 0; i < 2; i++) { delete f[i]; delete g[i]; } }
}
// vectors of functions relocate them; arguments that cannot be copied go through
MC_SCENARIO(functions_held, 0, 0, 1, 1) {
  int n = mc::choose_in(1, 12), r = mc::choose(4); mc::state(n * 4 + r);
  { cest::vector<cest::function<int(Cnt)>> v; v.reserve(r);
    for (int i = 1; i <= n; i++) { begin(); v.push_back(Target{Cnt(i)}); end("push_back of a function"); }
    for (int i = 1; i <= n; i++) if (v[i - 1](Cnt(5)) != i * 100 + 5) mc::fail("function %d of %d yields another value", i, n); }
  { cest::function<Only(Only, Only &&, int)> f = [](Only a, Only &&b, int k) { return Only(num(a) * 100 + num(b) * 10 + k); };
    Only b(r); Only got = f(Only(n), std::move(b), 3); if (num(got) != n * 100 + r * 10 + 3) mc::fail("a function of move-only arguments yields %d", num(got)); }
  { int seen = 0; cest::function<void(Only, Only &&)> f = [&](Only a, Only &&b) { seen = num(a) * 100 + num(b); };
    f(Only(n), Only(r)); if (seen != n * 100 + r) mc::fail("a function of move-only arguments passes %d", seen); }
}
// ---- owners ------------------------------------------------------------------
struct Pairs { Cnt a; Only b; int c; Pairs(Cnt x, Only y, int z) : a(std::move(x)), b(std::move(y)), c(z) {} };
struct Refs { Cnt a; bool moved; explicit Refs(const Cnt &x) : a(num(x)), moved(false) {} explicit Refs(Cnt &&x) : a(std::move(x)), moved(true) {} };
MC_SCENARIO(owners, 0, 0, 1, 1) {
  int k = mc::choose_in(1, 5); mc::state(k); begin();
  { auto p = cest::make_unique<Pairs>(Cnt(k), Only(k + 1), k + 2); end("make_unique of rvalues"); if (num(p->a) != k || num(p->b) != k + 1 || p->c != k + 2) mc::fail("make_unique passes other arguments"); }
  { Cnt l(k); auto p = cest::make_unique<Refs>(l); if (p->moved || num(l) != k || num(p->a) != k) mc::fail("make_unique takes an lvalue for an rvalue"); auto q = cest::make_unique<Refs>(std::move(l)); if (!q->moved || num(l) != MOVED || num(q->a) != k) mc::fail("make_unique takes an rvalue for an lvalue"); end("make_unique"); }
  { auto p = cest::make_unique<Cnt>(k); auto q = std::move(p); cest::unique_ptr<Cnt> r; r = std::move(q); std::swap(r, q); end("moving unique_ptr"); if (!q || p || r || num(*q) != k) mc::fail("a moved unique_ptr holds something else"); }
  { cest::vector<cest::unique_ptr<Cnt>> v; Cnt *a[9]; for (int i = 0; i < k + 4; i++) { cest::unique_ptr<Cnt> p(new Cnt(i)); a[i] = p.get(); v.push_back(std::move(p)); if (p) mc::fail("a pushed unique_ptr keeps its object"); }
    end("vectors of unique_ptr"); for (int i = 0; i < k + 4; i++) if (v[i].get() != a[i] || num(*v[i]) != i) mc::fail("unique_ptr %d of a vector holds another object", i); }
  { cest::list<cest::unique_ptr<Cnt>> l; cest::deque<cest::unique_ptr<Cnt>> d; cest::forward_list<cest::unique_ptr<Cnt>> f; cest::queue<cest::unique_ptr<Cnt>> q;
    for (int i = 0; i < k + 4; i++) { l.push_back(cest::make_unique<Cnt>(i)); l.emplace_front(new Cnt(i)); d.push_front(cest::make_unique<Cnt>(i)); f.push_front(cest::make_unique<Cnt>(i)); q.push(cest::make_unique<Cnt>(i)); }
    end("containers of unique_ptr"); int i = 0; for (auto &p : d) if (num(*p) != k + 3 - i++) mc::fail("a deque of unique_ptr is out of order"); i = 0; for (auto &p : f) if (num(*p) != k + 3 - i++) mc::fail("a forward_list of unique_ptr is out of order");
    i = -(k + 4); for (auto &p : l) { int w = i < 0 ? -i - 1 : i; if (num(*p) != w) mc::fail("a list of unique_ptr is out of order"); i++; }
    for (i = 0; i < k + 4; i++) { auto p = std::move(q.front()); q.pop(); if (num(*p) != i) mc::fail("a queue of unique_ptr is out of order"); } }
}
#endif
MC_MAIN
