// Capacity and storage stability of vector.
#include "seq.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC; using trk::TAlloc;

// A vector, its model, the capacity it owes, and where its elements are.
template <class E, class A> struct V {
  cest::vector<E, A> v; Model m; size_t floor = 0; bool kept = true;
  struct Before { size_t cap; E *data; std::vector<E *> at; };
  Before before() { Before b{v.capacity(), v.data(), {}};
    for (size_t i = 0; i < v.size(); i++) b.at.push_back(&v[i]); return b; }
  void check() {
    if (v.size() != m.size()) mc::fail("size() is %zu, not %zu", v.size(), m.size());
    if (v.capacity() < v.size()) mc::fail("capacity() %zu is below size %zu", v.capacity(), v.size());
    if (v.capacity() < floor) mc::fail("capacity() %zu is below the %zu reserved", v.capacity(), floor);
    for (size_t i = 0; i < m.size(); i++) if (val(v[i]) != m[i]) mc::fail("[%zu] is not %d", i, m[i]);
  }
  // The first `n` elements must not have moved.
  void stable(const Before &b, size_t n, const char *op) {
    if (v.data() != b.data) mc::fail("%s within the capacity moves the storage", op);
    for (size_t i = 0; i < n; i++) {
      if (&v[i] != b.at[i]) mc::fail("%s within the capacity moves element %zu", op, i);
      if (val(*b.at[i]) != m[i]) mc::fail("%s: the pointer to element %zu denotes another value", op, i);
    }
  }
  void same_cap(const Before &b, const char *op) {
    if (v.capacity() != b.cap) mc::fail("%s changes the capacity from %zu to %zu", op, b.cap, v.capacity());
  }
};

template <class E, class A> void step(V<E, A> &x, int &next, V<E, A> *other) {
  mc::op();
  auto &v = x.v; auto &m = x.m; int n = (int)m.size();
  auto b = x.before();
  int cap = (int)b.cap;
  Menu u;
  u.add(0); u.add(1, n > 0); u.add(2); u.add(3); u.add(4); u.add(5); u.add(6);
  if (other) { u.add(7); u.add(8); u.add(9); u.add(10); }
  switch (u.pick()) {
  case 0: case 6: {
    bool r = u.n && mc::choose(2); int e = next++; mc::tr("push_back(%d) rvalue %d", e, r);
    E t(e); if (r) v.push_back(std::move(t)); else v.push_back(static_cast<const E &>(t));
    m.push_back(e);
    if (n < cap) { x.stable(b, n, "push_back"); x.same_cap(b, "push_back within the capacity"); }
    break; }
  case 1: mc::tr("pop_back()"); v.pop_back(); m.pop_back(); x.same_cap(b, "pop_back");
    x.stable(b, n - 1, "pop_back"); break;
  case 2: { int i = mc::choose_in(0, n), j = mc::choose_in(i, n); mc::tr("erase(%d,%d)", i, j);
    v.erase(v.begin() + i, v.begin() + j); m.erase(m.begin() + i, m.begin() + j);
    x.same_cap(b, "erase");
    if (v.data() != b.data) mc::fail("erase moves the storage");
    for (int k = 0; k < i; k++)
      if (&v[k] != b.at[k] || val(*b.at[k]) != m[k]) mc::fail("erase moves element %d before the range", k);
    break; }
  case 3: { int ks[6] = {0, n > 0 ? n - 1 : 0, n, n + 1, cap, cap + 1}; int k = ks[mc::choose(6)];
    mc::tr("resize(%d)", k); v.resize(k); m.resize(k, 0);
    if (k <= cap) { x.stable(b, std::min(k, n), "resize"); x.same_cap(b, "resize within the capacity"); }
    break; }
  case 4: { int ks[6] = {0, n, cap > 0 ? cap - 1 : 0, cap, cap + 1, 2 * cap + 3}; int k = ks[mc::choose(6)];
    mc::tr("reserve(%d)", k); v.reserve(k);
    if ((size_t)k > x.floor) x.floor = k;
    if (k <= cap) { x.stable(b, n, "reserve"); x.same_cap(b, "reserve within the capacity"); }
    break; }
  case 5: mc::tr("clear()"); v.clear(); m.clear(); x.same_cap(b, "clear");
    if (v.data() != b.data) mc::fail("clear moves the storage"); break;
  case 7: mc::tr("copy-assign"); v = static_cast<const decltype(x.v) &>(other->v); m = other->m; break;
  case 8: mc::tr("swap"); v.swap(other->v); m.swap(other->m); x.floor = other->floor = 0; break;
  case 9: mc::tr("move-assign"); v = std::move(other->v); m = other->m; x.floor = other->floor = 0;
    other->m.clear(); for (size_t i = 0; i < other->v.size(); i++) other->m.push_back(val(other->v[i])); break;
  case 10: { mc::tr("copy-construct and swap in"); cest::vector<E, A> t(other->v); v.swap(t); m = other->m; x.floor = 0; break; }
  }
  x.check(); if (other) other->check();
}
template <class E, class A> void hist(int depth) {
  V<E, A> x; int next = 1;
  for (int i = 0; i < depth; i++) step<E, A>(x, next, nullptr);
  mc::state(hmodel(x.m, x.v.capacity() * 64 + x.floor));
}
MC_SCENARIO(hist_int, 5, 6, 8, 16) { hist<int, std::allocator<int>>(depth); }
MC_SCENARIO(hist_tok, 5, 6, 8, 16) { hist<Tok, TAlloc<Tok>>(depth); }
MC_SCENARIO(hist_tokc, 3, 5, 1, 8) { hist<TokC, TAlloc<TokC>>(depth); }
template <class E, class A> void pair(int depth) {
  V<E, A> x, y; int next = 1;
  for (int k = 0, n = mc::choose_in(0, 2); k < n; k++) { x.v.push_back(E(next)); x.m.push_back(next++); }
  for (int k = 0, n = mc::choose_in(0, 2); k < n; k++) { y.v.push_back(E(next)); y.m.push_back(next++); }
  for (int i = 0; i < depth; i++) { bool w = mc::flip(); step<E, A>(w ? x : y, next, w ? &y : &x); }
  mc::state(hmodel(x.m, hmodel(y.m, x.v.capacity() * 64 + y.v.capacity())));
}
MC_SCENARIO(pair_tok, 3, 4, 8, 16) { pair<Tok, TAlloc<Tok>>(depth); }
MC_SCENARIO(pair_int, 3, 4, 8, 16) { pair<int, std::allocator<int>>(depth); }

// every size and every reserved amount
MC_SCENARIO(reserve_all, 0, 0, 4, 8) {
  int max = mc::thorough ? 150 : 60;
  int n = mc::choose_in(0, max), k = mc::choose_in(0, max), f = mc::choose(4);
  mc::tr("size %d, reserve(%d), then fill; way %d", n, k, f);
  V<Tok, TAlloc<Tok>> x;
  for (int i = 0; i < n; i++) { x.v.push_back(Tok(i)); x.m.push_back(i); }
  auto b = x.before(); mc::op(); x.v.reserve(k); x.floor = k; x.check();
  if ((size_t)k <= b.cap) { x.stable(b, n, "reserve"); x.same_cap(b, "reserve within the capacity"); }
  if (f == 1) { mc::op(); x.v.clear(); x.m.clear(); x.check(); }
  if (f == 2) { mc::op(); x.v.resize(n / 2); x.m.resize(n / 2); x.check(); }
  if (f == 3 && n) { mc::op(); x.v.erase(x.v.begin(), x.v.begin() + (n + 1) / 2); x.m.erase(x.m.begin(), x.m.begin() + (n + 1) / 2); x.check(); }
  for (b = x.before(); x.v.size() < b.cap;) {
    int i = (int)x.v.size(); mc::op(); x.v.push_back(Tok(i)); x.m.push_back(i);
    if (x.v.capacity() != b.cap || x.v.data() != b.data) mc::fail("appending within the capacity moves the storage");
  }
  x.stable(b, b.at.size(), "push_back");
  x.check();
  b = x.before();
  while (!x.v.empty()) { mc::op(); x.v.pop_back(); x.m.pop_back(); x.same_cap(b, "pop_back"); }
  x.check(); mc::state(x.v.capacity() * 8 + f);
}

// large vectors: what shrinks the contents keeps the storage, and it can be filled again in place
template <class E> void shrink(int max) {
  int n = pick_edge(max), how = mc::choose(5), by = mc::choose(6); cest::vector<E> v; mc::op();
  switch (how) { case 0: v.reserve(n); while ((int)v.size() < n) v.push_back(E((int)v.size())); break; case 1: v.resize(n); break; case 2: for (int i = 0; i < n; i++) v.push_back(E(i)); break; case 3: v.reserve(n); break; default: { cest::vector<E> t((size_t)n); v = t; } }
  mc::tr("%d elements, way %d, then shrunk, way %d", n, how, by); size_t cap = v.capacity(), z = v.size(); E *p = v.data(); size_t want = 0;
  if (cap < (size_t)n) mc::fail("capacity %zu below %d", cap, n);
  switch (by) {
  case 0: v.clear(); break;
  case 1: want = z / 16; v.resize(want); break;
  case 2: want = z / 2; while (v.size() > want) v.pop_back(); break;
  case 3: want = z ? 1 : 0; v.erase(v.begin() + want, v.end()); break;
  case 4: want = z ? z - 1 : 0; if (z) v.pop_back(); break;
  case 5: while (!v.empty()) v.pop_back(); break;
  }
  if (v.size() != want || v.capacity() != cap || v.data() != p) mc::fail("%zu elements shrunk to %zu (way %d): size %zu, capacity %zu instead of %zu%s", z, want, by, v.size(), v.capacity(), cap, v.data() == p ? "" : ", storage moved");
  mc::op(); while (v.size() < cap) { v.push_back(E((int)v.size())); if (v.data() != p || v.capacity() != cap) mc::fail("appending element %zu of capacity %zu moves the storage", v.size(), cap); }
  mc::op(); v.resize(want); if (v.data() != p || v.capacity() != cap) mc::fail("resize from %zu to %zu moves the storage", cap, want); v.resize(cap); if (v.data() != p) mc::fail("resize within the capacity moves the storage");
  v.reserve(cap); if (v.data() != p || v.capacity() != cap) mc::fail("reserve of the capacity moves the storage"); mc::state(mc::hash(&n, 4, how * 8 + by));
}
MC_SCENARIO(shrink_int, 0, 0, 4, 4) { shrink<int>(mc::thorough ? 1 << 19 : 1 << 16); }
MC_SCENARIO(shrink_tok, 0, 0, 2, 4) { shrink<Tok>(mc::thorough ? 16385 : 2049); }

// relocations while appending, from every starting shape
template <class E> void growth(size_t N, int starts) {
  int way = mc::choose(6), k = mc::choose_in(0, starts), rv = mc::choose(2);
  mc::tr("start way %d amount %d, then append %zu", way, k, N);
  cest::vector<E> v;
  switch (way) {
  case 0: v.reserve(k); break;
  case 1: v.resize(k); break;
  case 2: for (int i = 0; i < k; i++) v.push_back(E(i)); v.clear(); break;
  case 3: { cest::vector<E> t; for (int i = 0; i < k; i++) t.push_back(E(i)); v = static_cast<const cest::vector<E> &>(t); break; }
  case 4: { cest::vector<E> t((size_t)k); v = std::move(t); break; }
  case 5: v.resize(k); if (k) v.erase(v.begin(), v.begin() + (k + 1) / 2); break;
  }
  size_t moves = 0, n = 0;
  E *p = v.data(); size_t cap = v.capacity();
  for (; n < N;) {
    E e((int)n); if (rv) v.push_back(std::move(e)); else v.push_back(e);
    n++;
    if (v.data() != p || v.capacity() != cap) {
      moves++; p = v.data(); cap = v.capacity();
      double lim = 8; for (size_t t = n; t; t >>= 1) lim += 4;
      if (moves > lim) mc::fail("appending %zu elements relocates the contents %zu times (way %d, %d)", n, moves, way, k);
    }
  }
  mc::op(); mc::state(way * 1000 + k);
}
MC_SCENARIO(growth_int, 0, 0, 2, 4) { growth<int>(mc::thorough ? 1 << 18 : 1 << 13, mc::thorough ? 64 : 40); }
MC_SCENARIO(growth_tok, 0, 0, 2, 4) { growth<Tok>(mc::thorough ? 1 << 15 : 1 << 10, mc::thorough ? 64 : 20); }
MC_SCENARIO(growth_far, 0, 0, 2, 4) { growth<int>(mc::thorough ? 1 << 24 : 1 << 21, 2); }
MC_MAIN
