// Deque as a double-ended sequence, wherever its ends lie in the chunks.
#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC; using trk::TAlloc;
#ifndef CEST_VERIF_CHUNK_SIZE
#define CH 1024
#else
#define CH CEST_VERIF_CHUNK_SIZE
#endif

// Pushes and pops, with the address of every surviving element checked.
template <class E, class A> struct D {
  cest::deque<E, A> d; Model m; std::vector<const E *> at;
  void push_back(int x, bool rv = false) { mc::op(); E e(x);
    if (rv) d.push_back(std::move(e)); else d.push_back(static_cast<const E &>(e));
    m.push_back(x); at.push_back(&d.back()); }
  void push_front(int x, bool rv = false) { mc::op(); E e(x);
    if (rv) d.push_front(std::move(e)); else d.push_front(static_cast<const E &>(e));
    m.insert(m.begin(), x); at.insert(at.begin(), &d.front()); }
  void pop_back() { mc::op(); d.pop_back(); m.pop_back(); at.pop_back(); }
  void pop_front() { mc::op(); d.pop_front(); m.erase(m.begin()); at.erase(at.begin()); }
  void clear() { mc::op(); d.clear(); m.clear(); at.clear(); }
  void check() {
    DeqAd<E, A>::observe(d, m);
    for (size_t i = 0; i < at.size(); i++) {
      if (&d[i] != at[i]) mc::fail("element %zu of %zu has moved", i, m.size());
      if (val(*at[i]) != m[i]) mc::fail("the reference to element %zu denotes another value", i);
    }
  }
  void ends() {
    if (d.size() != m.size() || d.empty() != m.empty()) mc::fail("size() is %zu, not %zu", d.size(), m.size());
    if (!m.empty() && (val(d.front()) != m.front() || val(d.back()) != m.back())) mc::fail("front() or back() is wrong");
    if (!m.empty() && (&d.front() != at.front() || &d.back() != at.back())) mc::fail("an end element has moved");
  }
};
template <class E, class A> void hist(int depth, bool rv) {
  D<E, A> x; int next = 1;
  for (int i = 0; i < depth; i++) {
    Menu u; bool ne = !x.m.empty();
    u.add(0); u.add(1); u.add(2, ne); u.add(3, ne); u.add(4, ne);
    switch (u.pick()) {
    case 0: mc::tr("push_back(%d)", next); x.push_back(next++, rv); break;
    case 1: mc::tr("push_front(%d)", next); x.push_front(next++, rv); break;
    case 2: mc::tr("pop_back()"); x.pop_back(); break;
    case 3: mc::tr("pop_front()"); x.pop_front(); break;
    case 4: mc::tr("clear()"); x.clear(); break;
    }
    x.ends();
  }
  x.check(); mc::state(hmodel(x.m));
}
MC_SCENARIO(hist_int, 10, 11, 4, 16) { hist<int, std::allocator<int>>(depth, false); }
MC_SCENARIO(hist_tok, 7, 9, 2, 16) { hist<Tok, TAlloc<Tok>>(depth, true); }
// pushing or popping on an empty or not empty deque is harmless
MC_SCENARIO(pop_empty, 6, 8, 1, 4) {
  D<Tok, TAlloc<Tok>> x; int next = 1;
  for (int i = 0; i < depth; i++)
    switch (mc::choose(4)) {
    case 0: x.push_back(next++); break;
    case 1: x.push_front(next++); break;
    case 2: mc::op(); if (x.m.empty()) x.d.pop_back(); else x.pop_back(); break;
    case 3: mc::op(); if (x.m.empty()) x.d.pop_front(); else x.pop_front(); break;
    }
  x.check(); mc::state(hmodel(x.m, 3));
}
// runs: k times the same operation
template <class E, class A> void runs(int depth, int maxk) {
  D<E, A> x; int next = 1;
  for (int i = 0; i < depth; i++) {
    Menu u; bool ne = !x.m.empty(); u.add(0); u.add(1); u.add(2, ne); u.add(3, ne); u.add(4, ne);
    int op = u.pick();
    int k = op == 4 ? 1 : mc::choose_in(1, op >= 2 && (int)x.m.size() < maxk ? (int)x.m.size() : maxk);
    mc::tr("%d times %s", k, op == 0 ? "push_back" : op == 1 ? "push_front" : op == 2 ? "pop_back" : op == 3 ? "pop_front" : "clear");
    for (int j = 0; j < k; j++) {
      if (op == 0) x.push_back(next++, j & 1); else if (op == 1) x.push_front(next++, j & 1);
      else if (op == 2) x.pop_back(); else if (op == 3) x.pop_front(); else x.clear();
    }
    x.ends();
  }
  x.check(); mc::state(hmodel(x.m, 9));
}
// around the edge of a full-size chunk
void edge(int depth) {
  D<int, std::allocator<int>> x; int next = 1;
  static const int at[] = {0, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2560};
  int n = mc::pick(at), way = mc::choose(3);
  mc::tr("filled with %d, way %d", n, way);
  for (int i = 0; i < n; i++)
    if (way == 0 || (way == 2 && i % 2)) x.push_back(next++); else x.push_front(next++);
  for (int i = 0; i < depth; i++) {
    Menu u; bool ne = !x.m.empty(); u.add(0); u.add(1); u.add(2, ne); u.add(3, ne); u.add(4, ne);
    switch (u.pick()) {
    case 0: mc::tr("push_back(%d)", next); x.push_back(next++); break;
    case 1: mc::tr("push_front(%d)", next); x.push_front(next++); break;
    case 2: mc::tr("pop_back()"); x.pop_back(); break;
    case 3: mc::tr("pop_front()"); x.pop_front(); break;
    case 4: mc::tr("clear()"); x.clear(); break;
    }
    x.ends();
  }
  x.check(); mc::state(hmodel(x.m, 10));
}
// four long runs: the table of blocks grows, empties at either side, and its spare blocks are used again at the other
void tides() {
  D<int, std::allocator<int>> x; int next = 1; static const int seven[] = {0, 1, 2, 3, 5, 7, 8};
  auto len = [&](int most) { if (CH == 2) return mc::choose_in(0, most); int b = mc::pick(seven); return std::min(most, b * CH + (b ? mc::choose_in(-1, 1) : 0)); };
  int last = mc::choose(2);
  for (int i = 0; i < 4; i++) {
    bool ne = x.m.size() > 1; int op = i == 0 ? last : (last + 1 + mc::choose(3)) % 4; if (op >= 2 && !ne) return; last = op;
    int k = i == 0 ? mc::choose_in(0, CH) : len(op >= 2 ? (int)x.m.size() - 1 : 8 * CH); if (i && !k) return; mc::tr("%d times %s", k, op == 0 ? "push_back" : op == 1 ? "push_front" : op == 2 ? "pop_back" : "pop_front");
    for (int j = 0; j < k; j++) if (op == 0) x.push_back(next++); else if (op == 1) x.push_front(next++); else if (op == 2) x.pop_back(); else x.pop_front();
    if (i > 1) x.check(); mc::state(hmodel(x.m, i));
  }
}
#if CH <= 8
MC_SCENARIO(tides_, 0, 0, 8, 8) { tides(); }
MC_SCENARIO(runs_int, 3, 4, 4, 16) { runs<int, std::allocator<int>>(depth, 2 * CH + 1); }
MC_SCENARIO(runs_tok, 3, 4, 2, 16) { runs<Tok, TAlloc<Tok>>(depth, 2 * CH + 1); }
#else
MC_SCENARIO(edge_int, 4, 6, 4, 16) { edge(depth); }
#endif

// two deques: copies and assignments from every shape to every shape
template <class Ad> void two(int depth) {
  using C = typename Ad::C; using E = typename Ad::E;
  C *v[2]; Model m[2]; int next = 1;
  for (int i = 0; i < 2; i++) {
    int f = mc::choose_in(0, CH <= 3 ? CH + 1 : 2), b = mc::choose_in(0, CH <= 3 ? CH + 1 : 2);
    mc::tr("d%d: %d push_front, %d push_back", i, f, b);
    v[i] = new C;
    for (int k = 0; k < f; k++) { v[i]->push_front(E(next)); m[i].insert(m[i].begin(), next++); }
    for (int k = 0; k < b; k++) { v[i]->push_back(E(next)); m[i].push_back(next++); }
  }
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i; C &a = *v[i], &b = *v[j];
    Menu u; bool ne = !m[i].empty();
    u.add(0); u.add(1); u.add(2, ne); u.add(3, ne); u.add(4); u.add(5); u.add(6); u.add(7); u.add(8);
    switch (u.pick()) {
    case 0: mc::tr("d%d.push_back", i); a.push_back(E(next)); m[i].push_back(next++); break;
    case 1: mc::tr("d%d.push_front", i); a.push_front(E(next)); m[i].insert(m[i].begin(), next++); break;
    case 2: mc::tr("d%d.pop_back", i); a.pop_back(); m[i].pop_back(); break;
    case 3: mc::tr("d%d.pop_front", i); a.pop_front(); m[i].erase(m[i].begin()); break;
    case 4: mc::tr("d%d = d%d", i, j); a = b; m[i] = m[j]; break;
    case 5: { mc::tr("d%d = deque(d%d)", i, j); C *n = new C(b); delete v[i]; v[i] = n; m[i] = m[j]; break; }
    case 6: mc::tr("d%d.clear", i); a.clear(); m[i].clear(); break;
    case 7: { mc::tr("d%d = deque(move(d%d))", i, j); C *n = new C(std::move(b)); delete v[i]; v[i] = n; m[i] = m[j]; m[j] = Ad::contents(b); break; }
    case 8: mc::tr("d%d = move(d%d)", i, j); a = std::move(b); m[i] = m[j]; m[j] = Ad::contents(b); break;
    }
  }
  for (int i = 0; i < 2; i++) Ad::observe(*v[i], m[i]);
  mc::state(hmodel(m[1], hmodel(m[0])));
  delete v[0]; delete v[1];
}
MC_SCENARIO(two_tok, 2, 3, 2, 16) { two<DeqAd<Tok, TAlloc<Tok>>>(depth); }
// the whole vocabulary, constructors included
MC_SCENARIO(vocab_tok, 4, 5, 2, 8) { history<DeqAd<Tok, TAlloc<Tok>>>(depth); }
MC_SCENARIO(vocab_int, 4, 5, 2, 8) { history<DeqAd<int, std::allocator<int>>>(depth); }
// long: sizes through many chunks and back, and a window sliding through many
MC_SCENARIO(long_walk, 0, 0, 1, 1) {
  int N = CH * 9 + 3, up = mc::choose(3), down = mc::choose(3);
  mc::tr("%d up way %d, down way %d", N, up, down);
  D<int, std::allocator<int>> x;
  for (int i = 0; i < N; i++) { bool b = up == 2 ? i & 1 : up; if (b) x.push_back(i); else x.push_front(i); x.ends(); }
  x.check();
  for (int i = 0; i < N; i++) { bool b = down == 2 ? i & 1 : down; if (b) x.pop_back(); else x.pop_front(); x.ends(); if (i % CH == 0) x.check(); }
  x.check(); x.push_back(1); x.push_front(2); x.check(); mc::state(up * 3 + down);
}
MC_SCENARIO(window, 0, 0, 1, 1) {
  int w = mc::choose_in(1, CH <= 8 ? 2 * CH + 1 : 3), dir = mc::choose(2);
  D<int, std::allocator<int>> x; int N = CH * 5;
  for (int i = 0; i < w; i++) { if (dir) x.push_back(i); else x.push_front(i); }
  for (int i = 0; i < N; i++) {
    if (dir) { x.push_back(i); x.pop_front(); } else { x.push_front(i); x.pop_back(); }
    x.ends(); if (CH <= 8 || i % 64 == 0) x.check();
  }
  x.check(); mc::state(100 + w * 2 + dir);
}
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::deque<cest::deque<int>>(); }
#endif
MC_MAIN
