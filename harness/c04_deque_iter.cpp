// Deque iterators, wherever the elements lie in the chunks.
#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TAlloc;
#ifndef CEST_VERIF_CHUNK_SIZE
#define CH 1024
#else
#define CH CEST_VERIF_CHUNK_SIZE
#endif
template <class Ad> void step(typename Ad::C &c, Model &m, int &next) {
  using E = typename Ad::E;
  mc::op(); Menu u; bool ne = !m.empty(); u.add(0); u.add(1); u.add(2, ne); u.add(3, ne); u.add(4, ne);
  switch (u.pick()) {
  case 0: mc::tr("push_back(%d)", next); c.push_back(E(next)); m.push_back(next++); break;
  case 1: mc::tr("push_front(%d)", next); c.push_front(E(next)); m.insert(m.begin(), next++); break;
  case 2: mc::tr("pop_back()"); c.pop_back(); m.pop_back(); break;
  case 3: mc::tr("pop_front()"); c.pop_front(); m.erase(m.begin()); break;
  case 4: mc::tr("clear()"); c.clear(); m.clear(); break;
  }
}
template <class Ad> void hist(int depth) {
  typename Ad::C c; Model m; int next = 1;
  for (int i = 0; i < depth; i++) step<Ad>(c, m, next);
  Ad::observe_iter(c, m); mc::state(hmodel(m));
}
using DI = DeqAd<int, std::allocator<int>>; using DT = DeqAd<Tok, TAlloc<Tok>>;
MC_SCENARIO(hist_int, 9, 10, 4, 16) { hist<DI>(depth); }
MC_SCENARIO(hist_tok, 6, 8, 2, 8) { hist<DT>(depth); }
// every placement: f pushes at the front, b at the back, then p, q pops
template <class Ad> void place(int max) {
  using E = typename Ad::E;
  typename Ad::C c; Model m; int next = 1;
  int f = mc::choose_in(0, max), b = mc::choose_in(0, max);
  int p = mc::choose_in(0, f + b), q = mc::choose_in(0, f + b - p);
  mc::tr("%d push_front, %d push_back, %d pop_front, %d pop_back", f, b, p, q);
  for (int k = 0; k < f; k++) { mc::op(); c.push_front(E(next)); m.insert(m.begin(), next++); }
  for (int k = 0; k < b; k++) { mc::op(); c.push_back(E(next)); m.push_back(next++); }
  for (int k = 0; k < p; k++) { mc::op(); c.pop_front(); m.erase(m.begin()); }
  for (int k = 0; k < q; k++) { mc::op(); c.pop_back(); m.pop_back(); }
  Ad::observe_iter(c, m); mc::state(hmodel(m, 5));
  if (!m.empty()) {                    // a copy's iterators are its own
    typename Ad::C k(c); Ad::observe_iter(k, m);
  }
}
// popping at an end leaves the iterators to the other elements valid
template <class Ad> void keep(int max) {
  using E = typename Ad::E; using I = typename Ad::C::iterator; using K = typename Ad::C::const_iterator;
  typename Ad::C c; Model m; int next = 1;
  int f = mc::choose_in(0, max), b = mc::choose_in(0, max), front = mc::choose(3);
  for (int k = 0; k < f; k++) { c.push_front(E(next)); m.insert(m.begin(), next++); }
  for (int k = 0; k < b; k++) { c.push_back(E(next)); m.push_back(next++); }
  mc::tr("%d at the front, %d at the back, pops way %d", f, b, front);
  std::vector<I> it; std::vector<K> ci;
  { I p = c.begin(); K q = c.cbegin(); for (size_t k = 0; k < m.size(); k++) { it.push_back(p); ci.push_back(q); if (k + 1 < m.size()) { ++p; ++q; } } }
  for (size_t lo = 0, hi = m.size(), s = 0; hi - lo > 1; s++) {
    bool fr = front == 2 ? s & 1 : front; mc::op();
    if (fr) { c.pop_front(); lo++; } else { c.pop_back(); hi--; }
    for (size_t k = lo; k < hi; k++) {
      if (val(*it[k]) != m[k] || val(*ci[k]) != m[k]) mc::fail("after a pop an iterator to another element denotes %d, not %d", val(*it[k]), m[k]);
      if (it[k] - it[lo] != ptrdiff_t(k - lo)) mc::fail("after a pop iterators differ by %td, not %zu", it[k] - it[lo], k - lo);
    }
    I p = it[lo]; for (size_t k = lo; k < hi; k++, ++p) if (!(p == it[k])) mc::fail("after a pop, stepping reaches another position");
    if (!(p == c.end())) mc::fail("after a pop, stepping does not reach end");
    if (!(it[lo] == c.begin())) mc::fail("after a pop, begin is another position");
    Ad::observe_iter(c, Model(m.begin() + lo, m.begin() + hi), false);
  }
  mc::state(hmodel(m, 6 + front));
}
#if CH <= 8
MC_SCENARIO(place_int, 0, 0, 4, 8) { place<DI>(mc::thorough ? 4 * CH + 2 : CH <= 4 ? 2 * CH + 2 : CH + 2); }
MC_SCENARIO(keep_int, 0, 0, 1, 2) { keep<DI>(mc::thorough ? 4 * CH + 2 : 2 * CH + 2); }
MC_SCENARIO(keep_tok, 0, 0, 1, 2) { keep<DT>(mc::thorough ? 3 * CH + 2 : CH + 2); }
#else
// full-size chunks, around their edges
MC_SCENARIO(edge, 2, 4, 4, 16) {
  DI::C c; Model m; int next = 1;
  static const int at[] = {0, 511, 512, 513, 1023, 1024, 1536, 1537};
  int n = mc::pick(at), way = mc::choose(3);
  mc::tr("filled with %d, way %d", n, way);
  for (int i = 0; i < n; i++)
    if (way == 0 || (way == 2 && i % 2)) { c.push_back(next); m.push_back(next++); }
    else { c.push_front(next); m.insert(m.begin(), next++); }
  for (int i = 0; i < depth; i++) step<DI>(c, m, next);
  DI::observe_iter(c, m, false); mc::state(hmodel(m, 8));
}
MC_SCENARIO(shrink, 0, 0, 2, 4) {         // a window of every small size at every place of a chunk
  int w = mc::choose_in(1, 3), o = mc::choose_in(0, mc::thorough ? 2100 : 1100), dir = mc::choose(2);
  DI::C c; Model m;
  mc::tr("window of %d at offset %d %s", w, o, dir ? "right" : "left");
  for (int i = 0; i < o + w; i++) { if (dir) c.push_back(i); else c.push_front(i); }
  for (int i = 0; i < o; i++) { if (dir) c.pop_front(); else c.pop_back(); }
  for (int i = 0; i < w; i++) { if (dir) m.push_back(o + i); else m.insert(m.begin(), o + i); }
  mc::op(); DI::observe_iter(c, m, false); mc::state(w * 10000 + o * 2 + dir);
}
#endif
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::deque_iterators<cest::deque<int>>(); }
#endif
MC_MAIN
