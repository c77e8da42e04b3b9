#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TAlloc;
using LI = ListAd<int, std::allocator<int>>; using LT = ListAd<Tok, TAlloc<Tok>>;
MC_SCENARIO(hist_int, 4, 6, 4, 16) { history<LI>(depth); }
MC_SCENARIO(kept_tok, 5, 6, 8, 16) { kept_history<LT>(depth); }
MC_SCENARIO(two_tok, 3, 4, 8, 16) { two_objects<LT>(depth, 2); }
MC_SCENARIO(two_lean, 4, 6, 8, 16) { two_objects<LT>(depth, 1, true); }
// longer histories over a smaller vocabulary
MC_SCENARIO(lean_tok, 7, 9, 4, 16) {
  LT::C c; Model m; int next = 1;
  for (int i = 0; i < depth; i++) { Menu u; LT::lean_menu(u, m); LT::apply(u.pick(), c, m, next); }
  LT::observe(c, m); mc::state(hmodel(m, 2));
}
MC_SCENARIO(ends_tok, 9, 11, 2, 16) {
  LT::C c; Model m; int next = 1;
  for (int i = 0; i < depth; i++) {
    Menu u; bool ne = !m.empty(); u.add(LT::PUSH_B); u.add(LT::PUSH_F); u.add(LT::POP_B, ne); u.add(LT::POP_F, ne);
    LT::apply(u.pick(), c, m, next);
  }
  LT::observe(c, m); mc::state(hmodel(m, 3));
}
// one insertion, erasure at every position of every size; ranges of erasures while iterating
MC_SCENARIO(sizes, 0, 0, 1, 2) {
  int n = mc::choose_in(0, mc::thorough ? 100 : 40), i = mc::choose_in(0, n), w = mc::choose(3);
  mc::tr("size %d position %d way %d", n, i, w);
  LT::C c; Model m; int next = 1;
  for (int k = 0; k < n; k++) LT::grow(c, m, next);
  auto it = LT::at(c, i); mc::op();
  if (w == 0) { it = c.insert(it, Tok(9999)); m.insert(m.begin() + i, 9999); LT::ret(c, it, i, m.size(), "insert"); }
  if (w == 1 && i < n) { it = c.erase(it); m.erase(m.begin() + i); LT::ret(c, it, i, m.size(), "erase"); }
  if (w == 2) { while (!(it == c.end())) { it = c.erase(it); mc::op(); } m.resize(i); }
  LT::observe(c, m); mc::state(hmodel(m, 4));
}
// sizes around powers of two: ends, the middle, copies
MC_SCENARIO(far, 0, 0, 1, 2) {
  int max = mc::thorough ? 4097 : 513, n = pick_edge(max), k = pick_edge(max), way = mc::choose(5); if (k > n) k = n;
  mc::tr("size %d, position %d, way %d", n, k, way);
  LI::C c; Model m; for (int i = 0; i < n; i++) { if (way & 1) { c.push_front(i); m.push_back(i); } else { c.push_back(i); m.push_back(i); } } if (way & 1) std::reverse(m.begin(), m.end());
  auto it = LI::at(c, k); mc::op();
  switch (way) {
  case 0: case 1: it = c.insert(it, -1); m.insert(m.begin() + k, -1); LI::ret(c, it, k, m.size(), "insert"); break;
  case 2: while (!(it == c.end())) { it = c.erase(it); mc::op(); } m.resize(k); break;
  case 3: { LI::C d(c); LI::observe(d, m); for (int i = 0; i < k; i++) { d.pop_front(); mc::op(); } Model md(m.begin() + k, m.end()); LI::observe(d, md); c = d; m = md; break; }
  case 4: for (int i = 0; i < k; i++) { c.pop_back(); mc::op(); } m.resize(n - k); break;
  }
  LI::observe(c, m); mc::state(hmodel(m, 50 + way));
}
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::list<cest::list<int>>(); }
#endif
MC_MAIN
