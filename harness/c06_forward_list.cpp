#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TAlloc;
using FI = FwdAd<int, std::allocator<int>>; using FT = FwdAd<Tok, TAlloc<Tok>>;
MC_SCENARIO(hist_int, 5, 6, 4, 16) { history<FI>(depth); }
MC_SCENARIO(kept_tok, 5, 6, 4, 16) { kept_history<FT>(depth); }
MC_SCENARIO(two_tok, 3, 4, 8, 16) { two_objects<FT>(depth, 3); }
MC_SCENARIO(two_lean, 3, 5, 8, 16) { two_objects<FT>(depth, 2, true); }
MC_SCENARIO(kept_swaps_tok, 3, 4, 1, 2) { kept_swaps<FT>(depth, 4); }
MC_SCENARIO(kept_swaps_int, 3, 4, 1, 2) { kept_swaps<FI>(depth, 4); }
MC_SCENARIO(lean_tok, 6, 7, 4, 16) {
  FT::C c; Model m; int next = 1;
  for (int i = 0; i < depth; i++) { Menu u; FT::lean_menu(u, m); FT::apply(u.pick(), c, m, next); }
  FT::observe(c, m); mc::state(hmodel(m, 2));
}
// every position and every range of every size
MC_SCENARIO(ranges, 0, 0, 2, 4) {
  int n = mc::choose_in(0, mc::thorough ? 60 : 24), i = mc::choose_in(0, n), j = mc::choose_in(i, n), w = mc::choose(3);
  mc::tr("size %d, %d..%d way %d", n, i, j, w);
  FT::C c; Model m; int next = 1;
  for (int k = 0; k < n; k++) FT::grow(c, m, next);
  auto p = FT::at(c, i); mc::op();
  if (w == 0) { auto last = c.begin(); for (int k = 0; k < j; k++) ++last;
    auto r = c.erase_after(p, last); m.erase(m.begin() + i, m.begin() + j); FT::ret(c, r, i, "erase_after"); }
  if (w == 1) { for (int k = i; k < j; k++) { auto r = c.erase_after(p); m.erase(m.begin() + i); FT::ret(c, r, i, "erase_after"); } }
  if (w == 2) { for (int k = i; k < j; k++) { auto r = c.insert_after(p, Tok(next)); m.insert(m.begin() + k, next++); FT::ret(c, r, k, "insert_after"); p = r; } }
  FT::observe(c, m); mc::state(hmodel(m, 4));
}
// sizes around powers of two
MC_SCENARIO(far, 0, 0, 1, 2) {
  int max = mc::thorough ? 4097 : 513, n = pick_edge(max), k = pick_edge(max), way = mc::choose(4); if (k > n) k = n;
  mc::tr("size %d, position %d, way %d", n, k, way);
  FI::C c; Model m; for (int i = 0; i < n; i++) { c.push_front(i); m.push_back(i); } std::reverse(m.begin(), m.end());
  auto it = FI::at(c, k); mc::op();
  switch (way) {
  case 0: it = c.insert_after(it, -1); m.insert(m.begin() + k, -1); FI::ret(c, it, k, "insert_after"); break;
  case 1: it = c.erase_after(it, c.end()); m.resize(k); FI::ret(c, it, k, "erase_after"); break;
  case 2: { FI::C d(c); FI::observe(d, m); for (int i = 0; i < k; i++) { d.pop_front(); mc::op(); } Model md(m.begin() + k, m.end()); FI::observe(d, md); c = d; m = md; break; }
  case 3: { auto last = c.begin(); for (int i = 0; i < k; i++) ++last; it = c.erase_after(c.before_begin(), last); m.erase(m.begin(), m.begin() + k); FI::ret(c, it, 0, "erase_after"); break; }
  }
  FI::observe(c, m); mc::state(hmodel(m, 50 + way));
}
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::forward_list<cest::forward_list<int>>(); }
#endif
MC_MAIN
