#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TAlloc;
#ifndef CEST_VERIF_CHUNK_SIZE
#define CH 1024
#else
#define CH CEST_VERIF_CHUNK_SIZE
#endif
using QD = QueAd<int, cest::deque<int>>; using QDT = QueAd<Tok, cest::deque<Tok, TAlloc<Tok>>>;
using QL = QueAd<int, cest::list<int>>;  using QLT = QueAd<Tok, cest::list<Tok, TAlloc<Tok>>>;
using QDef = QueAd<int, cest::queue<int>::container_type>;
template <class Ad> void hist(int depth) {
  history<Ad>(depth, [](auto &c, const Model &m) {
    Ad::observe(c, m); same(Ad::contents(c), m, "a copy of the queue"); Ad::observe_drain(c, m); });
}
MC_SCENARIO(hist_deque, 6, 8, 2, 8) { hist<QD>(depth); }
MC_SCENARIO(hist_deque_tok, 5, 7, 2, 8) { hist<QDT>(depth); }
MC_SCENARIO(hist_list, 6, 8, 2, 8) { hist<QL>(depth); }
MC_SCENARIO(hist_list_tok, 5, 7, 2, 8) { hist<QLT>(depth); }
MC_SCENARIO(two_deque, 3, 4, 4, 8) { two_objects<QDT>(depth, CH <= 3 ? 4 : 2); }
MC_SCENARIO(two_list, 3, 4, 2, 8) { two_objects<QLT>(depth, 2); }
// runs of pushes and pops, through many chunks
template <class Ad> void runs(int depth, int maxk) {
  typename Ad::C c; Model m; int next = 1;
  for (int i = 0; i < depth; i++) {
    bool pop = i & 1;                             // runs of pushes and of pops in turn
    int k = mc::choose_in(0, pop && (int)m.size() < maxk ? (int)m.size() : maxk);
    mc::tr("%d times %s", k, pop ? "pop" : "push");
    for (int j = 0; j < k; j++) { mc::op(); if (pop) { c.pop(); m.erase(m.begin()); } else Ad::grow(c, m, next); Ad::observe(c, m); }
  }
  Ad::observe(c, m); mc::state(hmodel(m, 4)); same(Ad::contents(c), m, "a copy of the queue"); Ad::observe_drain(c, m);
}
#if CH <= 8
MC_SCENARIO(runs_deque, 5, 6, 4, 8) { runs<QDT>(depth, CH + 2); }
#else
MC_SCENARIO(runs_list, 5, 6, 4, 8) { runs<QLT>(depth, 5); }
// full-size chunks: every window length around half and whole chunks, slid through several chunks
MC_SCENARIO(slide, 0, 0, 4, 8) {
  static const int at[] = {1, 2, 510, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2049};
  int w = mc::pick(at), list = mc::choose(2);
  mc::tr("window of %d over a %s", w, list ? "list" : "deque");
  QD::C d; QL::C l;
  for (int i = 0; i < w + 3200; i++) {
    mc::op(); d.push(i); l.push(i);
    if (i >= w) { mc::op(); d.pop(); l.pop(); }
    int f = i >= w ? i - w + 1 : 0; size_t n = i - f + 1;
    if (list ? (l.front() != f || l.back() != i || l.size() != n || l.empty()) : (d.front() != f || d.back() != i || d.size() != n || d.empty()))
      mc::fail("after %d pushes with a window of %d: front %d, back %d, size %zu", i + 1, w, list ? l.front() : d.front(), list ? l.back() : d.back(), list ? l.size() : d.size());
  }
  mc::state(w * 2 + list);
  for (int i = 3200; i < w + 3200; i++) { mc::op(); if (list ? l.front() != i : d.front() != i) mc::fail("%d does not leave in its turn", i); if (list) l.pop(); else d.pop(); }
  if (list ? !l.empty() : !d.empty()) mc::fail("the queue is not empty in the end");
}
#endif
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_deque, 0, 0, 1, 2) { huge::queue<cest::queue<int>>(); }
MC_SCENARIO(huge_list, 0, 0, 1, 2) { huge::queue<cest::queue<int, cest::list<int>>>(); }
#endif
MC_MAIN
