#include "seq.hpp"
#include "huge.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC; using trk::TAlloc;

using VI = VecAd<int, std::allocator<int>>;
using VT = VecAd<Tok, TAlloc<Tok>>;
using VC = VecAd<TokC, TAlloc<TokC>>;

template <class Ad> void obs(typename Ad::C &c, const Model &m) { Ad::observe(c, m); }
template <class Ad> void obs_at(typename Ad::C &c, const Model &m) {   // slow: throws
  Ad::observe(c, m); Ad::observe_at(c, m);
}
MC_SCENARIO(at_int, 3, 4, 2, 8) { history<VI>(depth, obs_at<VI>); }
MC_SCENARIO(at_tok, 2, 3, 1, 8) { history<VT>(depth, obs_at<VT>); }
MC_SCENARIO(hist_int, 4, 5, 4, 8) { history<VI>(depth, obs<VI>); }
MC_SCENARIO(hist_tok, 4, 5, 4, 8) { history<VT>(depth, obs<VT>); }
MC_SCENARIO(hist_tokc, 3, 5, 1, 8) { history<VC>(depth, obs<VC>); }

// Longer histories over the operations that change the size one way or another
template <class Ad> void lean(int depth) {
  Model m; int next = 1;
  typename Ad::C c;
  for (int i = 0; i < depth; i++) {
    mc::op();
    int n = (int)m.size();
    Menu u; u.add(0); u.add(1, n > 0); u.add(2); u.add(3, n > 0); u.add(4, n > 1); u.add(5, n > 0);
    switch (u.pick()) {
    case 0: c.push_back(typename Ad::E(next)); m.push_back(next++); break;
    case 1: c.pop_back(); m.pop_back(); break;
    case 2: c.resize(n + 2); m.resize(n + 2, 0); break;
    case 3: c.erase(c.begin(), c.begin() + 1); m.erase(m.begin()); break;
    case 4: c.erase(c.begin() + 1, c.begin() + n); m.erase(m.begin() + 1, m.end()); break;
    case 5: c.resize(n - 1); m.resize(n - 1); break;
    }
  }
  mc::state(hmodel(m, 7));
  obs<Ad>(c, m);
}
MC_SCENARIO(lean_tok, 8, 10, 4, 8) { lean<VT>(depth); }

// Two vectors: copies, moves, swaps, equality
template <class Ad> void two(int depth) {
  using C = typename Ad::C; using E = typename Ad::E;
  Model m[2]; int next = 1;
  C *v[2];
  for (int i = 0; i < 2; i++) {
    v[i] = new C; int n = mc::choose_in(0, 2);
    for (int k = 0; k < n; k++) { v[i]->push_back(E(k)); m[i].push_back(k); }
  }
  for (int s = 0; s < depth; s++) {
    mc::op();
    int i = mc::choose(2), j = 1 - i; C &a = *v[i], &b = *v[j];
    Menu u; for (int k = 0; k < 8; k++) u.add(k, k != 1 || !m[i].empty());
    switch (u.pick()) {
    case 0: mc::tr("v%d.push_back(%d)", i, next); a.push_back(E(next)); m[i].push_back(next++); break;
    case 1: mc::tr("v%d.pop_back()", i); a.pop_back(); m[i].pop_back(); break;
    case 2: mc::tr("v%d = v%d", i, j); a = b; m[i] = m[j]; break;
    case 3: mc::tr("v%d = move(v%d)", i, j); a = std::move(b); m[i] = m[j]; m[j] = Ad::contents(b); break;
    case 4: mc::tr("v%d.swap(v%d)", i, j); a.swap(b); m[i].swap(m[j]); break;
    case 5: { mc::tr("v%d = vector(v%d)", i, j); C *n = new C(b); delete v[i]; v[i] = n; m[i] = m[j]; break; }
    case 6: { mc::tr("v%d = vector(move(v%d))", i, j); C *n = new C(std::move(b)); delete v[i]; v[i] = n; m[i] = m[j];
              m[j] = Ad::contents(b); break; }
    case 7: mc::tr("v%d.clear()", i); a.clear(); m[i].clear(); break;
    }
  }
  mc::state(hmodel(m[1], hmodel(m[0])));
  for (int i = 0; i < 2; i++) obs<Ad>(*v[i], m[i]);
  if ((*v[0] == *v[1]) != (m[0] == m[1]) || (*v[1] == *v[0]) != (m[0] == m[1]))
    mc::fail("== is %d for %s and %s", *v[0] == *v[1], show(m[0]).c_str(), show(m[1]).c_str());
  if ((*v[0] != *v[1]) != (m[0] != m[1])) mc::fail("!= is wrong");
  delete v[0]; delete v[1];
}
MC_SCENARIO(two_tok, 4, 5, 4, 8) { two<VT>(depth); }
MC_SCENARIO(two_int, 3, 5, 1, 8) { two<VI>(depth); }

// equality of every pair of short sequences over a small alphabet
MC_SCENARIO(equality, 0, 0, 1, 1) {
  Model a, b; cest::vector<int> x, y;
  const int al[3] = {0, -1, 0x7fffffff};
  int n = mc::choose_in(0, 4), k = mc::choose_in(0, 4);
  for (int i = 0; i < n; i++) { int e = mc::pick(al); a.push_back(e); x.push_back(e); }
  for (int i = 0; i < k; i++) { int e = mc::pick(al); b.push_back(e); y.push_back(e); }
  mc::op();
  if ((x == y) != (a == b)) mc::fail("== is %d for %s and %s", x == y, show(a).c_str(), show(b).c_str());
}

// every range of every size
template <class Ad> void erase_sweep(int max) {
  int n = mc::choose_in(0, max), i = mc::choose_in(0, n), j = mc::choose_in(i, n);
  int extra = mc::choose(2);
  mc::tr("size %d: erase(%d,%d)", n, i, j);
  typename Ad::C c; Model m;
  if (extra) c.reserve(n + 5);
  for (int k = 0; k < n; k++) { c.push_back(typename Ad::E(k)); m.push_back(k); }
  mc::op();
  auto it = c.erase(c.begin() + i, c.begin() + j);
  m.erase(m.begin() + i, m.begin() + j);
  if (it != c.begin() + i) mc::fail("erase returns the wrong position");
  Ad::observe(c, m);
  mc::state(hmodel(m));
}
MC_SCENARIO(erase_all_ranges, 0, 0, 4, 8) { erase_sweep<VT>(mc::thorough ? 60 : 34); }

// every size followed by every size
MC_SCENARIO(resize_all_pairs, 0, 0, 4, 8) {
  int max = mc::thorough ? 140 : 70;
  int n = mc::choose_in(0, max), k = mc::choose_in(0, max), way = mc::choose(3);
  mc::tr("size %d: resize(%d) way %d", n, k, way);
  VT::C c; Model m;
  if (way == 1) c.reserve(n);
  if (way == 2) { c.resize(n); m.resize(n, 0); for (int i = 0; i < n; i++) { c[i] = Tok(i + 1); m[i] = i + 1; } }
  else for (int i = 0; i < n; i++) { c.push_back(Tok(i + 1)); m.push_back(i + 1); }
  mc::op(); c.resize(k); m.resize(k, 0);
  VT::observe(c, m);
  mc::op(); c.push_back(Tok(999)); m.push_back(999);
  VT::observe(c, m); obs<VT>(c, m);
  mc::state(hmodel(m, way));
}

// assignment between every pair of sizes, with and without spare capacity
MC_SCENARIO(assign_all_pairs, 0, 0, 4, 8) {
  int max = mc::thorough ? 70 : 34;
  int n = mc::choose_in(0, max), k = mc::choose_in(0, max), spare = mc::choose(3);
  mc::tr("assign size %d to size %d, spare %d", n, k, spare);
  VT::C a, b; Model ma, mb;
  if (spare == 1) a.reserve(k + n);
  if (spare == 2) b.reserve(k + n);
  for (int i = 0; i < k; i++) { a.push_back(Tok(1000 + i)); ma.push_back(1000 + i); }
  for (int i = 0; i < n; i++) { b.push_back(Tok(i)); mb.push_back(i); }
  mc::op(); VT::C &r = (a = b);
  if (&r != &a) mc::fail("assignment does not return its target");
  VT::observe(a, mb); VT::observe(b, mb);
  mc::op(); VT::C d(a); VT::observe(d, mb);
  mc::op(); d.push_back(Tok(5)); mb.push_back(5); VT::observe(d, mb);
  mc::state(hmodel(mb, spare * 1000 + k));
}

// construction of every size
MC_SCENARIO(construct_sizes, 0, 0, 1, 1) {
  int n = mc::choose_in(0, 300), way = mc::choose(2);
  mc::tr("vector(%d) way %d", n, way);
  mc::op();
  if (way == 0) { VT::C c((size_t)n); Model m(n, 0); obs_at<VT>(c, m); c.push_back(Tok(1)); m.push_back(1); obs_at<VT>(c, m); }
  else { VT::C c((size_t)n, TAlloc<Tok>(3)); Model m(n, 0); obs_at<VT>(c, m); c.push_back(Tok(1)); m.push_back(1); obs_at<VT>(c, m); }
  mc::state(n * 2 + way);
}
// the same, at every pair of sizes around powers of two
MC_SCENARIO(far, 0, 0, 4, 8) {
  int max = mc::thorough ? 8193 : 1025, n = pick_edge(max), k = pick_edge(max), way = mc::choose(5);
  mc::tr("size %d and %d, way %d", n, k, way);
  VI::C c; Model m; for (int i = 0; i < n; i++) { c.push_back(i + 1); m.push_back(i + 1); } mc::op();
  switch (way) {
  case 0: c.resize(k); m.resize(k, 0); break;
  case 1: { VI::C b; Model mb; for (int i = 0; i < k; i++) { b.push_back(-i); mb.push_back(-i); } b = static_cast<const VI::C &>(c); VI::observe(b, m); b.push_back(3); c.clear(); m.clear(); m.push_back(4); c.push_back(4); break; }
  case 2: { int j = k < n ? k : n; auto it = c.erase(c.begin(), c.begin() + j); if (it != c.begin()) mc::fail("erase returns the wrong position"); m.erase(m.begin(), m.begin() + j); break; }
  case 3: { int j = k < n ? k : n; auto it = c.erase(c.begin() + j, c.begin() + n); if (it != c.begin() + j) mc::fail("erase returns the wrong position"); m.resize(j); break; }
  case 4: { c.reserve(k); VI::C b((size_t)k); Model mb(k, 0); VI::observe(b, mb); b.swap(c); m.swap(mb); VI::observe(b, mb); break; }
  }
  VI::observe(c, m); c.push_back(77); m.push_back(77); VI::observe(c, m); mc::state(hmodel(m, 50 + way));
}
MC_SCENARIO(kept_swaps_int, 3, 4, 1, 2) { kept_swaps<VI>(depth, 4); }
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::vector<cest::vector<int>>(); }
#endif
MC_MAIN
