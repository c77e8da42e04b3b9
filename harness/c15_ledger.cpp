#include "pair.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC; using A = trk::TAlloc<Tok>;
// far from empty: the whole vocabulary at every size around a power of two
template <class Ad> void far_ledger(int max) {
  using C = typename Ad::C; Model m, o, none; int next = 1, n = pick_edge(max), what = mc::choose(7); C *c = new C, *v = new C;
  for (int i = 0; i < n; i++) Ad::grow(*c, m, next); ledger<Ad>(m, none);
  if (what == 2 || what == 4 || what == 5) { int k = pick_edge(max); for (int i = 0; i < k; i++) Ad::grow(*v, o, next); ledger<Ad>(m, o); }
  mc::op(); mc::tr("%d elements, way %d, other of %zu", n, what, o.size());
  switch (what) {
  case 0: { Menu u; Ad::menu(u, *c, m); Ad::apply(u.pick(), *c, m, next); break; }
  case 1: { C t(static_cast<const C &>(*c)); ledger<Ad>(m, m); t = C(); ledger<Ad>(m, none); break; }
  case 2: *v = static_cast<const C &>(*c); o = m; break;
  case 3: { C t(std::move(*c)); Model was = m; m = Ad::contents(*c); ledger<Ad>(m, was); *c = std::move(t); m = was; break; }
  case 4: std::swap(*v, *c); m.swap(o); break;
  case 5: *v = std::move(*c); o = m; m = Ad::contents(*c); break;
  case 6: if constexpr (requires { c->clear(); }) { c->clear(); m.clear(); } else { *c = C(); m.clear(); } break;
  }
  if (what != 3) ledger<Ad>(m, o);
  mc::state(hmodel(o, hmodel(m, 11 + what))); Ad::brief(*c, m); Ad::grow(*c, m, next);
  if (what == 3) { Model now = Ad::contents(*c); if (now != m) mc::fail("elements got lost"); }
  else ledger<Ad>(m, o);
  delete c; ledger<Ad>(o, none); Ad::observe(*v, o); delete v; ledger<Ad>(none, none);
}
#ifdef CHUNKS
using Deq = DeqAd<Tok, A>; using QD = QueAd<Tok, cest::deque<Tok, A>>;
MC_SCENARIO(hist_deque, 5, 6, 8, 16) { ledger_history<Deq>(depth); }
MC_SCENARIO(lean_deque, 9, 10, 8, 16) { ledger_history<Deq>(depth, true); }
MC_SCENARIO(pair_deque, 0, 0, 8, 16) { pairs<Deq>(mc::thorough ? 3 : 2, mc::thorough ? 1 : 0, true); }
MC_SCENARIO(hist_queue, 6, 8, 4, 8) { ledger_history<QD>(depth); }
MC_SCENARIO(pair_queue, 0, 0, 2, 8) { pairs<QD>(mc::thorough ? 6 : 4, 1, true); }
MC_SCENARIO(far_deque, 0, 0, 2, 4) { far_ledger<Deq>(mc::thorough ? 257 : 129); }
MC_SCENARIO(far_queue, 0, 0, 2, 4) { far_ledger<QD>(mc::thorough ? 257 : 129); }
#elif defined(BIGCHUNKS)
using Deq = DeqAd<Tok, A>;
MC_SCENARIO(big_deque, 0, 0, 2, 4) {
  static const int ns[] = {0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 1536, 2047, 2048, 2049}; Model m, o, none; int next = 1; Deq::C *c = new Deq::C, *v = new Deq::C;
  int n = mc::pick(ns), side = mc::choose(3), what = mc::choose(5); mc::op(); mc::tr("%d elements, side %d, way %d", n, side, what);
  auto fill = [&next](Deq::C &d, Model &x, int n, int side) { for (int k = 0; k < n; k++) { if (side == 1 || (side == 2 && k % 2)) d.push_front(Tok(next)); else d.push_back(Tok(next)); x.push_back(next++); } x = Deq::contents(d); };
  fill(*c, m, n, side); ledger<Deq>(m, none);
  switch (what) {
  case 0: c->clear(); m.clear(); break;
  case 1: { int k = mc::pick(ns); fill(*v, o, k, 0); *v = static_cast<const Deq::C &>(*c); o = m; break; }
  case 2: { Deq::C t(static_cast<const Deq::C &>(*c)); ledger<Deq>(m, m); break; }
  case 3: while (!m.empty()) { c->pop_back(); m.pop_back(); } break;
  case 4: { size_t k = 0; while (k < m.size()) { c->pop_front(); k++; } m.clear(); break; } }
  ledger<Deq>(m, o); c->push_back(Tok(1)); c->push_front(Tok(2)); m.push_back(1); m.insert(m.begin(), 2); ledger<Deq>(m, o); Deq::observe(*c, m); delete c; Deq::observe(*v, o); delete v; ledger<Deq>(none, none); mc::state(n * 100 + side * 10 + what);
}
#else
using Vec = VecAd<Tok, A>; using VecC = VecAd<TokC, trk::TAlloc<TokC>>; using Lst = ListAd<Tok, A>; using Fwd = FwdAd<Tok, A>; using QL = QueAd<Tok, cest::list<Tok, A>>;
using Set = TreeAd<tree::SetOf<Tok, std::less<Tok>, true>, 4>; using Map = TreeAd<tree::MapOf<Tok, std::less<Tok>, true, Tok>, 3>;
using Str = StrAd<trk::TAlloc<char>, 1>;
MC_SCENARIO(hist_vector, 4, 5, 8, 16) { ledger_history<Vec>(depth); }
MC_SCENARIO(hist_vector_copied, 3, 4, 8, 16) { ledger_history<VecC>(depth); }
MC_SCENARIO(lean_vector, 6, 7, 4, 16) { ledger_history<Vec>(depth, true); }
MC_SCENARIO(hist_list, 4, 5, 8, 16) { ledger_history<Lst>(depth); }
MC_SCENARIO(hist_forward_list, 5, 6, 8, 16) { ledger_history<Fwd>(depth); }
MC_SCENARIO(hist_set, 5, 6, 4, 16) { ledger_history<Set>(depth); }
MC_SCENARIO(hist_map, 5, 6, 4, 16) { ledger_history<Map>(depth); }
MC_SCENARIO(hist_queue_list, 6, 8, 2, 8) { ledger_history<QL>(depth); }
MC_SCENARIO(hist_string, 4, 5, 8, 16) { ledger_history<Str>(depth); }
MC_SCENARIO(pair_vector, 0, 0, 4, 16) { pairs<Vec>(mc::thorough ? 3 : 2, 1, true); }
MC_SCENARIO(pair_vector_copied, 0, 0, 2, 16) { pairs<VecC>(mc::thorough ? 4 : 2, mc::thorough ? 1 : 0, true); }
MC_SCENARIO(pair_list, 0, 0, 2, 8) { pairs<Lst>(mc::thorough ? 4 : 3, 1, true); }
MC_SCENARIO(pair_forward_list, 0, 0, 2, 8) { pairs<Fwd>(mc::thorough ? 4 : 3, 1, true); }
MC_SCENARIO(pair_set, 0, 0, 4, 16) { pairs<Set>(mc::thorough ? 4 : 3, mc::thorough ? 1 : 0, true); }
MC_SCENARIO(pair_map, 0, 0, 4, 16) { pairs<Map>(mc::thorough ? 4 : 3, mc::thorough ? 1 : 0, true); }
MC_SCENARIO(pair_string, 0, 0, 2, 8) { pairs<Str>(3, 1, true); }
MC_SCENARIO(far_vector, 0, 0, 2, 8) { far_ledger<Vec>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_vector_copied, 0, 0, 2, 8) { far_ledger<VecC>(mc::thorough ? 65 : 17); }
MC_SCENARIO(far_list, 0, 0, 2, 8) { far_ledger<Lst>(mc::thorough ? 257 : 129); }
MC_SCENARIO(far_forward_list, 0, 0, 2, 8) { far_ledger<Fwd>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_queue_list, 0, 0, 2, 8) { far_ledger<QL>(mc::thorough ? 257 : 129); }
MC_SCENARIO(far_set, 0, 0, 2, 8) { far_ledger<Set>(mc::thorough ? 257 : 129); }
MC_SCENARIO(far_map, 0, 0, 2, 8) { far_ledger<Map>(mc::thorough ? 257 : 129); }
MC_SCENARIO(far_string, 0, 0, 2, 8) { far_ledger<Str>(mc::thorough ? 257 : 129); }
// every insertion order of n keys, then clear, then again
template <class Ad> void orders(int n) {
  typename Ad::C *c = new typename Ad::C; Model m, none; std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i);
  while (!left.empty()) { int j = mc::choose((int)left.size()); mc::op(); Ad::insert(*c, m, left[j], 1); Ad::insert(*c, m, left[j], 2); left.erase(left.begin() + j); ledger<Ad>(m, none); }
  mc::state(hmodel(m, 5)); if (mc::flip()) { c->clear(); m.clear(); ledger<Ad>(m, none); Ad::insert(*c, m, 1, 1); ledger<Ad>(m, none); }
  delete c; m.clear(); ledger<Ad>(m, none);
}
MC_SCENARIO(orders_set, 7, 8, 4, 16) { orders<Set>(depth); }
MC_SCENARIO(orders_map, 7, 8, 4, 16) { orders<Map>(depth); }
// allocators that are not all equal: blocks go back where they came from
MC_SCENARIO(allocators, 4, 5, 8, 16) {
  using C = cest::vector<Tok, A>; C *v[2]; Model m[2]; int next = 1;
  for (int i = 0; i < 2; i++) {
    switch (mc::choose(3)) {
    case 0: v[i] = new C(A(i + 1)); break;
    case 1: v[i] = new C((size_t)1, A(i + 1)); m[i] = {0}; break;
    default: { v[i] = new C(std::initializer_list<Tok>{Tok(next), Tok(next + 1)}, A(i + 1)); m[i] = {next, next + 1}; next += 2; } }
  }
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(8)) {
    case 0: mc::tr("%d push_back", i); v[i]->push_back(Tok(next)); m[i].push_back(next++); break;
    case 1: mc::tr("%d = %d", i, j); *v[i] = static_cast<const C &>(*v[j]); m[i] = m[j]; break;
    case 2: mc::tr("%d = move(%d)", i, j); *v[i] = std::move(*v[j]); m[i] = m[j]; m[j] = Vec::contents(*v[j]); break;
    case 3: mc::tr("%d swap %d", i, j); v[i]->swap(*v[j]); m[i].swap(m[j]); break;
    case 4: { mc::tr("%d is copied from %d", i, j); C *n = new C(static_cast<const C &>(*v[j])); delete v[i]; v[i] = n; m[i] = m[j]; break; }
    case 5: { mc::tr("%d is moved from %d", i, j); C *n = new C(std::move(*v[j])); delete v[i]; v[i] = n; m[i] = m[j]; m[j] = Vec::contents(*v[j]); break; }
    case 6: mc::tr("%d clear", i); v[i]->clear(); m[i].clear(); break;
    case 7: mc::tr("%d reserve", i); v[i]->reserve(v[i]->capacity() + 1); break;
    }
    ledger<Vec>(m[0], m[1]);
  }
  mc::state(hmodel(m[1], hmodel(m[0], 9))); Vec::observe(*v[0], m[0]); Vec::observe(*v[1], m[1]); delete v[0]; delete v[1];
}
MC_SCENARIO(allocators_string, 4, 5, 8, 16) {
  using C = Str::C; using AC = trk::TAlloc<char>; C *v[2]; std::string m[2];
  for (int i = 0; i < 2; i++) {
    switch (mc::choose(3)) {
    case 0: v[i] = new C(AC(i + 1)); break;
    case 1: v[i] = new C("ab", (size_t)2, AC(i + 1)); m[i] = "ab"; break;
    default: { str::In<char> b{"xyzxyz"}; str::In<char> e{b.p + 5}; v[i] = new C(b, e, AC(i + 1)); m[i] = "xyzxy"; } }
  }
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(7)) {
    case 0: mc::tr("%d push_back", i); v[i]->push_back('p'); m[i] += 'p'; break;
    case 1: mc::tr("%d = %d", i, j); *v[i] = static_cast<const C &>(*v[j]); m[i] = m[j]; break;
    case 2: mc::tr("%d = move(%d)", i, j); *v[i] = std::move(*v[j]); m[i] = m[j]; m[j].assign(v[j]->data(), v[j]->size()); break;
    case 3: mc::tr("%d += %d", i, j); *v[i] += *v[j]; m[i] += m[j]; break;
    case 4: { mc::tr("%d is copied from %d", i, j); C *n = new C(static_cast<const C &>(*v[j])); delete v[i]; v[i] = n; m[i] = m[j]; break; }
    case 5: mc::tr("%d = text", i); *v[i] = "some text"; m[i] = "some text"; break;
    case 6: mc::tr("%d reserve", i); v[i]->reserve(v[i]->capacity() + 3); break;
    }
  }
  mc::state(mc::hash_str(m[0].c_str()) * 31 + mc::hash_str(m[1].c_str())); Str::S::observe(*v[0], m[0]); Str::S::observe(*v[1], m[1]); delete v[0]; delete v[1];
}
#endif
MC_MAIN
