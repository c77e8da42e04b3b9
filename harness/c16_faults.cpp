// Every point at which an element operation or an allocation can fail, of every
// operation of every history: whether it fails is a choice of the explorer.
#include "pair.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC;

template <class E, class A> bool weak(VecAd<E, A>, int op) { using V = VecAd<E, A>; return op == V::RESIZE || op == V::ERASE || op == V::WRITE; }
template <class E, class A> bool weak(DeqAd<E, A>, int op) { return op == DeqAd<E, A>::WRITE; }
template <class E, class A> bool weak(ListAd<E, A>, int op) { return op == ListAd<E, A>::WRITE; }
template <class E, class A> bool weak(FwdAd<E, A>, int op) { return op == FwdAd<E, A>::WRITE; }
template <class E, class K> bool weak(QueAd<E, K>, int op) { return op == QueAd<E, K>::WRITE; }
template <class T, int K> bool weak(TreeAd<T, K>, int op) { return op == TreeAd<T, K>::WRITE; }
template <class A, int L> bool weak(StrAd<A, L>, int op) { using S = typename StrAd<A, L>::S; return op == S::AS_S || op == S::AS_C || op == S::WRITE; }
template <class Ad> constexpr bool harness_allocates = false;
template <class A, int L> constexpr bool harness_allocates<StrAd<A, L>> = true;

struct Arm {
  template <class Ad> static void on(Ad) { trk::arm_choices(); trk::heap_ticks = !harness_allocates<Ad>; }
  static void off() { trk::disarm_choices(); trk::heap_ticks = false; }
};
// a state that differs by the fault: what was done, to what, and where it failed
inline void note_fault(const Model &before, int what) { mc::state(hmodel(before, 100 + what * 1000 + trk::fault_points)); }

template <class Ad> void faults(int depth, int budget, bool lean = false) {
  Model m, none; m.reserve(128); int next = 1; using C = typename Ad::C; C *c = new C;
  trk::budget = budget;
  for (int i = 0; i < depth; i++) {
    Menu u; if (lean) Ad::lean_menu(u, m); else Ad::menu(u, *c, m);
    int op = u.pick(), keep = next; Model before; before.reserve(128); before = m; bool threw = false;
    trk::fault_hit = false; Arm::on(Ad{});
    try { Ad::apply(op, *c, m, next); } catch (trk::Fault &) { threw = true; }
    Arm::off();
    if (threw != trk::fault_hit) mc::fail(threw ? "a failure is reported that did not happen" : "a failure does not reach the caller");
    if (threw) {
      mc::tr("  ... fails at point %ld", trk::fault_points);
      note_fault(before, op); next = keep + 100;
      if (m != before) mc::internal_error("the model moved");
      if (weak(Ad{}, op)) { Model now = Ad::contents(*c); m.assign(now.begin(), now.end()); }
      Ad::observe(*c, m); ledger<Ad>(m, none);
    }
  }
  Ad::observe(*c, m); ledger<Ad>(m, none);
  Ad::grow(*c, m, next); Ad::observe(*c, m); delete c;
}
// construction, in every way
template <class Ad> void making(int budget) {
  for (int round = 0; round < 2; round++) {
    Model m, none; m.reserve(64); int next = 1; bool threw = false; typename Ad::C *c = nullptr; trk::budget = budget; trk::fault_hit = false;
    Arm::on(Ad{}); mc::op();
    try { c = Ad::make(m, next); } catch (trk::Fault &) { threw = true; } Arm::off();
    if (threw != trk::fault_hit) mc::fail("a failure does not reach the caller");
    if (threw) { mc::tr("construction fails at point %ld", trk::fault_points); note_fault(m, 70); m.clear();
      if (trk::tok_live) mc::fail("a failed construction leaves %ld elements", trk::tok_live);
      if (!trk::blocks().empty()) mc::fail("a failed construction leaves a block");
    } else { Ad::observe(*c, m); delete c; }
  }
}
// copies, between any two states
template <class Ad> void copying(int lim, int budget) {
  using C = typename Ad::C; Model m[2], none; int next = 1; C *v[2];
  for (int i = 0; i < 2; i++) { m[i].reserve(64); v[i] = new C; shape(Ad{}, *v[i], m[i], next, lim); }
  int what = mc::choose(2); bool threw = false; trk::budget = budget; trk::fault_hit = false; long live = trk::tok_live; size_t nb = trk::blocks().size(); long heap = trk::heap_live;
  mc::op(); mc::tr(what ? "1 = 0" : "1 is copied from 0"); C *n = nullptr;
  Arm::on(Ad{});
  try { if (what) *v[1] = static_cast<const C &>(*v[0]); else n = new C(static_cast<const C &>(*v[0])); } catch (trk::Fault &) { threw = true; }
  Arm::off();
  if (threw != trk::fault_hit) mc::fail("a failure does not reach the caller");
  if (threw) {
    mc::tr("  ... fails at point %ld", trk::fault_points);
    note_fault(m[0], 80 + what); 
    if (what) { m[1] = Ad::contents(*v[1]); for (int x : m[1]) if (x == Tok::moved_from) mc::fail("a failed assignment leaves a moved-from element"); }
    else if (trk::tok_live != live || trk::blocks().size() != nb || trk::heap_live != heap) mc::fail("a failed copy construction leaves something behind");
  } else if (what) m[1] = m[0];
  else { Ad::observe(*n, m[0]); delete n; }
  Ad::observe(*v[0], m[0]); Ad::observe(*v[1], m[1]); ledger<Ad>(m[0], m[1]);
  if (threw) {                           // both go on being used
    *v[1] = static_cast<const C &>(*v[0]); m[1] = m[0]; Ad::observe(*v[1], m[1]);
    Ad::grow(*v[1], m[1], next); Ad::grow(*v[0], m[0], next); Ad::observe(*v[1], m[1]); Ad::observe(*v[0], m[0]);
  }
  delete v[0]; delete v[1];
}
// far from empty: one failure, anywhere, in whatever touches all of it
template <class Ad> void far_faults(int max) {
  using C = typename Ad::C; Model m, none; m.reserve(512); int next = 1; C *c = new C; int n = pick_edge(max);
  for (int i = 0; i < n; i++) Ad::grow(*c, m, next);
  constexpr bool vec = requires { c->reserve(1); }; constexpr bool str = harness_allocates<Ad>;
  int what = mc::choose(vec && !str ? 6 : 3), k = what == 2 ? pick_edge(max) : what == 4 ? mc::choose(3) : 0; Model o; o.reserve(512); C *v = new C; if (what == 2) for (int i = 0; i < k; i++) Ad::grow(*v, o, next);
  Model before; before.reserve(512); before = m; bool threw = false, ok = true; trk::budget = 1; trk::fault_hit = false; long live = trk::tok_live, heap = trk::heap_live; size_t nb = trk::blocks().size(); C *t = nullptr; int keep = next;
  if constexpr (vec && !str) { if (what == 4 || what == 3) m.reserve(3 * n + 4); }
  mc::op(); mc::tr("%s of %d elements (%d)", what == 0 ? "growth" : what == 1 ? "a copy" : what == 2 ? "assignment" : what == 3 ? "reserve" : what == 4 ? "resize" : "erase", n, k);
  Arm::on(Ad{});
  try {
    switch (what) {
    case 0: Ad::grow(*c, m, next); break;
    case 1: t = new C(static_cast<const C &>(*c)); break;
    case 2: *v = static_cast<const C &>(*c); break;
    default: if constexpr (vec && !str) {
      if (what == 3) c->reserve(2 * n + 3);
      else if (what == 4) { int to = k == 0 ? n + 1 : k == 1 ? 2 * n + 2 : n / 2; c->resize(to); m.resize(to, 0); }
      else { c->erase(c->begin() + n / 4, c->begin() + n / 2); m.erase(m.begin() + n / 4, m.begin() + n / 2); }
    } } } catch (trk::Fault &) { threw = true; }
  Arm::off(); (void)ok;
  if (threw != trk::fault_hit) mc::fail(threw ? "a failure is reported that did not happen" : "a failure does not reach the caller");
  if (threw) {
    mc::tr("  ... fails at point %ld", trk::fault_points); note_fault(before, 300 + what); next = keep + 100;
    if (what == 0 || what == 3) { m.assign(before.begin(), before.end()); if (trk::tok_live != live) mc::fail("a failed operation leaves %ld elements too many", trk::tok_live - live); }
    if (what >= 4) { Model now = Ad::contents(*c); m.assign(now.begin(), now.end()); for (int x : m) if (x == Tok::moved_from) mc::fail("a failed operation leaves a moved-from element"); }
    if (what == 1 && (trk::tok_live != live || trk::blocks().size() != nb || trk::heap_live != heap)) mc::fail("a failed copy construction leaves something behind");
    if (what == 2) { o = Ad::contents(*v); for (int x : o) if (x == Tok::moved_from) mc::fail("a failed assignment leaves a moved-from element"); }
  } else if (what == 2) o = m;
  if (t) { Ad::observe(*t, m); delete t; }
  Ad::observe(*c, m); Ad::observe(*v, o); ledger<Ad>(m, o);
  Ad::grow(*c, m, next); Ad::observe(*c, m); if (what == 2) { Ad::grow(*v, o, next); Ad::observe(*v, o); } delete c; delete v;
}
#define BUDGET (mc::thorough ? 2 : 1)
#ifdef CHUNKS
using Deq = DeqAd<Tok, trk::TAlloc<Tok>>; using DeqC = DeqAd<TokC, trk::TAlloc<TokC>>; using QD = QueAd<Tok, cest::deque<Tok, trk::TAlloc<Tok>>>;
MC_SCENARIO(deque_, 4, 5, 8, 16) { faults<Deq>(depth, BUDGET); }
MC_SCENARIO(deque_lean, 6, 7, 8, 16) { faults<Deq>(depth, 2, true); }
MC_SCENARIO(deque_copied, 3, 4, 4, 16) { faults<DeqC>(depth, BUDGET); }
MC_SCENARIO(queue_, 4, 6, 4, 16) { faults<QD>(depth, 2); }
MC_SCENARIO(making_deque, 0, 0, 1, 1) { making<Deq>(1); }
MC_SCENARIO(making_queue, 0, 0, 1, 1) { making<QD>(1); }
MC_SCENARIO(copying_deque, 0, 0, 4, 16) { copying<Deq>(mc::thorough ? 3 : 2, 1); }
MC_SCENARIO(far_deque, 0, 0, 2, 4) { far_faults<Deq>(mc::thorough ? 65 : 17); }
#else
using V = VecAd<Tok, trk::TAlloc<Tok>>; using VC = VecAd<TokC, trk::TAlloc<TokC>>;
using L = ListAd<Tok, trk::TAlloc<Tok>>; using LC = ListAd<TokC, trk::TAlloc<TokC>>; using F = FwdAd<Tok, trk::TAlloc<Tok>>; using FC = FwdAd<TokC, trk::TAlloc<TokC>>;
using QL = QueAd<TokC, cest::list<TokC, trk::TAlloc<TokC>>>;
using S = TreeAd<tree::SetOf<Tok, std::less<Tok>, true>, 4>; using SC = TreeAd<tree::SetOf<TokC, std::less<TokC>, true>, 4>;
using M = TreeAd<tree::MapOf<Tok, std::less<Tok>, true, Tok>, 3>; using MC_ = TreeAd<tree::MapOf<TokC, std::less<TokC>, true, TokC>, 3>;
using Str = StrAd<trk::TAlloc<char>, 1>;
MC_SCENARIO(vector_, 4, 5, 8, 16) { faults<V>(depth, BUDGET); }
MC_SCENARIO(vector_lean, 5, 6, 8, 16) { faults<V>(depth, 2, true); }
MC_SCENARIO(vector_copied, 3, 4, 8, 16) { faults<VC>(depth, BUDGET); }
MC_SCENARIO(list_, 3, 4, 8, 16) { faults<L>(depth, BUDGET); }
MC_SCENARIO(list_copied, 3, 4, 8, 16) { faults<LC>(depth, BUDGET); }
MC_SCENARIO(forward_list_, 4, 5, 8, 16) { faults<F>(depth, BUDGET); }
MC_SCENARIO(forward_list_copied, 3, 4, 8, 16) { faults<FC>(depth, BUDGET); }
MC_SCENARIO(queue_list, 4, 6, 4, 16) { faults<QL>(depth, 2); }
MC_SCENARIO(set_, 4, 5, 8, 16) { faults<S>(depth, BUDGET); }
MC_SCENARIO(set_copied, 3, 4, 4, 16) { faults<SC>(depth, BUDGET); }
MC_SCENARIO(map_, 4, 5, 8, 16) { faults<M>(depth, BUDGET); }
MC_SCENARIO(map_copied, 3, 4, 4, 16) { faults<MC_>(depth, BUDGET); }
MC_SCENARIO(string_, 4, 5, 8, 16) { faults<Str>(depth, BUDGET); }
MC_SCENARIO(making_vector, 0, 0, 1, 1) { making<V>(1); }
MC_SCENARIO(making_list, 0, 0, 1, 1) { making<L>(1); }
MC_SCENARIO(making_string, 0, 0, 2, 4) { making<Str>(1); }
MC_SCENARIO(copying_vector, 0, 0, 4, 16) { copying<V>(mc::thorough ? 5 : 3, 1); }
MC_SCENARIO(copying_vector_copied, 0, 0, 4, 16) { copying<VC>(mc::thorough ? 5 : 3, 1); }
MC_SCENARIO(copying_list, 0, 0, 2, 8) { copying<L>(mc::thorough ? 6 : 4, 1); }
MC_SCENARIO(copying_forward_list, 0, 0, 2, 8) { copying<F>(mc::thorough ? 6 : 4, 1); }
MC_SCENARIO(copying_set, 0, 0, 4, 16) { copying<S>(mc::thorough ? 4 : 3, 1); }
MC_SCENARIO(copying_map, 0, 0, 4, 16) { copying<M>(mc::thorough ? 4 : 3, 1); }
MC_SCENARIO(copying_queue_list, 0, 0, 2, 8) { copying<QL>(mc::thorough ? 5 : 4, 1); }
MC_SCENARIO(copying_string, 0, 0, 2, 8) { copying<Str>(mc::thorough ? 8 : 4, 1); }
MC_SCENARIO(far_vector, 0, 0, 2, 8) { far_faults<V>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_vector_copied, 0, 0, 2, 8) { far_faults<VC>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_list, 0, 0, 2, 8) { far_faults<L>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_forward_list, 0, 0, 2, 8) { far_faults<F>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_queue_list, 0, 0, 2, 8) { far_faults<QL>(mc::thorough ? 129 : 17); }
MC_SCENARIO(far_set, 0, 0, 2, 8) { far_faults<S>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_map, 0, 0, 2, 8) { far_faults<M>(mc::thorough ? 129 : 17); }
MC_SCENARIO(far_string, 0, 0, 2, 8) { far_faults<Str>(mc::thorough ? 129 : 129); }
// every insertion order, one failure anywhere
template <class Ad> void orders(int n) {
  typename Ad::C *c = new typename Ad::C; Model m, none; m.reserve(64); std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i); trk::budget = 1;
  while (!left.empty()) {
    int j = mc::choose((int)left.size()), k = left[j]; mc::op(); Model before; before.reserve(64); before = m; bool threw = false; trk::fault_hit = false;
    mc::tr("insert %d", k); Arm::on(Ad{}); try { Ad::insert(*c, m, k, 1); } catch (trk::Fault &) { threw = true; } Arm::off();
    if (threw != trk::fault_hit) mc::fail("a failure does not reach the caller");
    if (threw) { mc::tr("  ... fails at point %ld", trk::fault_points); note_fault(before, 90 + k); Ad::observe(*c, before); m.assign(before.begin(), before.end()); ledger<Ad>(m, none); }
    else left.erase(left.begin() + j);
  }
  Ad::observe(*c, m); ledger<Ad>(m, none); delete c;
}
MC_SCENARIO(orders_set, 6, 7, 4, 16) { orders<S>(depth); }
MC_SCENARIO(orders_map, 6, 7, 4, 16) { orders<M>(depth); }
#endif
MC_MAIN
