// Every container under one vocabulary, including sets, maps and strings; and
// the drivers over pairs of objects, over ledgers and over faults.
// A model is a vector<int>: the elements in order; of a map, key and value in turn.
#ifndef VERIF_PAIR_HPP
#define VERIF_PAIR_HPP
#include "seq.hpp"
#include "tree.hpp"
#include "str.hpp"

// ------------------------------- set and map ---------------------------------
template <class T_, int KEYS = 5> struct TreeAd {
  using T = T_; using C = typename T::C; using E = typename T::K;
  static constexpr const char *name = T::is_map ? "map" : "set";
  static constexpr bool has_swap = false;
  static constexpr int W = T::is_map ? 2 : 1;
  static size_t count(const Model &m) { return m.size() / W; }
  static int where(const Model &m, int k) {      // first entry not below k
    int rk = tree::rank_of<typename T::Compare>(k); size_t i = 0;
    while (i < m.size() && tree::rank_of<typename T::Compare>(m[i]) < rk) i += W;
    return (int)i;
  }
  static bool has(const Model &m, int k) {
    int i = where(m, k); return i < (int)m.size() && tree::rank_of<typename T::Compare>(m[i]) == tree::rank_of<typename T::Compare>(k);
  }
  static void note(Model &m, int k, int v) {
    if (has(m, k)) return; int i = where(m, k); m.insert(m.begin() + i, k); if (W == 2) m.insert(m.begin() + i + 1, v);
  }
  enum { INS, CLEAR, WRITE, FIND, INS_HINT, INS_NODE };
  static void insert(C &c, Model &m, int k, int v) {
    bool fresh = !has(m, k); auto r = T::put(c, k, v);
    if (r.second != fresh) mc::fail("inserting %d reports %s key", k, r.second ? "a new" : "an old");
    note(m, k, v);
    if (r.first == c.end() || T::k(r.first) != m[where(m, k)]) mc::fail("inserting %d yields another position", k);
  }
  static void grow(C &c, Model &m, int &next) { int k = next < 64 ? (next * 5) % 23 : next * 7 % 1009; mc::tr("insert %d", k); insert(c, m, k, next++); }
  static void brief(const C &c, const Model &m) { if (c.size() != count(m)) mc::fail("size() is %zu, not %zu", c.size(), count(m)); }
  static void lean_menu(Menu &u, const Model &m) { u.add(INS); u.add(CLEAR, !m.empty()); }
  static void menu(Menu &u, const C &, const Model &m) { u.add(INS); u.add(CLEAR); u.add(WRITE, T::is_map && !m.empty()); u.add(FIND); u.add(INS_HINT, !T::is_map); }
  static C *make(Model &, int &) { return new C; }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    switch (op) {
    case INS: { int k = mc::choose(KEYS), v = next++; mc::tr("insert %d", k); insert(c, m, k, v); return Cls::STRONG; }
    case CLEAR: mc::tr("clear"); c.clear(); m.clear(); return Cls::NOTHROW;
    case FIND: { int k = mc::choose(KEYS); mc::tr("find %d", k); auto f = c.find(E(k)); if ((f != c.end()) != has(m, k)) mc::fail("find(%d) is wrong", k); return Cls::STRONG; }
    case INS_HINT: if constexpr (!T::is_map) { int k = mc::choose(KEYS), h = mc::choose(2); mc::tr("insert %d with %s as the hint", k, h ? "begin" : "end"); 
      E e(k); auto it = h ? c.begin() : c.end(); auto r = c.insert(it, static_cast<const E &>(e)); note(m, k, 0); if (T::k(r) != m[where(m, k)]) mc::fail("inserting %d yields another position", k); } return Cls::STRONG;
    case WRITE: if constexpr (T::is_map) { int i = mc::choose((int)count(m)), v = next++; mc::tr("value of entry %d = %d", i, v); auto it = c.find(E(m[2 * i]));
      it->second = std::remove_cvref_t<decltype(it->second)>(v); m[2 * i + 1] = v; } return Cls::BASIC;
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) {
    Model r; size_t n = 0; for (auto it = c.begin(); it != c.end(); ++it) { if (n++ > c.size()) mc::fail("iteration goes past the last element"); r.push_back(T::k(it)); if (W == 2) r.push_back(T::v(it)); }
    if (n != c.size()) mc::fail("iteration visits %zu of %zu elements", n, c.size());
    for (size_t i = W; i < r.size(); i += W) if (!(tree::rank_of<typename T::Compare>(r[i - W]) < tree::rank_of<typename T::Compare>(r[i]))) mc::fail("iteration is not ascending");
    return r;
  }
  static void observe(C &c, const Model &m) {
    tree::Mdl d; for (size_t i = 0; i < m.size(); i += W) d.r[tree::rank_of<typename T::Compare>(m[i])] = {m[i], W == 2 ? m[i + 1] : 0};
    int hi = KEYS; for (size_t i = 0; i < m.size(); i += W) hi = std::max(hi, m[i] + 1);
    tree::observe<T>(c, d, -1, hi, false);
  }
};

// --------------------------------- string ------------------------------------
template <class Al = std::allocator<char>, int LETTERS = 2> struct StrAd {
  using S = str::Ad<char, Al>; using C = typename S::C; using E = char;
  static constexpr const char *name = "string"; static constexpr bool has_swap = false;
  static constexpr int W = 1;
  static std::string s(const Model &m) { std::string r; for (int x : m) r += (char)x; return r; }
  static Model mod(const std::string &t) { Model m; for (char x : t) m.push_back(x); return m; }
  static size_t count(const Model &) { return 0; }             // characters are not tracked
  static void grow(C &c, Model &m, int &next) { char x = 'c' + next++ % 20; c.push_back(x); m.push_back(x); }
  static void brief(const C &c, const Model &m) { if (c.size() != m.size()) mc::fail("size() is %zu, not %zu", c.size(), m.size()); }
  static void lean_menu(Menu &u, const Model &m) { u.add(S::PUSH); u.add(S::POP, !m.empty()); u.add(S::CLEAR); }
  static void menu(Menu &u, const C &, const Model &m) { S::menu(u, s(m)); }
  static C *make(Model &m, int &) { std::string t; C *c = S::make(t, LETTERS); m = mod(t); return c; }
  static Cls apply(int op, C &c, Model &m, int &) {
    std::string t = s(m);
    S::apply(op, c, t, LETTERS, 1); m = mod(t); return op == S::AS_S || op == S::AS_C || op == S::WRITE ? Cls::BASIC : Cls::STRONG;
  }
  static Model contents(const C &c) { return mod(std::string(c.begin(), c.end())); }
  static void observe(C &c, const Model &m) { S::observe(c, s(m)); }
};

template <class Ad> size_t elements(const Model &m) { if constexpr (requires { Ad::W; }) return Ad::count(m) * Ad::W; else return m.size(); }

// ---------------------------------- shapes ------------------------------------
// Puts an empty object into one of the states that differ in content, storage,
// or place in the storage.
template <class E, class A> void shape(VecAd<E, A>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim), r = mc::choose(3), p = mc::choose_in(0, n > 1 ? 1 : n);
  if (r == 1) c.reserve(n); if (r == 2) c.reserve(2 * n + 2);
  for (int i = 0; i < n; i++) { c.push_back(E(next)); m.push_back(next++); }
  for (int i = 0; i < p; i++) { c.pop_back(); m.pop_back(); }
  mc::tr("a vector of %zu, capacity %zu", c.size(), c.capacity());
}
template <class E, class A> void shape(DeqAd<E, A>, auto &c, Model &m, int &next, int lim) {
  int f = mc::choose_in(0, lim), b = mc::choose_in(0, lim), pf = mc::choose_in(0, f + b > 2 ? 2 : f + b), pb = mc::choose_in(0, f + b - pf > 2 ? 2 : f + b - pf);
  for (int i = 0; i < f; i++) { c.push_front(E(next)); m.insert(m.begin(), next++); }
  for (int i = 0; i < b; i++) { c.push_back(E(next)); m.push_back(next++); }
  for (int i = 0; i < pf; i++) { c.pop_front(); m.erase(m.begin()); }
  for (int i = 0; i < pb; i++) { c.pop_back(); m.pop_back(); }
  mc::tr("a deque: %d pushed in front, %d behind, %d popped in front, %d behind", f, b, pf, pb);
}
template <class E, class A> void shape(ListAd<E, A>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim), d = mc::choose(2);
  for (int i = 0; i < n; i++) { c.push_back(E(next)); m.push_back(next++); }
  if (d && n) { c.pop_front(); m.erase(m.begin()); }
  mc::tr("a list of %zu", m.size());
}
template <class E, class A> void shape(FwdAd<E, A>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim), d = mc::choose(2);
  for (int i = 0; i < n; i++) { c.push_front(E(next)); m.insert(m.begin(), next++); }
  if (d && n) { c.pop_front(); m.erase(m.begin()); }
  mc::tr("a forward_list of %zu", m.size());
}
template <class E, class K> void shape(QueAd<E, K>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim), p = mc::choose_in(0, n);
  for (int i = 0; i < n; i++) { c.push(E(next)); m.push_back(next++); }
  for (int i = 0; i < p; i++) { c.pop(); m.erase(m.begin()); }
  mc::tr("a queue: %d pushed, %d popped", n, p);
}
template <class T, int K> void shape(TreeAd<T, K>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim); mc::tr("a %s:", TreeAd<T, K>::name);
  for (int i = 0; i < n; i++) { int k = mc::choose(K), v = next++; mc::tr("insert %d", k); TreeAd<T, K>::insert(c, m, k, v); }
}
template <class Al, int L> void shape(StrAd<Al, L>, auto &c, Model &m, int &next, int lim) {
  int n = mc::choose_in(0, lim), r = mc::choose(3), nul = mc::choose(2);
  if (r == 1) c.reserve(n); if (r == 2) c.reserve(2 * n + 2);
  for (int i = 0; i < n; i++) { char x = nul && i == n / 2 ? 0 : 'c' + next % 20; next++; c.push_back(x); m.push_back(x); }
  mc::tr("a string of %d, capacity %zu", n, c.capacity());
}

// ------------------------------- pairs of objects ------------------------------
// Two objects in any two states; one is copied, moved or swapped into the
// other; then either is used on, while the other must not change.
template <class Ad> void ledger(const Model &a, const Model &b) {
  if constexpr (requires { Ad::E::moved_from; } || requires { typename Ad::T; })
    if (trk::tok_live != long(elements<Ad>(a) + elements<Ad>(b)))
      mc::fail("%ld elements are alive, not %zu", trk::tok_live, elements<Ad>(a) + elements<Ad>(b));
}
template <class Ad> void check_ledger(bool on, const Model &a, const Model &b) { if (on) ledger<Ad>(a, b); }
template <class Ad> void pairs(int lim, int later, bool led = false) {
  using C = typename Ad::C; Model m[2]; int next = 1; C *v[2];
  for (int i = 0; i < 2; i++) { v[i] = new C; shape(Ad{}, *v[i], m[i], next, i ? lim : lim); }
  check_ledger<Ad>(led, m[0], m[1]);
  C &src = *v[0]; mc::op(); Model &s = m[0], &t = m[1];
  switch (mc::choose(6)) {
  case 0: { mc::tr("1 is copied from 0"); C *n = new C(static_cast<const C &>(src)); Ad::observe(*v[1], t); delete v[1]; v[1] = n; t = s; break; }
  case 1: { mc::tr("1 = 0"); C &r = (*v[1] = static_cast<const C &>(src)); if (&r != v[1]) mc::fail("assignment does not return its target"); t = s; break; }
  case 2: { mc::tr("1 is moved from 0"); C *n = new C(std::move(src)); delete v[1]; v[1] = n; t = s; s = Ad::contents(src); break; }
  case 3: { mc::tr("1 = move(0)"); C &r = (*v[1] = std::move(src)); if (&r != v[1]) mc::fail("assignment does not return its target"); t = s; s = Ad::contents(src); break; }
  case 4: { mc::tr("std::swap"); std::swap(*v[0], *v[1]); s.swap(t); break; }
  case 5: { mc::tr("member swap"); if constexpr (Ad::has_swap) { v[0]->swap(*v[1]); s.swap(t); } else { mc::tr("(1 = 0, 0 = 1)"); *v[1] = static_cast<const C &>(src); t = s; *v[0] = static_cast<const C &>(*v[1]); } break; }
  }
  if (!later || led) { check_ledger<Ad>(led, m[0], m[1]); Ad::observe(*v[0], m[0]); Ad::observe(*v[1], m[1]); }
  for (int k = 0; k < later; k++) {
    int i = mc::choose(2); mc::tr("object %d:", i); Menu u; Ad::menu(u, *v[i], m[i]); Ad::apply(u.pick(), *v[i], m[i], next);
    check_ledger<Ad>(led, m[0], m[1]);
  }
  mc::state(hmodel(m[1], hmodel(m[0])));
  Ad::observe(*v[0], m[0]); Ad::observe(*v[1], m[1]);
  int f = mc::choose(2); delete v[f]; Model none; check_ledger<Ad>(led, m[1 - f], none);
  Ad::observe(*v[1 - f], m[1 - f]); Ad::grow(*v[1 - f], m[1 - f], next);
  Ad::observe(*v[1 - f], m[1 - f]); delete v[1 - f];
}
// Copies between every pair of sizes, past every growth of the storage.
template <class Ad> void sizes(int max, int step, bool far = false) {
  using C = typename Ad::C; Model m[2]; int next = 1; C *v[2];
  for (int i = 0; i < 2; i++) { v[i] = new C; int n = far ? pick_edge(max) : mc::choose_in(0, max) * (i ? step : 1); for (int k = 0; k < n; k++) Ad::grow(*v[i], m[i], next); }
  int way = mc::choose(4); mc::op(); mc::tr("way %d", way);
  switch (way) {
  case 0: *v[1] = static_cast<const C &>(*v[0]); m[1] = m[0]; break;
  case 1: { C *n = new C(static_cast<const C &>(*v[0])); delete v[1]; v[1] = n; m[1] = m[0]; break; }
  case 2: *v[1] = std::move(*v[0]); m[1] = m[0]; m[0] = Ad::contents(*v[0]); break;
  case 3: std::swap(*v[0], *v[1]); m[0].swap(m[1]); break;
  }
  Ad::observe(*v[0], m[0]); Ad::observe(*v[1], m[1]);
  int g = mc::choose(2); Ad::grow(*v[g], m[g], next); Ad::observe(*v[g], m[g]); Ad::observe(*v[1 - g], m[1 - g]);
  mc::state(hmodel(m[1], hmodel(m[0], 3)));
  delete v[g]; Ad::observe(*v[1 - g], m[1 - g]); delete v[1 - g];
}
// Every history, the ledger right after every step.
template <class Ad> void ledger_history(int depth, bool lean = false) {
  Model m, none; int next = 1; auto *c = Ad::make(m, next); ledger<Ad>(m, none);
  for (int i = 0; i < depth; i++) {
    Menu u; if (lean) Ad::lean_menu(u, m); else Ad::menu(u, *c, m);
    Ad::apply(u.pick(), *c, m, next); ledger<Ad>(m, none);
  }
  mc::state(hmodel(m, 7)); Ad::brief(*c, m); delete c; m.clear(); ledger<Ad>(m, none);
}
#endif
