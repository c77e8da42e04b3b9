// set and map under one vocabulary. Model: the keys in order; and the values.
#ifndef VERIF_TREE_HPP
#define VERIF_TREE_HPP
#include "seq.hpp"
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <map>

namespace tree {

inline int key(int k) { return k; }
inline int key(long k) { return (int)k; }
template <unsigned M> int key(const trk::BasicTok<M> &k) { return k.get(); }
template <class T> auto key(const T &k) -> decltype(int(k.kv())) { return k.kv(); }

// keys with an equality that says nothing about the order
struct AllEq { int k; AllEq(int k) : k(k) {} int kv() const { return k; }
  friend bool operator<(const AllEq &a, const AllEq &b) { return a.k < b.k; }
  friend bool operator==(const AllEq &, const AllEq &) { return true; } };
struct NeverEq { int k; NeverEq(int k) : k(k) {} int kv() const { return k; }
  friend bool operator<(const NeverEq &a, const NeverEq &b) { return a.k < b.k; }
  friend bool operator==(const NeverEq &, const NeverEq &) { return false; } };
struct NoEq { int k; NoEq(int k) : k(k) {} int kv() const { return k; }
  friend bool operator<(const NoEq &a, const NoEq &b) { return a.k < b.k; } };
// equality coarser than the order, and an address-of that lies
struct HalfEq { int k; HalfEq(int k) : k(k) {} int kv() const { return k; }
  friend bool operator<(const HalfEq &a, const HalfEq &b) { return a.k < b.k; }
  friend bool operator==(const HalfEq &a, const HalfEq &b) { return a.k / 2 == b.k / 2; } };

struct Desc { template <class A, class B> bool operator()(const A &a, const B &b) const { return key(a) > key(b); }
  static int rank(int k) { return -k; } };
struct Half { template <class A, class B> bool operator()(const A &a, const B &b) const { return fl(key(a)) < fl(key(b)); }
  static int fl(int k) { return k >= 0 ? k / 2 : -((1 - k) / 2); }
  static int rank(int k) { return fl(k); } };
struct Mod { template <class A, class B> bool operator()(const A &a, const B &b) const { return rank(key(a)) < rank(key(b)); }
  static int rank(int k) { return ((k % 3) + 3) % 3; } };
template <class C> int rank_of(int k) { if constexpr (requires { C::rank(k); }) return C::rank(k); else return k; }

// a stand-in: comparable with a key, without being one
struct Probe { int k; int kv() const { return k; } 
  template <class K> friend bool operator<(const Probe &a, const K &b) { return a.k < key(b); }
  template <class K> friend bool operator<(const K &a, const Probe &b) requires (!std::is_same_v<K, Probe>) { return key(a) < b.k; } };

struct Mdl {                              // rank -> (key, value)
  std::map<int, std::pair<int, int>> r;
  Model flat() const { Model m; for (auto &p : r) { m.push_back(p.second.first); m.push_back(p.second.second); } return m; }
  bool operator==(const Mdl &) const = default;
};

template <class Key, class Cmp = std::less<Key>, bool Tracked = false>
struct SetOf {
  static constexpr bool is_map = false;
  using A = std::conditional_t<Tracked, trk::TAlloc<Key>, std::allocator<Key>>;
  using C = cest::set<Key, Cmp, A>; using K = Key; using Compare = Cmp;
  static auto put(C &c, int k, int) { return c.insert(Key(k)); }
  template <class I> static int k(I i) { return key(*i); }
  template <class I> static int v(I) { return 0; }
};
template <class Key, class Cmp = std::less<Key>, bool Tracked = false, class Val = int>
struct MapOf {
  static constexpr bool is_map = true;
  using P = std::pair<const Key, Val>;
  using A = std::conditional_t<Tracked, trk::TAlloc<P>, std::allocator<P>>;
  using C = cest::map<Key, Val, Cmp, A>; using K = Key; using Compare = Cmp;
  static auto put(C &c, int k, int v) { return c.insert(P(Key(k), Val(v))); }
  template <class I> static int k(I i) { return key(i->first); }
  template <class I> static int v(I i) { return val(i->second); }
};

// Insert, check what it reports, and update the model.
template <class T> bool put(typename T::C &c, Mdl &m, int k, int v) {
  mc::op(); mc::tr("insert %d%s%s", k, T::is_map ? " -> " : "", T::is_map ? std::to_string(v).c_str() : "");
  auto r = T::put(c, k, v);
  int rk = rank_of<typename T::Compare>(k);
  bool fresh = !m.r.count(rk);
  if (r.second != fresh) mc::fail("inserting %d reports %s key", k, r.second ? "a new" : "an old");
  if (fresh) m.r[rk] = {k, T::is_map ? v : 0};
  if (r.first == c.end()) mc::fail("inserting %d yields end", k);
  if (T::k(r.first) != m.r[rk].first) mc::fail("inserting %d yields the position of %d", k, T::k(r.first));
  if (T::v(r.first) != m.r[rk].second) mc::fail("inserting %d yields an entry with value %d, not %d", k, T::v(r.first), m.r[rk].second);
  if (c.size() != m.r.size()) mc::fail("size() is %zu, not %zu", c.size(), m.r.size());
  return fresh;
}
template <class T, class I, class E, class M> void walk_from(I it, E end, const Mdl &m, M from, const char *how) {
  for (auto p = from; p != m.r.end(); ++p) {
    if (it == end) mc::fail("%s ends before %d", how, p->second.first);
    if (T::k(it) != p->second.first) mc::fail("%s visits %d instead of %d", how, T::k(it), p->second.first);
    if (T::v(it) != p->second.second) mc::fail("%s finds value %d at %d instead of %d", how, T::v(it), T::k(it), p->second.second);
    auto was = it, old = it++;
    if (!(old == was) || old != was) mc::fail("%s: post-increment does not return the old position", how);
    auto pre = was; auto &ref = ++pre;
    if (&ref != &pre || !(pre == it) || pre != it) mc::fail("%s: pre- and post-increment differ", how);
  }
  if (it != end || !(it == end)) mc::fail("%s does not end at end", how);
}
// `it` is where `from` is; step back to the first entry.
template <class T, class I, class M> void walk_back(I it, I begin, const Mdl &m, M from, const char *how) {
  for (auto p = from; p != m.r.begin();) {
    --p; if (it == begin) mc::fail("%s reaches begin before %d", how, p->second.first);
    auto was = it, old = it--;
    if (!(old == was)) mc::fail("%s: post-decrement does not return the old position", how);
    auto pre = was; auto &ref = --pre;
    if (&ref != &pre || !(pre == it)) mc::fail("%s: pre- and post-decrement differ", how);
    if (T::k(it) != p->second.first) mc::fail("%s visits %d instead of %d", how, T::k(it), p->second.first);
    if (T::v(it) != p->second.second) mc::fail("%s finds value %d at %d instead of %d", how, T::v(it), T::k(it), p->second.second);
    auto again = it; ++again; if (!(again == was)) mc::fail("%s: increment does not undo decrement", how);
  }
  if (!(it == begin)) mc::fail("%s does not end at begin", how);
}
// Everything a caller can see. `lo..hi`: the keys looked up. `all`: iterate from every key.
template <class T> void observe(typename T::C &c, const Mdl &m, int lo, int hi, bool all = true) {
  using C = typename T::C; using K = typename T::K; const C &k = c;
  if (k.size() != m.r.size()) mc::fail("size() is %zu, not %zu", k.size(), m.r.size());
  if (k.empty() != m.r.empty()) mc::fail("empty() is wrong");
  walk_from<T>(c.begin(), c.cend(), m, m.r.begin(), "iteration");
  walk_from<T>(k.begin(), k.end(), m, m.r.begin(), "const iteration");
  walk_from<T>(k.cbegin(), k.cend(), m, m.r.begin(), "c-iteration");
  walk_back<T>(k.end(), k.begin(), m, m.r.end(), "const iteration backwards");
  walk_back<T>(typename C::const_iterator(c.end()), k.cbegin(), m, m.r.end(), "iteration backwards");
  if (!all && !m.r.empty()) {            // the iterators find yields, from the first entry and back
    int x = m.r.begin()->second.first;
    auto f = c.find(K(x)); auto g = k.find(K(x));
    if (f == c.end() || g == k.end()) mc::fail("find(%d) misses it", x);
    walk_from<T>(f, c.end(), m, m.r.begin(), "iteration from the first key");
    walk_from<T>(g, k.end(), m, m.r.begin(), "const iteration from the first key");
    walk_back<T>(c.end(), f, m, m.r.end(), "iteration backwards to the first key");
    walk_back<T>(k.end(), g, m, m.r.end(), "const iteration backwards to the first key");
  }
  for (int x = lo; x <= hi; x++) {
    auto p = m.r.find(rank_of<typename T::Compare>(x));
    auto f = c.find(K(x)); auto g = k.find(K(x));
    bool in = p != m.r.end();
    if ((f != c.end()) != in || (g != k.end()) != in) mc::fail("find(%d) %s", x, in ? "misses it" : "finds what was not inserted");
    if (!in) continue;
    if (T::k(f) != p->second.first || T::k(g) != p->second.first) mc::fail("find(%d) yields %d", x, T::k(f));
    if (T::v(f) != p->second.second || T::v(g) != p->second.second) mc::fail("find(%d) yields value %d, not %d", x, T::v(f), p->second.second);
    if (all) { walk_from<T>(f, c.end(), m, p, "iteration from a key"); walk_from<T>(g, k.end(), m, p, "const iteration from a key"); walk_back<T>(g, k.begin(), m, p, "const iteration backwards from a key"); }
    if (all && !m.r.empty()) { auto e = c.end(); for (auto q = m.r.end(); q != p;) { --q; --e; if (T::k(e) != q->second.first) mc::fail("stepping back from end visits %d instead of %d", T::k(e), q->second.first); } if (!(e == f)) mc::fail("stepping back from end misses a key"); }
  }
}
template <class T> void observe_probe(typename T::C &c, const Mdl &m, int lo, int hi) {
  const typename T::C &k = c;
  for (int x = lo; x <= hi; x++) {
    auto p = m.r.find(rank_of<typename T::Compare>(x)); bool in = p != m.r.end();
    auto f = c.find(Probe{x}); auto g = k.find(Probe{x});
    if ((f != c.end()) != in || (g != k.end()) != in) mc::fail("find(stand-in for %d) %s", x, in ? "misses it" : "finds what was not inserted");
    if (in && (T::k(f) != p->second.first || T::k(g) != p->second.first)) mc::fail("find(stand-in for %d) yields %d", x, T::k(f));
  }
}
inline uint64_t hm(const Mdl &m, uint64_t h = 1) { return hmodel(m.flat(), h); }

// two_objects' adapter
template <class T, int KEYS> struct Ad {
  using C = typename T::C;
  static constexpr bool has_swap = false;
  static Mdl &mirror(const C &c) { static std::map<const void *, Mdl> m; return m[&c]; }
};

// An order of n keys built from a repeated word of relative moves.
inline std::vector<int> relative_order(const std::vector<int> &word, int n) {
  std::vector<int> order;                // order[rank] = time of insertion
  int last = 0;
  for (int t = 0; t < n; t++) {
    int sz = (int)order.size(), at = 0;
    switch (t == 0 ? 0 : word[t % word.size()]) {
    case 0: at = sz; break;              // above all
    case 1: at = 0; break;               // below all
    case 2: at = last + 1; break;        // just above the last one
    case 3: at = last; break;            // just below the last one
    case 4: at = sz / 2; break;          // in the middle
    case 5: at = sz > 1 ? 1 : sz; break; // just above the least
    }
    if (t == 0) at = 0;
    order.insert(order.begin() + at, t); last = at;
  }
  std::vector<int> keys(n);
  for (int r = 0; r < n; r++) keys[order[r]] = r;
  return keys;                           // keys[t]: the t-th key to insert
}
constexpr int MOVES = 6;

} // namespace tree
#endif
