// Standard algorithms over the library's containers, against the same algorithms over the standard library's.
#include "seq.hpp"
#include "str.hpp"
#include <cest/algorithm.hpp>
#include <cest/numeric.hpp>
#include <cest/iterator.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/string.hpp>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
TRK_HEAP
// Everything an algorithm reports goes into a log; iterators as positions.
struct Log { std::vector<long> v; void operator()(long x) { v.push_back(x); } };
static std::string show(const Log &l) { std::string s = "["; for (long x : l.v) s += std::to_string(x) + " "; return s + "]"; }
template <class I> long pos(I b, I e, I x) { long k = 0; for (I i = b; k < 10000; ++i, ++k) { if (i == x) return k; if (i == e) return -1; } return -2; }
template <class T> long num(const T &t) { if constexpr (requires { t.second; }) return t.first * 100 + t.second; else return val(t); }
template <class P> int key(const P &p) { if constexpr (requires { p.second; }) return p.first; else return val(p); }

// ------- algorithms that only read, by the category of iterator -------
constexpr int NREAD = 46;
template <class I, class J, class Mk> void reading(int a, I b, I e, J b2, J e2, Mk mk, Log &L) {
  using V = std::remove_cvref_t<decltype(*b)>;
  auto P = [&](I x) { L(pos(b, e, x)); }; auto P2 = [&](J x) { L(pos(b2, e2, x)); };
  auto odd = [](const V &x) { return key(x) & 1; }; auto lt = [](const V &x, const V &y) { return key(x) < key(y); }; auto eq = [](const V &x, const V &y) { return key(x) == key(y); };
  auto big = [](const V &x) { return key(x) < 2; };
  V v2 = mk(2); auto out = [&] { return std::vector<V>(); }; auto O = [&](const std::vector<V> &o) { L(o.size()); for (auto &x : o) L(num(x)); };
  std::vector<V> o, o2;
  bool s1 = std::is_sorted(b, e, lt), s2 = std::is_sorted(b2, e2, lt);
  switch (a) {
  case 0: P(cest::find(b, e, v2)); break;
  case 1: P(cest::find_if(b, e, odd)); P(cest::find_if_not(b, e, odd)); break;
  case 2: L(cest::count(b, e, v2)); L(cest::count_if(b, e, odd)); break;
  case 3: L(cest::all_of(b, e, odd)); L(cest::any_of(b, e, odd)); L(cest::none_of(b, e, odd)); break;
  case 4: P(cest::adjacent_find(b, e)); P(cest::adjacent_find(b, e, lt)); break;
  case 5: { auto r = cest::mismatch(b, e, b2, e2); P(r.first); P2(r.second); break; }
  case 6: L(cest::equal(b, e, b2, e2)); break;
  case 7: L(cest::is_permutation(b, e, b2, e2)); break;
  case 8: P(cest::search(b, e, b2, e2)); break;
  case 9: P(cest::find_end(b, e, b2, e2)); break;
  case 10: P(cest::find_first_of(b, e, b2, e2)); break;
  case 11: P(cest::search_n(b, e, 2, v2)); break;
  case 12: cest::copy(b, e, cest::back_inserter(o)); O(o); break;
  case 13: cest::copy_if(b, e, cest::back_inserter(o), odd); O(o); break;
  case 14: cest::copy_n(b, std::distance(b, e), cest::back_inserter(o)); O(o); break;
  case 15: cest::transform(b, e, cest::back_inserter(o), [&](const V &x) { return mk(key(x) + 1); }); O(o); break;
  case 16: if (std::distance(b, e) <= std::distance(b2, e2)) { cest::transform(b, e, b2, cest::back_inserter(o), [&](const V &x, const V &y) { return mk(key(x) * 4 + key(y)); }); O(o); } break;
  case 17: cest::replace_copy_if(b, e, cest::back_inserter(o), odd, v2); O(o); break;
  case 18: cest::remove_copy_if(b, e, cest::back_inserter(o), odd); O(o); break;
  case 19: cest::remove_copy(b, e, cest::back_inserter(o), v2); O(o); break;
  case 20: cest::unique_copy(b, e, cest::back_inserter(o)); O(o); break;
  case 21: cest::partition_copy(b, e, cest::back_inserter(o), cest::back_inserter(o2), odd); O(o); O(o2); break;
  case 22: L(cest::is_partitioned(b, e, odd)); break;
  case 23: if (std::is_partitioned(b, e, big)) P(cest::partition_point(b, e, big)); break;
  case 24: L(cest::is_sorted(b, e, lt)); P(cest::is_sorted_until(b, e, lt)); break;
  case 25: if (s1) P(cest::lower_bound(b, e, v2, lt)); break;
  case 26: if (s1) P(cest::upper_bound(b, e, v2, lt)); break;
  case 27: if (s1) { L(cest::binary_search(b, e, v2, lt)); auto r = std::equal_range(b, e, v2, lt); P(r.first); P(r.second); } break;
  case 28: if (s1 && s2) { cest::merge(b, e, b2, e2, cest::back_inserter(o), lt); O(o); } break;
  case 29: if (s1 && s2) { cest::set_union(b, e, b2, e2, cest::back_inserter(o), lt); O(o); } break;
  case 30: if (s1 && s2) { cest::set_intersection(b, e, b2, e2, cest::back_inserter(o), lt); O(o); } break;
  case 31: if (s1 && s2) { cest::set_difference(b, e, b2, e2, cest::back_inserter(o), lt); O(o); } break;
  case 32: if (s1 && s2) { cest::set_symmetric_difference(b, e, b2, e2, cest::back_inserter(o), lt); O(o); } break;
  case 33: if (s1 && s2) L(cest::includes(b, e, b2, e2, lt)); break;
  case 34: P(cest::min_element(b, e, lt)); P(cest::max_element(b, e, lt)); { auto r = cest::minmax_element(b, e, lt); P(r.first); P(r.second); } break;
  case 35: L(cest::lexicographical_compare(b, e, b2, e2, lt)); L(cest::lexicographical_compare(b2, e2, b, e, lt)); break;
  case 36: L(cest::accumulate(b, e, 7L, [](long s, const V &x) { return s * 3 + num(x); })); break;
  case 37: L(std::distance(b, e)); break;
  case 38: for (long k = 0, n = std::distance(b, e); k <= n; k++) { I i = std::next(b, k); P(i); I j = b; std::advance(j, k); L(i == j); } break;
  case 39: { long s = 0; cest::for_each(b, e, [&](const V &x) { s = s * 5 + num(x); }); L(s); break; }
  case 40: { long k = 0; for (I i = b; !(i == e) && k < 99; k++) { L(num(*i++)); } L(k); break; }
  case 41: cest::rotate_copy(b, std::next(b, (std::distance(b, e) + 1) / 2), e, cest::back_inserter(o)); O(o); break;
  case 42: { std::vector<V> p(b, e); O(p); std::list<V> q(b, e); L(q.size()); break; }
  case 43: { I i = b, j = i; if (i != e) { ++j; L(i == j); L(i != j); i = j; L(i == j); L(num(*b)); } break; }
  case 44: L(cest::inner_product(b, e, b, 0L, std::plus<>(), [](const V &x, const V &y) { return num(x) * num(y); })); break;
  case 45: { std::vector<long> p; cest::transform(b, e, std::back_inserter(p), [](const V &x) { return num(x); }); cest::partial_sum(p.begin(), p.end(), p.begin()); for (long x : p) L(x); break; }
  }
}
constexpr int NREV = 6;
template <class I, class Mk> void reversing(int a, I b, I e, Mk mk, Log &L) {
  using V = std::remove_cvref_t<decltype(*b)>; V v2 = mk(2); std::vector<V> o; auto O = [&] { L(o.size()); for (auto &x : o) L(num(x)); };
  auto rb = std::make_reverse_iterator(e), re = std::make_reverse_iterator(b);
  switch (a) {
  case 0: cest::reverse_copy(b, e, cest::back_inserter(o)); O(); break;
  case 1: cest::copy(rb, re, cest::back_inserter(o)); O(); break;
  case 2: L(pos(b, e, cest::find(rb, re, v2).base())); break;
  case 3: for (long k = 0, n = std::distance(b, e); k <= n; k++) L(pos(b, e, std::prev(e, k))); break;
  case 4: { I i = e; long k = 0; while (!(i == b) && k++ < 99) { I j = i--; L(num(*i)); I t = i; L(++t == j); } break; }
  case 5: { I i = e; long k = 0; while (!(i == b) && k++ < 99) { --i; L(num(*i)); } break; }
  }
}
constexpr int NJUMP = 7;
template <class I, class Mk> void jumping(int a, I b, I e, Mk mk, Log &L) {      // random access: distances and jumps both ways
  using V = std::remove_cvref_t<decltype(*b)>; long n = std::distance(b, e); std::vector<V> o; auto rb = std::make_reverse_iterator(e), re = std::make_reverse_iterator(b);
  switch (a) {
  case 0: L(std::distance(e, b)); for (long k = 0; k <= n; k++) { I i = std::next(b, k); L(std::distance(i, b)); L(std::distance(e, i)); L(i - e); L(b - i); } break;
  case 1: for (long k = 0; k <= n; k++) { I i = std::next(e, -k); L(pos(b, e, i)); i = std::prev(b, -k); L(pos(b, e, i)); i = e; std::advance(i, -k); L(pos(b, e, i)); i = e; i -= k; L(pos(b, e, i)); L(i == e - k); } break;
  case 2: for (long k = 0; k <= n; k++) for (long j = 0; j <= n; j++) { I x = b + k, y = b + j; L((x < y) * 32 + (x > y) * 16 + (x <= y) * 8 + (x >= y) * 4 + (x == y) * 2 + (x != y)); } break;
  case 3: for (long k = 0; k < n; k++) { L(num(b[k])); L(num(e[-1 - k])); L(num(rb[k])); L(num(*(rb + k))); L(num(*(re - 1 - k))); } break;
  case 4: L(re - rb); L(rb - re); L(rb < re || n == 0); L(re < rb); for (long k = 0; k <= n; k++) { auto r = rb + k; L(r - re); L(re - r); L(r <= rb); } break;
  case 5: { auto i = std::lower_bound(rb, re, mk(2), [](const V &x, const V &y) { return key(x) > key(y); }); if (std::is_sorted(b, e, [](const V &x, const V &y) { return key(x) < key(y); })) L(i - rb); break; }
  case 6: { long d = 0; for (I i = e; i > b;) { i -= 1; d = d * 3 + num(*i); } L(d); if constexpr (std::random_access_iterator<I>) { L(std::ranges::distance(b, e)); L(n ? num(*std::ranges::prev(e, n)) : 0); L(pos(b, e, std::ranges::next(e, -n))); } break; }
  }
}
// ------- algorithms that write -------
constexpr int NWRITE = 20;
template <class I, class J, class Mk> void writing(int a, I b, I e, J b2, J e2, int k, Mk mk, Log &L) {
  using V = std::remove_cvref_t<decltype(*b)>;
  auto P = [&](I x) { L(pos(b, e, x)); }; auto odd = [](const V &x) { return key(x) & 1; }; V v1 = mk(1), v2 = mk(2), v9 = mk(9); I mid = std::next(b, k);
  long n = std::distance(b, e), n2 = std::distance(b2, e2);
  switch (a) {
  case 0: P(cest::remove(b, e, v2)); break;                     // what lies past the returned position is unspecified
  case 1: P(cest::remove_if(b, e, odd)); break;
  case 2: P(cest::unique(b, e)); break;
  case 3: cest::replace(b, e, v2, v9); break;
  case 4: cest::replace_if(b, e, odd, v9); break;
  case 5: P(cest::rotate(b, mid, e)); break;
  case 6: { I p = cest::partition(b, e, odd); P(p); L(std::is_partitioned(b, e, odd)); break; }
  case 7: cest::fill(b, e, v9); break;
  case 8: cest::fill_n(b, k, v9); break;
  case 9: { int c = 0; cest::generate(b, e, [&] { return mk(c++); }); break; }
  case 10: { int c = 4; cest::generate_n(b, k, [&] { return mk(c++); }); break; }
  case 11: if (n2 <= n) P(cest::copy(b2, e2, b)); break;
  case 12: if (n2 <= n) L(std::distance(b, cest::swap_ranges(b2, e2, b))); break;
  case 13: P(cest::transform(b, e, b, [&](const V &x) { return mk(key(x) * 2 + 1); })); break;
  case 14: if (n2 <= n) P(cest::move(b2, e2, b)); break;
  case 15: if (n > 0) { I l = b; for (I i = b; i != e; ++i) l = i; cest::iter_swap(b, l); } break;
  case 16: if (n2 <= n) P(cest::merge(b2, b2, b2, e2, b, [](const V &x, const V &y) { return key(x) < key(y); })); break;
  case 17: { int c = 1; for (I i = b; !(i == e); ++i) *i = mk(key(*i) + c++); break; }
  case 18: { int c = 1; for (I i = b; !(i == e);) *i++ = mk(c++); break; }
  case 19: P(cest::stable_partition(b, e, odd)); break;
  }
  (void)v1;
}
constexpr int NWBI = 7;
template <class I, class Mk> void writing_back(int a, I b, I e, int k, Mk mk, Log &L) {
  using V = std::remove_cvref_t<decltype(*b)>; auto lt = [](const V &x, const V &y) { return key(x) < key(y); }; long n = std::distance(b, e); I mid = std::next(b, k);
  switch (a) {
  case 0: cest::reverse(b, e); break;
  case 1: if (k > 0) L(pos(b, e, cest::copy_backward(b, std::next(b, n - k), e))); break;
  case 2: L(cest::next_permutation(b, e, lt)); break;
  case 3: L(cest::prev_permutation(b, e, lt)); break;
  case 4: if (std::is_sorted(b, mid, lt) && std::is_sorted(mid, e, lt)) cest::inplace_merge(b, mid, e, lt); break;
  case 5: if (k > 0) L(pos(b, e, cest::move_backward(b, std::next(b, n - k), e))); break;
  case 6: cest::rotate(std::make_reverse_iterator(e), std::make_reverse_iterator(mid), std::make_reverse_iterator(b)); break;
  }
}
constexpr int NRAND = 9;
template <class I, class Mk> void sorting(int a, I b, I e, int k, Mk mk, Log &L) {
  using V = std::remove_cvref_t<decltype(*b)>; auto lt = [](const V &x, const V &y) { return key(x) < key(y); }; auto gt = [](const V &x, const V &y) { return key(x) > key(y); };
  switch (a) {
  case 0: cest::sort(b, e, lt); break; case 1: cest::stable_sort(b, e, gt); break; case 2: cest::sort(b, e, gt); break;
  case 3: cest::partial_sort(b, b + k, e, lt); for (int i = 0; i < k; i++) L(num(b[i])); cest::sort(b, e, lt); break;
  case 4: if (b + k != e) { cest::nth_element(b, b + k, e, lt); L(num(b[k])); } cest::sort(b, e, lt); break;
  case 5: cest::make_heap(b, e, lt); L(cest::is_heap(b, e, lt)); cest::sort_heap(b, e, lt); break;
  case 6: cest::make_heap(b, e, lt); if (b != e) { cest::pop_heap(b, e, lt); L(num(*(e - 1))); cest::push_heap(b, e, lt); L(num(*b)); } cest::sort(b, e, lt); break;
  case 7: L(cest::is_heap_until(b, e, lt) - b); break;
  case 8: cest::sort(std::make_reverse_iterator(e), std::make_reverse_iterator(b), lt); break;
  }
}
// ------- how to fill and read each container -------
template <class C> void fill(C &c, const std::vector<int> &v) {
  using V = typename C::value_type;
  if constexpr (requires { c.push_back(V(1)); }) for (int x : v) c.push_back(V(x));
  else if constexpr (requires { typename C::mapped_type; } || requires { c.begin()->second; }) for (int x : v) c.insert(V(x, x * 3 % 7));
  else if constexpr (requires { c.push_front(V(1)); }) for (size_t i = v.size(); i-- > 0;) c.push_front(V(v[i]));
  else for (int x : v) c.insert(V(x));
}
template <class C> Model flat(const C &c) { Model m; for (auto i = c.begin(); !(i == c.end()); ++i) { m.push_back((int)num(*i)); if (m.size() > 100000) mc::fail("iteration does not end"); } return m; }
template <class V> struct MkV { V operator()(int k) const { return V(k); } };
template <class A, class B> struct MkV<std::pair<A, B>> { std::pair<A, B> operator()(int k) const { return {k, k * 3 % 7}; } };
template <class V> struct Plain { using T = std::remove_const_t<V>; };
template <class A, class B> struct Plain<std::pair<const A, B>> { using T = std::pair<const A, B>; };
static std::vector<int> some(int max, int letters, int lo = 1) { std::vector<int> v; int n = mc::choose_in(0, max); for (int i = 0; i < n; i++) v.push_back(lo + mc::choose(letters)); return v; }
static void equalLogs(const Log &a, const Log &b, const char *what, int alg, const std::vector<int> &v, const std::vector<int> &w) {
  if (a.v != b.v) mc::fail("%s algorithm %d on %s with %s reports %s, not %s", what, alg, ::show(v).c_str(), ::show(w).c_str(), show(a).c_str(), show(b).c_str());
}
static uint64_t hs(const std::vector<int> &v, const std::vector<int> &w, int a) { return hmodel(w, hmodel(v, a)); }
enum { FWD, BIDI, RAND };
// C: the library's container, S: the standard one whose iterators are of the same kind
template <class C, class S, int cat> void read_all(const char *name, int max, int letters, int max2, bool offset = false) {
  using V = typename C::value_type; MkV<V> mk; std::vector<int> v = some(max, letters); int a = mc::choose(NREAD + (cat >= BIDI ? NREV : 0) + (cat >= RAND ? NJUMP : 0)); bool two = a < NREAD && ((a >= 5 && a <= 10) || a == 16 || (a >= 28 && a <= 33) || a == 35);
  std::vector<int> w = two ? some(max2, letters) : std::vector<int>{}; int form = mc::choose(2);
  mc::tr("%s of %s and %s, algorithm %d, %s", name, ::show(v).c_str(), ::show(w).c_str(), a, form ? "constant" : "mutable"); mc::op();
  C c, d; S s, t;
  if constexpr (requires { c.push_front(mk(1)); c.push_back(mk(1)); }) if (offset) { int f = mc::choose(4); for (int i = 0; i < f; i++) { c.push_front(mk(1)); c.push_back(mk(2)); } for (int i = 0; i < f; i++) { c.pop_back(); c.pop_front(); } for (int i = 0; i < f; i++) c.push_back(mk(1)); for (int i = 0; i < f; i++) c.pop_front(); }
  fill(c, v); fill(d, w); fill(s, v); fill(t, w); Log L, K; const C &cc = c, &cd = d; const S &cs = s, &ct = t;
  if (a < NREAD) {
    if (form) { reading(a, cc.begin(), cc.end(), cd.begin(), cd.end(), mk, L); reading(a, cs.begin(), cs.end(), ct.begin(), ct.end(), mk, K); }
    else if constexpr (requires { c.cbegin(); }) { reading(a, c.cbegin(), c.cend(), d.cbegin(), d.cend(), mk, L); reading(a, s.cbegin(), s.cend(), t.cbegin(), t.cend(), mk, K);
      if constexpr (std::is_same_v<decltype(c.begin()), decltype(c.end())>) { Log M; reading(a, c.begin(), c.end(), d.begin(), d.end(), mk, M); equalLogs(M, K, name, a, v, w); } }
  } else if (a >= NREAD + NREV) { if constexpr (cat >= RAND) { int j = a - NREAD - NREV; if (form) { jumping(j, cc.begin(), cc.end(), mk, L); jumping(j, cs.begin(), cs.end(), mk, K); } else { jumping(j, c.begin(), decltype(c.begin())(c.end()), mk, L); jumping(j, s.begin(), s.end(), mk, K); } }
  } else if constexpr (cat >= BIDI) { if (form) { reversing(a - NREAD, cc.begin(), cc.end(), mk, L); reversing(a - NREAD, cs.begin(), cs.end(), mk, K); } else { reversing(a - NREAD, c.begin(), decltype(c.begin())(c.end()), mk, L); reversing(a - NREAD, s.begin(), s.end(), mk, K); } }
  equalLogs(L, K, name, a, v, w); Model m = flat(s); same(flat(c), m, name); mc::state(hs(v, w, a));
}
template <class C, class S, int cat> void write_all(const char *name, int max, int letters, int max2, bool offset = false) {
  using V = typename C::value_type; MkV<V> mk; std::vector<int> v = some(max, letters); int n = (int)v.size();
  int a = mc::choose(NWRITE + (cat >= BIDI ? NWBI : 0) + (cat >= RAND ? NRAND : 0)), k = mc::choose_in(0, n); bool two = a == 11 || a == 12 || a == 14 || a == 16;
  std::vector<int> w = two ? some(max2, letters) : std::vector<int>{};
  mc::tr("%s of %s and %s, writing algorithm %d, place %d", name, ::show(v).c_str(), ::show(w).c_str(), a, k); mc::op();
  C c, d; S s, t;
  if constexpr (requires { c.push_front(mk(1)); c.push_back(mk(1)); }) if (offset) { int f = mc::choose(4); for (int i = 0; i < f; i++) c.push_back(mk(1)); for (int i = 0; i < f; i++) c.pop_front(); }
  fill(c, v); fill(d, w); fill(s, v); fill(t, w); Log L, K; size_t keep = n;
  if (a < NWRITE) { writing(a, c.begin(), c.end(), d.begin(), d.end(), k, mk, L); writing(a, s.begin(), s.end(), t.begin(), t.end(), k, mk, K); if (a <= 2 && !K.v.empty()) keep = K.v[0]; }
  else if (a < NWRITE + NWBI) { if constexpr (cat >= BIDI) { writing_back(a - NWRITE, c.begin(), c.end(), k, mk, L); writing_back(a - NWRITE, s.begin(), s.end(), k, mk, K); } }
  else if constexpr (cat >= RAND) { sorting(a - NWRITE - NWBI, c.begin(), c.end(), k, mk, L); sorting(a - NWRITE - NWBI, s.begin(), s.end(), k, mk, K); }
  equalLogs(L, K, name, a, v, w); Model x = flat(c), y = flat(s); if (x.size() != (size_t)n) mc::fail("%s: there are %zu elements, not %d", name, x.size(), n);
  if (a == 6) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); }
  if (a <= 2) { x.resize(keep); y.resize(keep); }
  same(x, y, name); same(flat(d).size() ? flat(d) : Model{}, flat(t), "the second range"); mc::state(hs(v, w, 100 + a));
}
// ------- inserters into the library's containers -------
template <class C, class S> void insert_all(const char *name, int max, int letters) {
  using V = typename C::value_type; MkV<V> mk; std::vector<int> v = some(max, letters), w = some(max, letters); int a = mc::choose(3), way = mc::choose(3);
  mc::tr("%s of %s, then %s inserted, algorithm %d, way %d", name, ::show(v).c_str(), ::show(w).c_str(), a, way); mc::op(); C c; S s; fill(c, v); fill(s, v);
  std::vector<V> src; for (int x : w) src.push_back(mk(x));
  auto run = [&](auto out) { if (a == 0) cest::copy(src.begin(), src.end(), out); else if (a == 1) cest::transform(src.begin(), src.end(), out, [&](const V &x) { return mk(key(x) + 1); }); else cest::copy_if(src.begin(), src.end(), out, [](const V &x) { return key(x) & 1; }); };
  if (way == 0) { if constexpr (requires { c.push_back(mk(1)); }) { run(cest::back_inserter(c)); run(std::back_inserter(s)); } }
  else if (way == 1) { if constexpr (requires { c.push_front(mk(1)); s.push_front(mk(1)); }) { run(std::front_inserter(c)); run(std::front_inserter(s)); } }
  else if constexpr (requires { c.insert(c.end(), mk(1)); }) {
    int k = mc::choose(2); auto ci = k ? c.end() : typename C::iterator(c.end()); auto si = s.end();
    if constexpr (requires { c.push_back(mk(1)); }) if (!k) { ci = c.begin(); si = s.begin(); }
    run(cest::inserter(c, ci)); run(std::inserter(s, si)); }
  Model m = flat(s); same(flat(c), m, name); mc::state(hs(v, w, 200 + a * 3 + way)); if constexpr (requires { c.size(); }) if (c.size() != s.size()) mc::fail("size() is %zu, not %zu", (size_t)c.size(), s.size());
}
using VI = cest::vector<int>; using DI = cest::deque<int>; using LI = cest::list<int>; using FI = cest::forward_list<int>; using SI = cest::set<int>; using MI = cest::map<int, int>;
using trk::Tok;
#ifdef CHUNKS
MC_SCENARIO(read_deque, 0, 0, 8, 8) { read_all<DI, std::deque<int>, RAND>("deque", mc::thorough ? 5 : 4, 3, 2, true); }
MC_SCENARIO(write_deque, 0, 0, 8, 8) { write_all<DI, std::deque<int>, RAND>("deque", mc::thorough ? 6 : 5, mc::thorough ? 3 : 2, 2, true); }
MC_SCENARIO(insert_deque, 0, 0, 1, 4) { insert_all<DI, std::deque<int>>("deque", mc::thorough ? 4 : 3, 2); }
// longer contents, through many chunks
MC_SCENARIO(long_deque, 0, 0, 4, 8) {
  int n = mc::choose_in(0, mc::thorough ? 40 : 24), a = mc::choose(NWRITE + NWBI + NRAND), k = mc::choose_in(0, n), f = mc::choose(4), kind = mc::choose(3); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(kind == 0 ? i * 7 % 11 : kind == 1 ? n - i : i & 1);
  mc::tr("deque of %s, writing algorithm %d, place %d, offset %d", show(v).c_str(), a, k, f); mc::op(); DI c; std::deque<int> s; for (int i = 0; i < f; i++) c.push_back(0); for (int i = 0; i < f; i++) c.pop_front(); fill(c, v); fill(s, v); Log L, K; MkV<int> mk; size_t keep = n;
  if (a < NWRITE) { std::vector<int> w; writing(a, c.begin(), c.end(), w.begin(), w.end(), k, mk, L); writing(a, s.begin(), s.end(), w.begin(), w.end(), k, mk, K); if (a <= 2) keep = K.v[0]; }
  else if (a < NWRITE + NWBI) { writing_back(a - NWRITE, c.begin(), c.end(), k, mk, L); writing_back(a - NWRITE, s.begin(), s.end(), k, mk, K); }
  else { sorting(a - NWRITE - NWBI, c.begin(), c.end(), k, mk, L); sorting(a - NWRITE - NWBI, s.begin(), s.end(), k, mk, K); }
  equalLogs(L, K, "deque", a, v, {}); Model x = flat(c), y = flat(s); if (a == 6) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); } if (a <= 2) { x.resize(keep); y.resize(keep); } same(x, y, "deque"); mc::state(hs(v, {k, f}, 300 + a));
}
#else
#if PART == 1
MC_SCENARIO(read_vector, 0, 0, 4, 8) { read_all<VI, std::vector<int>, RAND>("vector", mc::thorough ? 6 : 4, 3, mc::thorough ? 3 : 2); }
MC_SCENARIO(write_vector, 0, 0, 4, 8) { write_all<VI, std::vector<int>, RAND>("vector", mc::thorough ? 6 : 5, 3, 2); }
#elif PART == 2
MC_SCENARIO(read_list, 0, 0, 4, 8) { read_all<LI, std::list<int>, BIDI>("list", mc::thorough ? 6 : 4, 3, mc::thorough ? 3 : 2); }
MC_SCENARIO(write_list, 0, 0, 4, 8) { write_all<LI, std::list<int>, BIDI>("list", mc::thorough ? 6 : 5, 3, 2); }
MC_SCENARIO(read_forward_list, 0, 0, 4, 8) { read_all<FI, std::forward_list<int>, FWD>("forward_list", mc::thorough ? 6 : 4, 3, mc::thorough ? 3 : 2); }
MC_SCENARIO(write_forward_list, 0, 0, 4, 8) { write_all<FI, std::forward_list<int>, FWD>("forward_list", mc::thorough ? 6 : 5, 3, 2); }
#elif PART == 3
MC_SCENARIO(read_set, 0, 0, 4, 8) { read_all<SI, std::set<int>, BIDI>("set", mc::thorough ? 6 : 4, 4, mc::thorough ? 4 : 2); }
MC_SCENARIO(read_map, 0, 0, 4, 8) { read_all<MI, std::map<int, int>, BIDI>("map", mc::thorough ? 6 : 4, 4, mc::thorough ? 4 : 2); }
// every insertion order of a larger tree, walked by the algorithms
MC_SCENARIO(trees, 0, 0, 4, 8) {
  int n = mc::choose_in(0, mc::thorough ? 8 : 6); std::vector<int> left, v; for (int i = 0; i < n; i++) left.push_back(i + 1);
  while (!left.empty()) { int k = mc::choose((int)left.size()); v.push_back(left[k]); left.erase(left.begin() + k); }
  mc::tr("insertion order %s", show(v).c_str()); SI c; MI d; std::set<int> s; std::map<int, int> t; fill(c, v); fill(d, v); fill(s, v); fill(t, v); MkV<int> mk; MkV<std::pair<const int, int>> mp; const MI &cd = d;
  for (int a = 0; a < NREAD; a++) { Log L, K, L2, K2; mc::op(); reading(a, c.begin(), cest::set<int>::const_iterator(c.cend()), c.cbegin(), c.cend(), mk, L); reading(a, s.begin(), s.end(), s.begin(), s.end(), mk, K); equalLogs(L, K, "set", a, v, v);
    reading(a, cd.begin(), cd.end(), cd.begin(), cd.end(), mp, L2); reading(a, t.cbegin(), t.cend(), t.cbegin(), t.cend(), mp, K2); equalLogs(L2, K2, "map", a, v, v); }
  mc::state(hmodel(v, 400));
}
#elif PART == 4
MC_SCENARIO(read_tok, 0, 0, 4, 8) { switch (mc::choose(3)) { case 0: read_all<cest::list<Tok>, std::list<Tok>, BIDI>("list", 3, 3, 2); break; case 1: read_all<cest::deque<Tok>, std::deque<Tok>, RAND>("deque", 3, 3, 2); break; default: read_all<cest::forward_list<Tok>, std::forward_list<Tok>, FWD>("forward_list", 3, 3, 2); } }
#elif PART == 5
MC_SCENARIO(write_tok, 0, 0, 4, 8) { switch (mc::choose(3)) { case 0: write_all<cest::list<Tok>, std::list<Tok>, BIDI>("list", 3, 3, 2); break; case 1: write_all<cest::vector<Tok>, std::vector<Tok>, RAND>("vector", 3, 3, 2); break; default: write_all<cest::forward_list<Tok>, std::forward_list<Tok>, FWD>("forward_list", 3, 3, 2); } }
#elif PART == 6
MC_SCENARIO(read_string, 0, 0, 4, 8) { read_all<cest::string, std::string, RAND>("string", mc::thorough ? 5 : 4, 3, 2); }
MC_SCENARIO(write_string, 0, 0, 4, 8) { write_all<cest::string, std::string, RAND>("string", mc::thorough ? 5 : 4, 3, 2); }
#elif PART == 7
MC_SCENARIO(read_big_chunk, 0, 0, 1, 4) { read_all<DI, std::deque<int>, RAND>("deque", 3, 2, 2, true); }
MC_SCENARIO(inserters, 0, 0, 4, 8) {
  int n = mc::thorough ? 5 : 3;
  switch (mc::choose(6)) { case 0: insert_all<VI, std::vector<int>>("vector", n, 3); break; case 1: insert_all<LI, std::list<int>>("list", n, 3); break; case 2: insert_all<SI, std::set<int>>("set", n, 3); break;
    case 3: insert_all<cest::string, std::string>("string", n, 3); break; case 4: insert_all<DI, std::deque<int>>("deque", n, 3); break; default: insert_all<FI, std::forward_list<int>>("forward_list", n, 3); }
}
// constant iterators made from mutable ones
MC_SCENARIO(conversions, 0, 0, 1, 1) {
  std::vector<int> v = some(4, 3); LI l; FI f; DI d; VI w; fill(l, v); fill(f, v); fill(d, v); fill(w, v); mc::op();
  auto go = [&](auto &c) { using C = std::remove_reference_t<decltype(c)>; auto i = c.begin(); typename C::const_iterator k = i; k = i; size_t n = 0; for (; !(i == c.end()); ++i, ++k, ++n) { typename C::const_iterator q = i; if (!(q == k) || !(k == q) || &*q != &*i || q.operator->() != &*i) mc::fail("a constant iterator made from a mutable one denotes another element"); } if (!(k == c.cend()) || n != v.size()) mc::fail("the constant end is elsewhere"); };
  go(l); go(f); go(d); VI::const_iterator a = w.begin(), b = w.end(); if (b - a != (ptrdiff_t)v.size()) mc::fail("vector iterators convert wrongly"); mc::state(hmodel(v, 500));
}
#endif
#endif
MC_MAIN
