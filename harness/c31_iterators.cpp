// Iterators as positions: every sequence of iterator operations over two iterator variables, against two integers.
#include "seq.hpp"
#include <cest/iterator.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/string.hpp>
#include <algorithm>
#include <concepts>
#include <ranges>
TRK_HEAP
enum { FWD, BIDI, RAND };
template <class T> int key(const T &t) { if constexpr (requires { t.second; }) return t.first; else return (int)t; }
template <class C> void fill(C &c, int n, int off) {
  using V = typename C::value_type;
  if constexpr (requires { c.push_back(V(1)); c.push_front(V(1)); }) { for (int i = 0; i < off; i++) c.push_back(V(90)); for (int i = 0; i < off; i++) c.pop_front(); for (int i = n / 2; i < n; i++) c.push_back(V(i)); for (int i = n / 2; i-- > 0;) c.push_front(V(i)); }
  else if constexpr (requires { c.push_back(V(1)); }) for (int i = 0; i < n; i++) c.push_back(V(i));
  else if constexpr (requires { c.push_front(V(1)); }) for (int i = n; i-- > 0;) c.push_front(V(i));
  else if constexpr (requires { c.begin()->second; }) for (int i = 0; i < n; i++) { int k = (i * (n % 5 ? 5 : 3) + off) % n; c.insert(V(k, k + 50)); }
  else for (int i = 0; i < n; i++) c.insert(V((i * (n % 5 ? 5 : 3) + off) % n));
}
template <class I, int cat> struct Walker {
  I b, e; int n; I it[2]; int at[2]; const char *name;
  void check() {
    mc::op(); for (int k = 0; k < 2; k++) { const I &i = it[k]; int p = at[k];
      if ((i == b) != (p == 0) || (i != b) != (p != 0)) mc::fail("%s: iterator %d at %d compares wrongly with the first position", name, k, p);
      if ((i == e) != (p == n) || (i != e) != (p != n)) mc::fail("%s: iterator %d at %d of %d compares wrongly with the end", name, k, p, n);
      if (p < n) { if (key(*i) != p) mc::fail("%s: iterator %d at %d denotes element %d", name, k, p, key(*i));
        if constexpr (requires { i.operator->(); }) if (i.operator->() != &*i) mc::fail("%s: -> and * denote different objects", name);
        if (&*i != &*it[k]) mc::fail("%s: an iterator denotes another object the second time", name); }
      if constexpr (cat == RAND) { if (i - b != p || b - i != -p || e - i != n - p || i - e != p - n) mc::fail("%s: iterator %d at %d of %d has distances %td %td %td %td", name, k, p, n, i - b, b - i, e - i, i - e);
        for (int q = 0; q < n; q++) if (key(i[q - p]) != q) mc::fail("%s: iterator %d at %d, index %d denotes element %d", name, k, p, q - p, key(i[q - p]));
        for (int q = 0; q <= n; q++) { I x = i + (q - p), y = (q - p) + i, z = i - (p - q); if (!(x == y) || !(y == z) || x - b != q) mc::fail("%s: iterator %d at %d moved by %d is wrong", name, k, p, q - p); } } }
    const I &x = it[0], &y = it[1]; int p = at[0], q = at[1];
    if ((x == y) != (p == q) || (x != y) != (p != q) || (y == x) != (p == q)) mc::fail("%s: iterators at %d and %d compare wrongly", name, p, q);
    if constexpr (cat == RAND) { if (x - y != p - q) mc::fail("%s: iterators at %d and %d differ by %td", name, p, q, x - y);
      if ((x < y) != (p < q) || (x > y) != (p > q) || (x <= y) != (p <= q) || (x >= y) != (p >= q)) mc::fail("%s: iterators at %d and %d are ordered wrongly", name, p, q); }
  }
  void step(int depthLeft) {
    (void)depthLeft; Menu m; int k = mc::choose(2); I &i = it[k]; int &p = at[k]; I &o = it[1 - k]; int &q = at[1 - k]; bool up = p < n, up2 = p + 1 < n, dn = cat >= BIDI && p > 0, dn2 = cat >= BIDI && p > 1;
    m.add(0, up); m.add(1, up); m.add(2, up); m.add(3, up2); m.add(4); m.add(5); m.add(6); m.add(7); m.add(8); m.add(9); m.add(10); m.add(11, up); m.add(12, dn); m.add(13, dn); m.add(14, dn2); m.add(15, dn); m.add(16, cat >= BIDI && up); m.add(17, cat == RAND); m.add(18, cat == RAND); m.add(19, cat == RAND); m.add(20, cat == RAND);
    int w = m.pick(); auto ret = [&](const I &r) { if (&r != &i) mc::fail("%s: operation %d does not return its iterator", name, w); };
    mc::tr("operation %d on iterator %d at %d", w, k, p); mc::op();
    switch (w) {
    case 0: ret(++i); p++; break;
    case 1: { I r = i++; if (r == i || (p < n && key(*r) != p)) mc::fail("%s: i++ does not return the former position", name); p++; break; }
    case 2: if (key(*i++) != p) mc::fail("%s: *i++ is not the former element", name); p++; break;
    case 3: ++(++i); p += 2; break;
    case 4: ret(i = o); p = q; break;
    case 5: { I c(i); i = b; i = c; break; }
    case 6: std::swap(i, o); std::swap(p, q); break;
    case 7: i = b; p = 0; break;
    case 8: i = e; p = n; break;
    case 9: { I &r = i; ret(i = r); break; }
    case 10: { I x{}; x = i; if (!(x == i)) mc::fail("%s: a default-constructed iterator does not take a position", name); i = std::move(x); break; }
    case 11: { I c = i; ++c; if (key(*i) != p || c == i) mc::fail("%s: stepping a copy moves the original", name); break; }
    case 12: if constexpr (cat >= BIDI) ret(--i); p--; break;
    case 13: if constexpr (cat >= BIDI) { I r = i--; I t = i; ++t; if (!(r == t)) mc::fail("%s: i-- does not return the former position", name); } p--; break;
    case 14: if constexpr (cat >= BIDI) --(--i); p -= 2; break;
    case 15: if constexpr (cat >= BIDI) { std::reverse_iterator<I> r(i); if (key(*r) != p - 1) mc::fail("%s: a reverse iterator denotes another element", name); ++r; i = r.base(); } p--; break;
    case 16: if constexpr (cat >= BIDI) { ++i; --i; if (key(*--(++i)) != p) mc::fail("%s: forth and back leads elsewhere", name); } break;
    case 17: if constexpr (cat == RAND) { int t = mc::choose_in(0, n); ret(i += t - p); p = t; } break;
    case 18: if constexpr (cat == RAND) { int t = mc::choose_in(0, n); ret(i -= p - t); p = t; } break;
    case 19: if constexpr (cat == RAND) { int t = mc::choose_in(0, n); i = t - q + o; p = t; } break;
    case 20: if constexpr (cat == RAND) { int t = mc::choose_in(0, n); i = o - (q - t); p = t; } break;
    }
  }
  void run(int depth) { it[0] = b; it[1] = e; at[0] = 0; at[1] = n; check(); for (int s = 0; s < depth; s++) { step(depth - s); check(); } mc::state(mc::hash(at, sizeof at, mc::hash(name, strlen(name), n))); }
};
template <class I, int cat> void walk(const char *name, I b, I e, int n, int depth) { static_assert(std::is_same_v<I, I>); Walker<I, cat> w{b, e, n, {b, e}, {0, n}, name}; w.run(depth); }
template <class C, int cat> void histories(const char *name, int depth, int maxn, int offsets) {
  int n = mc::choose_in(0, maxn), off = mc::choose(n ? offsets : 1), kind = mc::choose(2); mc::tr("%s of %d elements, arrangement %d, %s iterators", name, n, off, kind ? "constant" : "mutable"); C c; fill(c, n, off); const C &k = c; mc::op();
  if (kind) walk<typename C::const_iterator, cat>(name, k.begin(), k.end(), n, depth);
  else { using I = typename C::iterator;
    if constexpr (std::is_constructible_v<I, decltype(c.begin())>) walk<I, cat>(name, I(c.begin()), I(c.end()), n, depth);
    else { if (!n) return; I b = c.find(0), e = b; for (int i = 0; i < n; i++) ++e; walk<I, cat>(name, b, e, n, depth); } }
}
using M = cest::map<int, int>;
#ifdef CHUNKS
MC_SCENARIO(deque, 3, 4, 8, 16) { histories<cest::deque<int>, RAND>("deque", depth, 4, 3); }
MC_SCENARIO(long_deque, 2, 3, 4, 16) { histories<cest::deque<int>, RAND>("deque", depth, 11, 4); }
#elif PART == 1
MC_SCENARIO(vector, 3, 4, 4, 8) { histories<cest::vector<int>, RAND>("vector", depth, 4, 1); }
MC_SCENARIO(string, 3, 4, 4, 8) { histories<cest::string, RAND>("string", depth, 4, 1); }
MC_SCENARIO(deque, 3, 4, 4, 8) { histories<cest::deque<int>, RAND>("deque", depth, 4, 2); }
#elif PART == 2
MC_SCENARIO(list, 4, 5, 8, 16) { histories<cest::list<int>, BIDI>("list", depth, 3, 1); }
MC_SCENARIO(forward_list, 5, 6, 4, 16) { histories<cest::forward_list<int>, FWD>("forward_list", depth, 3, 1); }
#elif PART == 3
MC_SCENARIO(set, 3, 4, 8, 16) { histories<cest::set<int>, BIDI>("set", depth, 7, 4); }
MC_SCENARIO(map, 3, 4, 8, 16) { histories<M, BIDI>("map", depth, 7, 4); }
#elif PART == 4
// the categories that generic code asks for, and what it then does
template <class I, class T> void claims(const char *name, int cat, bool writable) {
  mc::op(); mc::state(mc::hash(name, strlen(name), writable)); mc::tr("%s", name);
  bool in = std::input_iterator<I>, fw = std::forward_iterator<I>, bi = std::bidirectional_iterator<I>, ra = std::random_access_iterator<I>, ou = std::output_iterator<I, T>;
  if (!in || !fw || (cat >= BIDI && !bi) || (cat >= RAND && !ra)) mc::fail("%s: an iterator of category %d has input %d, forward %d, bidirectional %d, random access %d", name, cat, in, fw, bi, ra);
  if (ou != writable) mc::fail("%s: %s through the iterator", name, writable ? "elements cannot be written" : "constant elements can be written");
  if (!std::is_same_v<std::remove_cv_t<typename std::iterator_traits<I>::value_type>, T> && !writable) { if (!std::is_convertible_v<typename std::iterator_traits<I>::reference, const T &>) mc::fail("%s: the value type is another one", name); }
  if (!std::is_signed_v<typename std::iterator_traits<I>::difference_type>) mc::fail("%s: differences are not signed", name);
  using Cg = typename std::iterator_traits<I>::iterator_category;
  if (!std::is_base_of_v<std::forward_iterator_tag, Cg> || std::is_base_of_v<std::bidirectional_iterator_tag, Cg> != (cat >= BIDI) || std::is_base_of_v<std::random_access_iterator_tag, Cg> != (cat >= RAND)) mc::fail("%s: the iterator claims another category", name);
}
template <class C> void both(const char *name, int cat, bool writable) {
  using T = typename C::value_type;
  switch (mc::choose(2)) { case 0: claims<typename C::iterator, T>(name, cat, writable); break; default: claims<typename C::const_iterator, T>(name, cat, false); }
  if (!std::is_convertible_v<typename C::iterator, typename C::const_iterator>) mc::fail("%s: a mutable iterator does not convert to a constant one", name);
  if (std::is_convertible_v<typename C::const_iterator, typename C::iterator> && writable) mc::fail("%s: a constant iterator converts to a mutable one", name);
}
MC_SCENARIO(categories, 0, 0, 1, 1) {
  switch (mc::choose(7)) { case 0: both<cest::vector<int>>("vector", RAND, true); break; case 1: both<cest::deque<int>>("deque", RAND, true); break; case 2: both<cest::list<int>>("list", BIDI, true); break; case 3: both<cest::forward_list<int>>("forward_list", FWD, true); break;
    case 4: both<cest::string>("string", RAND, true); break; case 5: both<cest::set<int>>("set", BIDI, false); break; default: both<M>("map", BIDI, false); }
}
// range algorithms and views over the containers, against the contents
template <class C, int cat> void ranged(const char *name) {
  int n = mc::choose_in(0, mc::thorough ? 6 : 5), a = mc::choose(14), x = mc::choose_in(0, n); C c; fill(c, n, 0); const C &k = c; mc::tr("%s of %d, range algorithm %d with %d", name, n, a, x); mc::op(); mc::state(mc::hash(name, strlen(name), n * 1000 + a * 20 + x));
  auto bad = [&] { mc::fail("%s of %d elements, range algorithm %d with %d gives another result", name, n, a, x); }; auto ky = [](const auto &v) { return key(v); };
  std::vector<int> o;
  switch (a) {
  case 0: if (std::ranges::distance(k) != n) bad(); break;
  case 1: { auto i = std::ranges::find(k, x, ky); if (x < n ? i == k.end() || key(*i) != x : i != k.end()) bad(); break; }
  case 2: for (const auto &v : k) o.push_back(key(v)); break;
  case 3: std::ranges::for_each(k, [&](const auto &v) { o.push_back(key(v)); }); break;
  case 4: std::ranges::transform(k, std::back_inserter(o), ky); break;
  case 5: for (int v : k | std::views::transform(ky)) o.push_back(v); break;
  case 6: for (int v : k | std::views::transform(ky) | std::views::filter([&](int y) { return y >= x; })) o.push_back(v); if ((int)o.size() != n - x) bad(); for (int j = 0; j < (int)o.size(); j++) if (o[j] != x + j) bad(); o.clear(); for (int j = 0; j < n; j++) o.push_back(j); break;
  case 7: for (int v : k | std::views::drop(x) | std::views::transform(ky)) o.push_back(v); if ((int)o.size() != n - x || (!o.empty() && o[0] != x)) bad(); break;
  case 8: for (int v : k | std::views::take(x) | std::views::transform(ky)) o.push_back(v); if ((int)o.size() != x || (!o.empty() && o.back() != x - 1)) bad(); break;
  case 9: if constexpr (cat >= BIDI) { for (int v : k | std::views::reverse | std::views::transform(ky)) o.push_back(v); std::reverse(o.begin(), o.end()); } break;
  case 10: { auto i = std::ranges::next(k.begin(), x, k.end()); if (x < n ? key(*i) != x : i != k.end()) bad(); break; }
  case 11: if constexpr (cat >= BIDI) { auto i = std::ranges::prev(k.end(), x); if (x ? key(*i) != n - x : i != k.end()) bad(); } break;
  case 12: { auto l = std::ranges::lower_bound(k, x, {}, ky); if (x < n ? key(*l) != x : l != k.end()) bad(); break; }
  case 13: { auto q = std::ranges::count_if(k, [&](const auto &v) { return key(v) < x; }); if (q != x) bad(); if (!std::ranges::equal(k, k) || !std::ranges::is_sorted(k, {}, ky)) bad(); break; }
  }
  if ((a >= 2 && a <= 6) || (a == 9 && cat >= BIDI)) { if ((int)o.size() != n) bad(); for (int j = 0; j < n; j++) if (o[j] != j) bad(); }
  if constexpr (requires { *c.begin() = typename C::value_type(1); c.front(); }) { for (auto &v : c) v = typename C::value_type(key(v) + 1); int j = 0; for (const auto &v : k) if (key(v) != ++j) bad(); if (j != n) bad(); }
}
MC_SCENARIO(ranges, 0, 0, 1, 4) {
  switch (mc::choose(7)) { case 0: ranged<cest::vector<int>, RAND>("vector"); break; case 1: ranged<cest::deque<int>, RAND>("deque"); break; case 2: ranged<cest::list<int>, BIDI>("list"); break; case 3: ranged<cest::forward_list<int>, FWD>("forward_list"); break;
    case 4: ranged<cest::string, RAND>("string"); break; case 5: ranged<cest::set<int>, BIDI>("set"); break; default: ranged<M, BIDI>("map"); }
}
#endif
MC_MAIN
