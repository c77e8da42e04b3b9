// Containers whose elements are the library's own types: every history over the outer and the inner, against a sequence of sequences.
#include "seq.hpp"
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/string.hpp>
#include <cest/memory.hpp>
#include <cest/functional.hpp>
#include <algorithm>
#include <map>
#include <set>
TRK_HEAP
using In = std::vector<int>;                           // what an inner object holds
static cest::string text(int k) { std::string s(40, char('a' + k)); return cest::string(s.data(), s.size()); }
// how to make, read and change each inner type
template <class T> struct Inner;
template <class C> struct Seq {
  using T = C; static constexpr bool copies = true;
  static C make(const In &v) { C c; for (int x : v) { if constexpr (requires { c.push_back(typename C::value_type(x)); }) c.push_back((typename C::value_type)x); else c.insert((typename C::value_type)x); } return c; }
  static In read(const C &c) { In v; for (auto i = c.begin(); !(i == c.end()); ++i) { v.push_back((int)*i); if (v.size() > 100) mc::fail("an inner container does not end"); } return v; }
  static void add(C &c, int x) { if constexpr (requires { c.push_back(typename C::value_type(x)); }) c.push_back((typename C::value_type)x); else c.insert((typename C::value_type)x); }
};
template <class T, class A> struct Inner<cest::vector<T, A>> : Seq<cest::vector<T, A>> {};
template <class T, class A> struct Inner<cest::deque<T, A>> : Seq<cest::deque<T, A>> {};
template <class T, class A> struct Inner<cest::list<T, A>> : Seq<cest::list<T, A>> {};
template <> struct Inner<cest::string> : Seq<cest::string> {};
template <class T> struct Inner<cest::set<T>> : Seq<cest::set<T>> {};
template <class T> struct Inner<cest::forward_list<T>> { using C = cest::forward_list<T>; static constexpr bool copies = true;
  static C make(const In &v) { C c; for (size_t i = v.size(); i-- > 0;) c.push_front(v[i]); return c; }
  static In read(const C &c) { In v; for (auto i = c.begin(); i != c.end(); ++i) v.push_back(*i); return v; }
  static void add(C &c, int x) { auto b = c.before_begin(); for (auto i = c.begin(); i != c.end(); ++i) ++b; c.insert_after(b, x); } };
template <> struct Inner<cest::map<int, cest::string>> { using C = cest::map<int, cest::string>; static constexpr bool copies = true;
  static C make(const In &v) { C c; for (int x : v) add(c, x); return c; }
  static In read(const C &c) { In v; for (auto i = c.begin(); i != c.end(); ++i) { v.push_back((*i).first); if ((*i).second != text((*i).first)) mc::fail("an inner map's value is lost"); } return v; }
  static void add(C &c, int x) { c.insert({x, text(x)}); } };
template <> struct Inner<cest::shared_ptr<cest::vector<int>>> { using C = cest::shared_ptr<cest::vector<int>>; static constexpr bool copies = true, shares = true;
  static C make(const In &v) { return C(new cest::vector<int>(Seq<cest::vector<int>>::make(v))); }
  static In read(const C &c) { return Seq<cest::vector<int>>::read(*c); }
  static void add(C &c, int x) { In v = read(c); v.push_back(x); c = make(v); } };
template <> struct Inner<cest::unique_ptr<cest::vector<int>>> { using C = cest::unique_ptr<cest::vector<int>>; static constexpr bool copies = false;
  static C make(const In &v) { return C(new cest::vector<int>(Seq<cest::vector<int>>::make(v))); }
  static In read(const C &c) { if (!c.get()) mc::fail("an element's pointer is lost"); return Seq<cest::vector<int>>::read(*c); }
  static void add(C &c, int x) { c->push_back(x); } };
template <> struct Inner<cest::function<const In &()>> { using C = cest::function<const In &()>; static constexpr bool copies = true;
  static C make(const In &v) { return C([v]() -> const In & { return v; }); }
  static In read(const C &c) { return const_cast<C &>(c)(); }
  static void add(C &c, int x) { In v = c(); v.push_back(x); c = make(v); } };
template <class T> constexpr bool distinct = false; template <> constexpr bool distinct<cest::set<int>> = true; template <> constexpr bool distinct<cest::map<int, cest::string>> = true;
using MM = std::vector<In>;
static std::string show(const MM &m) { std::string s = "{"; for (auto &v : m) s += ::show(v); return s + "}"; }
static const In payloads[] = {{}, {1}, {1, 2, 3}, {2}}, key_lists[] = {{}, {1}, {1, 2}, {2}, {1, 2, 3}, {3}};
static const In &payload(int k) { return payloads[k]; }
template <class O> MM flat(const O &o) {
  using T = typename O::value_type; MM m; for (auto i = o.begin(); !(i == o.end()); ++i) { if constexpr (requires { (*i).second; }) { m.push_back(Inner<std::remove_cvref_t<decltype((*i).second)>>::read((*i).second)); m.back().push_back((*i).first); } else m.push_back(Inner<T>::read(*i)); if (m.size() > 100) mc::fail("iteration does not end"); } return m;
}
template <class O> void is(const O &o, const MM &want, const char *what) {
  MM got = flat(o); if (got != want) mc::fail("%s: %s instead of %s", what, show(got).c_str(), show(want).c_str());
  if constexpr (requires { o.size(); }) if (o.size() != want.size()) mc::fail("%s: size() is %zu, not %zu", what, (size_t)o.size(), want.size());
}
static uint64_t hmm(const MM &m, uint64_t h) { for (auto &v : m) h = hmodel(v, h * 31 + 7); return h; }
template <class T> void give(T &dst, T &src) { dst = std::move(src); }
// O: vector, deque, list or forward_list of T
template <class O> void history(const char *name, int depth) {
  using T = typename O::value_type; using I = Inner<T>; constexpr bool cp = I::copies; MM m[2];
  { O o[2];
    for (int s = 0; s < depth; s++) {
      int k = mc::choose(2); O &c = o[k], &d = o[1 - k]; MM &x = m[k], &y = m[1 - k]; bool some = !x.empty(); Menu menu; constexpr bool pb = requires { c.push_back(I::make({})); }, pf = requires { c.push_front(I::make({})); }, er = requires { c.erase(c.begin()); };
      menu.add(0, pb); menu.add(1, pf); menu.add(2, pb && cp); menu.add(3, some && requires { c.pop_back(); }); menu.add(4, some && requires { c.pop_front(); }); menu.add(5, some && er); menu.add(6); menu.add(7, some); menu.add(8, cp); menu.add(9); menu.add(10); menu.add(11, some && cp && pb); menu.add(12, x.size() > 1); menu.add(13, x.size() > 1 && cp); menu.add(14, cp); menu.add(15); menu.add(16, cp && requires { c.resize(1); }); menu.add(17, some); menu.add(18, cp && some && y.size()); constexpr bool err = cp && requires { c.erase(c.begin(), c.end()); }, ia = requires { c.insert_after(c.begin(), I::make({})); }, in = requires { c.insert(c.begin(), I::make({})); };
      menu.add(19, some && err); menu.add(20, in || ia); menu.add(21, some && ia);
      int w = menu.pick(); mc::op();
      switch (w) {
      case 0: if constexpr (pb) { const In &p = payload(mc::choose(3)); mc::tr("%s %d: push_back of %s", name, k, ::show(p).c_str()); c.push_back(I::make(p)); x.push_back(p); } break;
      case 1: if constexpr (pf) { const In &p = payload(mc::choose(3)); mc::tr("%s %d: push_front of %s", name, k, ::show(p).c_str()); c.push_front(I::make(p)); x.insert(x.begin(), p); } break;
      case 2: if constexpr (pb && cp) { mc::tr("%s %d: push_back of a copy", name, k); const T t = I::make(payload(2)); c.push_back(t); if (I::read(t) != payload(2)) mc::fail("%s: push_back changes its argument", name); x.push_back(payload(2)); } break;
      case 3: if constexpr (requires { c.pop_back(); }) { mc::tr("%s %d: pop_back", name, k); c.pop_back(); x.pop_back(); } break;
      case 4: if constexpr (requires { c.pop_front(); }) { mc::tr("%s %d: pop_front", name, k); c.pop_front(); x.erase(x.begin()); } break;
      case 5: if constexpr (er) { int p = mc::choose((int)x.size()); mc::tr("%s %d: erase %d", name, k, p); auto i = c.begin(); for (int q = 0; q < p; q++) ++i; c.erase(i); x.erase(x.begin() + p); } break;
      case 6: mc::tr("%s %d: clear", name, k); if constexpr (requires { c.clear(); }) c.clear(); else c = O(); x.clear(); break;
      case 7: { int p = mc::choose((int)x.size()); mc::tr("%s %d: element %d grows", name, k, p); auto i = c.begin(); for (int q = 0; q < p; q++) ++i; int v = 10 + p; bool had = distinct<T> && std::count(x[p].begin(), x[p].end(), v); I::add(*i, v); if (!had) x[p].push_back(v); if (distinct<T>) std::sort(x[p].begin(), x[p].end()); break; }
      case 8: if constexpr (cp) { mc::tr("%s %d: copy-assigned", name, k); c = d; x = y; } break;
      case 9: mc::tr("%s %d: move-assigned", name, k); c = std::move(d); x = y; d = O(); y.clear(); break;
      case 10: mc::tr("swap"); if constexpr (requires { c.swap(d); }) c.swap(d); else { O t(std::move(c)); c = std::move(d); d = std::move(t); } std::swap(x, y); break;
      case 11: if constexpr (cp && pb) { mc::tr("%s %d: push_back of its own first element", name, k); c.push_back(*c.begin()); x.push_back(In(x[0])); } break;
      case 12: { mc::tr("%s %d: elements 0 and 1 are swapped", name, k); auto i = c.begin(), j = i; ++j; using std::swap; swap(*i, *j); std::swap(x[0], x[1]); break; }
      case 13: if constexpr (cp) { mc::tr("%s %d: element 0 = element 1", name, k); auto i = c.begin(), j = i; ++j; *i = *j; x[0] = In(x[1]); } break;
      case 14: if constexpr (cp) { mc::tr("%s %d: replaced by a copy of a copy", name, k); O t(c); O u = t; is(t, x, "a copy"); c = std::move(u); } break;
      case 15: { mc::tr("%s %d: moved out and back", name, k); O t(std::move(c)); is(t, x, "the new owner"); c = O(); c = std::move(t); break; }
      case 16: if constexpr (cp && requires { c.resize(1); }) { int n = mc::choose(4); mc::tr("%s %d: resize to %d", name, k, n); if constexpr (std::is_same_v<std::decay_t<decltype(I::make({}))>, T> && !requires { I::shares; } && std::is_default_constructible_v<T>) { c.resize(n); x.resize(n); } } break;
      case 17: { int p = mc::choose((int)x.size()); mc::tr("%s %d: element %d = another one", name, k, p); auto i = c.begin(); for (int q = 0; q < p; q++) ++i; *i = I::make(payload(2)); x[p] = payload(2); break; }
      case 18: if constexpr (cp) { mc::tr("%s %d: its first element = the other's first", name, k); *c.begin() = *d.begin(); x[0] = In(y[0]); } break;
      case 19: if constexpr (err) { int p = mc::choose((int)x.size()), q = p + mc::choose((int)x.size() - p + 1); mc::tr("%s %d: erase from %d to %d", name, k, p, q); c.erase(c.begin() + p, c.begin() + q); x.erase(x.begin() + p, x.begin() + q); } break;
      case 20: { int p = mc::choose((int)x.size() + 1); mc::tr("%s %d: insert at %d", name, k, p); x.insert(x.begin() + p, payload(2));
        if constexpr (in) { auto i = c.begin(); for (int q = 0; q < p; q++) ++i; c.insert(i, I::make(payload(2))); } else if constexpr (ia) { auto i = c.before_begin(); for (int q = 0; q < p; q++) ++i; c.insert_after(i, I::make(payload(2))); } break; }
      case 21: if constexpr (ia) { int p = mc::choose((int)x.size()); mc::tr("%s %d: erase after %d", name, k, p); auto i = c.before_begin(); for (int q = 0; q < p; q++) ++i; c.erase_after(i); x.erase(x.begin() + p); } break;
      }
      is(o[0], m[0], name); is(o[1], m[1], name);
    }
  }
  mc::state(hmm(m[1], hmm(m[0], depth + 1)));
}
// an ordered container whose keys or values are T
template <class T> void keyed(const char *name, int depth) {
  using I = Inner<T>; { cest::map<int, T> a[2]; std::map<int, In> m[2];
    auto want = [&](int k) { MM r; for (auto &p : m[k]) { r.push_back(p.second); r.back().push_back(p.first); } return r; };
    for (int s = 0; s < depth; s++) { int k = mc::choose(2), w = mc::choose(I::copies ? 7 : 5), key = mc::choose(3); auto &c = a[k]; auto &x = m[k]; mc::op(); mc::tr("map to %s %d: operation %d with key %d", name, k, w, key);
      switch (w) {
      case 0: { bool r = c.insert(std::pair<const int, T>(key, I::make(payload(key + 1)))).second; if (r != x.insert({key, payload(key + 1)}).second) mc::fail("insert returns %d", r); break; }
      case 1: { auto i = c.find(key); auto j = x.find(key); if (j != x.end()) { bool had = distinct<T> && std::count(j->second.begin(), j->second.end(), 20); I::add((*i).second, 20); if (!had) j->second.push_back(20); if (distinct<T>) std::sort(j->second.begin(), j->second.end()); } break; }
      case 2: c.clear(); x.clear(); break;
      case 3: c = std::move(a[1 - k]); x = m[1 - k]; a[1 - k].clear(); m[1 - k].clear(); break;
      case 4: { auto i = c.find(key); if (x.count(key)) { (*i).second = I::make(payload(0)); x[key] = payload(0); } break; }
      case 5: if constexpr (I::copies) { c = a[1 - k]; x = m[1 - k]; } break;
      case 6: if constexpr (I::copies) { cest::map<int, T> t(c); is(t, want(k), "a copy"); c = t; } break;
      }
      is(a[0], want(0), name); is(a[1], want(1), name); }
    mc::state(hmm(want(1), hmm(want(0), depth + 50))); }
}
template <class T> void keys(const char *name, int depth) {   // a set of T
  using I = Inner<T>; cest::set<T> a; std::set<In> m;
  for (int s = 0; s < depth; s++) { const In &p = mc::pick(key_lists); mc::op(); mc::tr("set of %s: insert %s", name, ::show(p).c_str());
    bool r = a.insert(I::make(p)).second; if (r != m.insert(p).second) mc::fail("insert returns %d", r);
    is(a, MM(m.begin(), m.end()), name); for (auto &q : key_lists) { auto i = a.find(I::make(q)); if ((i != a.end()) != (m.count(q) > 0) || (m.count(q) && I::read(*i) != q)) mc::fail("find of %s is wrong", ::show(q).c_str()); }
    cest::set<T> c(a); is(c, MM(m.begin(), m.end()), "a copy"); }
  mc::state(hmm(MM(m.begin(), m.end()), 99));
}
using Sh = cest::shared_ptr<cest::vector<int>>; using Un = cest::unique_ptr<cest::vector<int>>; using Fn = cest::function<const In &()>; using Mp = cest::map<int, cest::string>;
using Ve = cest::vector<int>; using De = cest::deque<int>; using Li = cest::list<int>; using Fl = cest::forward_list<int>; using Se = cest::set<int>; using St = cest::string;
#if PART == 9
#define K(n, T) MC_SCENARIO(map_##n, 3, 4, 2, 8) { keyed<T>(#n, depth); }
K(string, St) K(vector, Ve) K(deque, De) K(list, Li) K(forward_list, Fl) K(set, Se) K(shared, Sh)
MC_SCENARIO(set_string, 5, 6, 2, 4) { keys<St>("string", depth); }
#else
#if PART == 1
#define OUT cest::vector
#elif PART == 2
#define OUT cest::deque
#elif PART == 3
#define OUT cest::list
#else
#define OUT cest::forward_list
#endif
#define H(n, T, D) MC_SCENARIO(of_##n, D, 4, 4, 8) { history<OUT<T>>("container of " #n, depth); }
H(string, St, 4) H(vector, Ve, 3) H(deque, De, 3) H(list, Li, 3) H(forward_list, Fl, 3) H(set, Se, 3) H(map, Mp, 3) H(shared, Sh, 3)
#if PART == 1
H(unique, Un, 4)
#endif
#endif
MC_MAIN
