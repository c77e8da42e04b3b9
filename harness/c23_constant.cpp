// Every history of a bounded set, evaluated by the compiler as a constant and again at run time.
// A history is a number, decoded into choices; F(i) runs it and condenses everything it observes.
#include "mc.hpp"
#include <array>
#include <bit>
#include <compare>
#include <type_traits>
#include <utility>
#include <iterator>
#include <new>
struct H {
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  constexpr void operator()(uint64_t x) { h ^= x + 0x632be59bd9b4e019ULL; h *= 0x100000001b3ULL; h ^= h >> 29; }
  constexpr void d(double x) { (*this)(x == 0 ? 0 : x != x ? 7 : std::bit_cast<uint64_t>(x)); }
};
struct D { unsigned i; constexpr unsigned operator()(unsigned n) { unsigned r = i % n; i /= n; return r; } };
constexpr unsigned ipow(unsigned b, unsigned e) { unsigned r = 1; while (e--) r *= b; return r; }
// an element that owns memory: one lost or destroyed twice is an error for the evaluator
struct El {
  int *p;
  constexpr El(int v = 0) : p(new int(v)) {}
  constexpr El(const El &o) : p(new int(*o.p)) {}
  constexpr El &operator=(const El &o) { *p = *o.p; return *this; }
  constexpr ~El() { delete p; }
  friend constexpr bool operator==(const El &a, const El &b) { return *a.p == *b.p; }
  friend constexpr bool operator<(const El &a, const El &b) { return *a.p < *b.p; }
};
constexpr int v(int x) { return x; }
constexpr int v(const El &x) { return *x.p; }
template <auto F, unsigned N> constexpr auto table() { std::array<uint64_t, N> a{}; for (unsigned i = 0; i < N; i++) a[i] = F(i); return a; }
#ifdef THOROUGH
#define TIER(q, t) t
#else
#define TIER(q, t) q
#endif
// NAME: the scenario; F: the history function; N: how many histories
#define BOTH(NAME, F, N)                                                                                        \
  static constexpr auto T_##NAME = table<F, (N)>();                                                             \
  MC_SCENARIO(NAME, 0, 0, 1, 1) {                                                                               \
    static uint64_t (*volatile f)(unsigned) = F; unsigned i = (unsigned)mc::choose((int)(N));                   \
    mc::tr("history %u", i); mc::op(); uint64_t r = f(i); mc::state(r);                                         \
    if (r != T_##NAME[i]) mc::fail("history %u of " #NAME " gives another result at run time than at compile time", i); \
  }
template <class C> constexpr void it(H &h, const C &c) { unsigned n = 0; for (auto i = c.begin(); i != c.end(); ++i) { h(v(*i)); n++; } h(n); for (auto i = c.cbegin(); !(i == c.cend()); i++) h(v(*i)); }
template <class C> constexpr void itm(H &h, C &c) { for (auto i = c.begin(); i != c.end(); i++) { h(v(*i)); } for (const auto &x : c) h(v(x)); }

#if PART == 1
#include <cest/vector.hpp>
template <class T> constexpr uint64_t vec(unsigned n) {
  D d{n}; H h; using C = cest::vector<T>; C a, b;
  auto obs = [&](C &c) {
    const C &k = c; h(k.size()); h(k.empty()); h(k.capacity() >= k.size()); it(h, k); itm(h, c); for (size_t i = 0; i < k.size(); i++) { h(v(k[i])); h(v(c[i])); h(v(k.at(i))); h(v(c.at(i))); h(v(k.data()[i])); }
    if (!k.empty()) { h(v(k.front())); h(v(k.back())); h(v(c.front())); h(v(c.back())); h(k.data() == &k[0]); h(c.data() == &c[0]); }
    for (auto i = k.rbegin(); i != k.rend(); ++i) h(v(*i)); for (auto i = c.rbegin(); i != c.rend(); ++i) h(v(*i)); h(k.end() - k.begin());
  };
  for (int s = 0; s < TIER(3, 4); s++) {
    switch (d(14)) {
    case 0: a.push_back(T(s + 1)); break;
    case 1: { const T x(s + 5); a.push_back(x); a.push_back(x); break; }
    case 2: if (!a.empty()) a.pop_back(); break;
    case 3: a.resize(a.size() + 2); break;
    case 4: if (a.size() > 0) a.resize(a.size() - 1); break;
    case 5: a.reserve(a.size() + 3); break;
    case 6: a.clear(); break;
    case 7: b = a; break;
    case 8: a = std::move(b); break;
    case 9: a.swap(b); break;
    case 10: if (a.size() > 1) h(a.erase(a.begin(), a.begin() + 1) - a.begin()); break;
    case 11: if (a.size() > 1) h(a.erase(a.begin() + 1, a.end()) == a.end()); else a = C{T(1), T(2), T(3)}; break;
    case 12: if (!a.empty()) { a.push_back(a.front()); a[0] = T(9); } break;
    case 13: { C c; c.push_back(T(4)); c.push_back(T(5)); C e(c); C f(std::move(c)); obs(e); h(e == f); a = f; a = a; break; }
    }
    h(a == b);
  }
  obs(a); obs(b); const C c(a); it(h, c); return h.h;
}
BOTH(vector_int, vec<int>, ipow(14, TIER(3, 4)))
BOTH(vector_owner, vec<El>, ipow(14, TIER(3, 4)))
#elif PART == 2
#include <cest/deque.hpp>
template <class T> constexpr uint64_t deq(unsigned n) {
  D d{n}; H h; using C = cest::deque<T>; C a, b;
  auto obs = [&](C &c) {
    const C &k = c; h(k.size()); it(h, k); itm(h, c); for (size_t i = 0; i < k.size(); i++) { h(v(k[i])); h(v(c[i])); h(v(c.begin()[i])); h(v(*(k.cbegin() + i))); h(v(*(k.end() - (i + 1)))); }
    if (k.size()) { h(v(k.front())); h(v(k.back())); h(v(c.front())); h(v(c.back())); }
    for (auto i = k.end(); i != k.begin();) h(v(*--i)); for (auto i = c.end(); i != c.begin();) { i--; h(v(*i)); } h(k.end() - k.begin()); h(c.begin() < c.end()); h(k.cbegin() <= k.cend()); typename C::const_iterator q = c.begin(); h(q == k.begin());
  };
  for (int s = 0; s < TIER(3, 4); s++) {
    switch (d(9)) {
    case 0: a.push_back(T(s + 1)); break;
    case 1: { const T x(s + 5); a.push_front(x); a.push_back(x); break; }
    case 2: a.push_front(T(s + 1)); break;
    case 3: a.pop_back(); break;
    case 4: a.pop_front(); break;
    case 5: a.clear(); break;
    case 6: b = a; break;
    case 7: a = b; a = a; break;
    case 8: { C c{T(1), T(2), T(3)}; C e(c); obs(e); a.push_front(T(7)); a.push_front(c.back()); if (a.size()) a[0] = T(8); break; }
    }
  }
  obs(a); obs(b); const C c(a); it(h, c); return h.h;
}
BOTH(deque_int, deq<int>, ipow(9, TIER(3, 4)))
#ifdef CEST_VERIF_CHUNK_SIZE
BOTH(deque_owner, deq<El>, ipow(9, TIER(3, 4)))
#endif
#elif PART == 3
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
template <class T> constexpr uint64_t lst(unsigned n) {
  D d{n}; H h; using C = cest::list<T>; C a, b;
  auto obs = [&](C &c) {
    const C &k = c; h(k.size()); h(k.empty()); it(h, k); itm(h, c); if (!k.empty()) { h(v(k.front())); h(v(k.back())); h(v(c.front())); h(v(c.back())); }
    for (auto i = k.end(); !(i == k.begin());) h(v(*--i)); for (auto i = c.end(); !(i == c.begin());) { i--; h(v(*i)); } typename C::const_iterator q = c.begin(), z; h(q == k.begin()); z = q; h(z == q);
  };
  for (int s = 0; s < TIER(3, 4); s++) {
    switch (d(16)) {
    case 0: a.push_back(T(s + 1)); break;
    case 1: { const T x(s + 5); a.push_front(x); a.push_back(x); break; }
    case 2: a.push_front(T(s + 1)); break;
    case 3: if (!a.empty()) a.pop_back(); break;
    case 4: if (!a.empty()) a.pop_front(); break;
    case 5: a.clear(); break;
    case 6: b = a; break;
    case 7: a = b; a = a; break;
    case 8: h(v(*a.insert(a.begin(), T(s + 3)))); break;
    case 9: { const T x(4); auto i = a.end(); if (!a.empty()) --i; h(v(*a.insert(i, x))); break; }
    case 10: h(v(*a.emplace(a.cend(), s + 6))); break;
    case 11: if (!a.empty()) h(a.erase(a.begin()) == a.begin()); break;
    case 12: if (a.size() > 1) { auto i = a.begin(); ++i; a.erase(i); } break;
    case 13: h(v(a.emplace_front(s))); h(v(a.emplace_back(s + 1))); break;
    case 14: if (!a.empty()) { *a.begin() = T(11); a.push_back(a.front()); } break;
    case 15: { C c(a); C e(c); obs(e); c.push_back(T(2)); b = c; break; }
    }
  }
  obs(a); obs(b); const C c(a); it(h, c); return h.h;
}
BOTH(list_int, lst<int>, ipow(16, TIER(3, 4)))
BOTH(list_owner, lst<El>, ipow(16, TIER(3, 4)))
template <class T> constexpr uint64_t fwd(unsigned n) {
  D d{n}; H h; using C = cest::forward_list<T>; C a, b;
  auto obs = [&](C &c) { const C &k = c; h(k.empty()); it(h, k); itm(h, c); if (!k.empty()) { h(v(k.front())); h(v(c.front())); } typename C::const_iterator q = c.begin(), z; h(q == k.begin()); z = q; h(z == q); };
  for (int s = 0; s < TIER(3, 4); s++) {
    switch (d(13)) {
    case 0: a.push_front(T(s + 1)); break;
    case 1: { const T x(s + 5); a.push_front(x); break; }
    case 2: if (!a.empty()) a.pop_front(); break;
    case 3: a.clear(); break;
    case 4: b = a; break;
    case 5: a = b; a = a; break;
    case 6: a.swap(b); break;
    case 7: h(v(*a.insert_after(a.before_begin(), T(s + 7)))); break;
    case 8: if (!a.empty()) { const T x(3); h(v(*a.insert_after(a.begin(), x))); } break;
    case 9: if (!a.empty()) h(a.erase_after(a.before_begin()) == a.begin()); break;
    case 10: if (!a.empty()) h(a.erase_after(a.begin(), a.end()) == a.end()); break;
    case 11: if (!a.empty()) { *a.begin() = T(11); a.push_front(a.front()); } break;
    case 12: { C c(a); C e(c); obs(e); c.push_front(T(2)); b = c; break; }
    }
  }
  obs(a); obs(b); const C c(a); it(h, c); return h.h;
}
BOTH(forward_list_int, fwd<int>, ipow(13, TIER(3, 4)))
BOTH(forward_list_owner, fwd<El>, ipow(13, TIER(3, 4)))
#elif PART == 4
#include <cest/set.hpp>
#include <cest/map.hpp>
struct P { int x; friend constexpr bool operator<(int a, const P &b) { return a < b.x; } friend constexpr bool operator<(const P &a, int b) { return a.x < b; } friend constexpr bool operator<(const El &a, const P &b) { return *a.p < b.x; } friend constexpr bool operator<(const P &a, const El &b) { return a.x < *b.p; } };
template <class K> constexpr uint64_t sets(unsigned n) {
  D d{n}; H h; using C = cest::set<K, std::less<>>; C a, b;
  for (int s = 0; s < TIER(4, 5); s++) {
    unsigned o = d(s < 2 ? 5 : 7);
    if (o < 5) { auto r = a.insert(K(o)); h(r.second); h(v(*r.first)); if (o == 2) h(v(*a.insert(a.begin(), K(o + s)))); }
    else if (o == 5) { b = a; C c(a); a = c; a = a; } else a.clear();
  }
  for (C *c : {&a, &b}) { const C &k = *c; h(k.size()); h(k.empty()); it(h, k); itm(h, *c); for (int x = -1; x < 9; x++) { auto f = c->find(K(x)); auto g = k.find(K(x)); h(f == c->end()); h(g == k.end()); h(c->find(P{x}) != c->end()); h(k.find(P{x}) != k.cend()); if (g != k.end()) h(v(*g)); } for (auto i = k.end(); i != k.begin();) h(v(*--i)); for (auto i = k.end(); i != k.begin();) { i--; h(v(*i)); } }
  return h.h;
}
BOTH(set_int, sets<int>, 25 * ipow(7, TIER(2, 3)))
BOTH(set_owner, sets<El>, 25 * ipow(7, TIER(2, 3)))
#elif PART == 12
#include <cest/map.hpp>
struct P { int x; friend constexpr bool operator<(int a, const P &b) { return a < b.x; } friend constexpr bool operator<(const P &a, int b) { return a.x < b; } friend constexpr bool operator<(const El &a, const P &b) { return *a.p < b.x; } friend constexpr bool operator<(const P &a, const El &b) { return a.x < *b.p; } };
template <class K> constexpr uint64_t maps(unsigned n) {
  D d{n}; H h; using C = cest::map<K, int, std::less<>>; C a, b; using V = typename C::value_type;
  for (int s = 0; s < TIER(4, 5); s++) {
    unsigned o = d(s < 2 ? 5 : 7);
    if (o < 5) { auto r = a.insert(V(K(o), s)); h(r.second); h(v(r.first->first)); h(r.first->second); if (o == 2) r.first->second = 50 + s; if (o == 3) (*r.first).second++; }
    else if (o == 5) { b = a; C c(a); a = c; a = a; } else a.clear();
  }
  for (C *c : {&a, &b}) { const C &k = *c; h(k.size()); h(k.empty()); for (auto i = k.begin(); i != k.end(); ++i) { h(v(i->first)); h((*i).second); } for (const auto &x : *c) h(x.second); for (int x = -1; x < 9; x++) { auto f = c->find(K(x)); auto g = k.find(K(x)); h(f == c->end()); h(g == k.end()); h(c->find(P{x}) != c->end()); h(k.find(P{x}) != k.cend()); if (g != k.end()) h(g->second); if (f != c->end()) f++; } for (auto i = k.end(); i != k.begin();) h((--i)->second); for (auto i = c->end(); i != c->begin();) { i--; h(i->second); } }
  return h.h;
}
BOTH(map_int, maps<int>, 25 * ipow(7, TIER(2, 3)))
BOTH(map_owner, maps<El>, 25 * ipow(7, TIER(2, 3)))
#elif PART == 5
#include <cest/string.hpp>
#include <sstream>
template <class C> constexpr uint64_t str(unsigned n) {
  using S = cest::basic_string<C>; D d{n}; H h; S a, b; const C lit[] = {C('a'), C('b'), C(0), C('a'), C(0xe9), 0}, c20[] = {C('x'), C('y'), C('z'), C('x'), C('y'), C('z'), C('x'), C('y'), C('z'), C('x'), C('y'), C('z'), C('x'), C('y'), C('z'), C('x'), C('y'), C('z'), C('x'), 0};
  auto obs = [&](S &s) { const S &k = s; h(k.size()); h(k.length()); h(k.empty()); h(k.capacity() >= k.size()); for (size_t i = 0; i <= k.size(); i++) { h((uint64_t)k.c_str()[i]); h((uint64_t)k[i]); h((uint64_t)s.data()[i]); h((uint64_t)k.data()[i]); } for (auto x : k) h((uint64_t)x); for (auto i = s.begin(); i != s.end(); ++i) h((uint64_t)*i); for (auto i = k.cbegin(); i != k.cend(); ++i) h((uint64_t)*i); if (!k.empty()) { h((uint64_t)k.front()); h((uint64_t)k.back()); h((uint64_t)s.front()); h((uint64_t)s.back()); } };
  auto cmp = [&] { h(a.compare(b) < 0); h(a.compare(b) == 0); h(a == b); h(a != b); h(a < b); h(a.compare(c20) < 0); h(a == c20); h(c20 == a); h(a != c20); h(c20 != a); h(a < lit); h(lit < a); for (size_t p = 0; p < 3; p++) { h(a.find(C('a'), p)); h(a.find(b, p)); h(a.find(c20, p)); h(a.find(lit, p, 2)); h(b.find(C('z'), p)); } };
  for (int s = 0; s < TIER(3, 4); s++) {
    switch (d(15)) {
    case 0: a.push_back(C('a' + s)); break;
    case 1: a += C('b'); a += b; break;
    case 2: if (!a.empty()) a.pop_back(); break;
    case 3: a.clear(); break;
    case 4: a = lit; break;
    case 5: b = a; break;
    case 6: a = b; a = a; break;
    case 7: a.assign(lit, 5); break;
    case 8: a.append(c20, 16); break;
    case 9: a.append(a); break;
    case 10: a.reserve(a.size() + 20); break;
    case 11: a = S(lit, 3); break;
    case 12: { S t(c20); S u(t); S w(std::move(t)); a = u; obs(w); break; }
    case 13: if (!a.empty()) { a[0] = C('q'); a.back() = C('r'); *a.begin() = C('s'); } break;
    case 14: { S t(c20, 3); a = a.data() + a.size() / 2; b = t; break; }
    }
  }
  obs(a); obs(b); cmp(); return h.h;
}
BOTH(string_char, str<char>, ipow(15, TIER(3, 4)))
BOTH(string_wchar, str<wchar_t>, ipow(15, TIER(2, 3)))
BOTH(string_u8, str<char8_t>, ipow(15, TIER(2, 3)))
BOTH(string_u16, str<char16_t>, ipow(15, TIER(2, 3)))
BOTH(string_u32, str<char32_t>, ipow(15, TIER(2, 3)))
#elif PART == 6
#include <cest/queue.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
template <class T, class C> constexpr uint64_t que(unsigned n) {
  D d{n}; H h; using Q = cest::queue<T, C>; Q a, b;
  for (int s = 0; s < 5; s++) {
    switch (d(5)) {
    case 0: a.push(T(s)); break;
    case 1: { const T x(s + 5); a.push(x); break; }
    case 2: if (a.size()) a.pop(); break;
    case 3: b = a; break;
    case 4: { C c; c.push_back(T(7)); c.push_back(T(8)); Q q(c); Q r(std::move(c)); a = q; h(v(r.back())); break; }
    }
    h(a.size()); h(a.empty()); if (a.size()) { const Q &k = a; h(v(a.front())); h(v(a.back())); h(v(k.front())); h(v(k.back())); }
  }
  while (b.size()) { h(v(b.front())); b.pop(); } Q c(a); while (!c.empty()) { h(v(c.front())); c.pop(); } return h.h;
}
BOTH(queue_deque, (que<int, cest::deque<int>>), 3125)
BOTH(queue_list, (que<int, cest::list<int>>), 3125)
BOTH(queue_owner_list, (que<El, cest::list<El>>), 3125)
#elif PART == 7
#include <cest/memory.hpp>
#include <cest/functional.hpp>
struct B { int *n; constexpr B(int *n) : n(n) {} constexpr virtual ~B() { *n += 1; } constexpr virtual int id() const { return 1; } };
struct De : B { int *x; constexpr De(int *n) : B(n), x(new int(5)) {} constexpr ~De() override { delete x; *n += 10; } constexpr int id() const override { return 2; } };
constexpr uint64_t uni(unsigned n) {
  D d{n}; H h; int dead = 0;
  {
    cest::unique_ptr<B> a, b; cest::unique_ptr<El> e;
    for (int s = 0; s < TIER(4, 5); s++) {
      switch (d(9)) {
      case 0: a = cest::make_unique<B>(&dead); break;
      case 1: a = cest::make_unique<De>(&dead); break;
      case 2: b = std::move(a); break;
      case 3: a.reset(); break;
      case 4: a.reset(new De(&dead)); break;
      case 5: { B *p = a.release(); h(p != nullptr); delete p; break; }
      case 6: { cest::unique_ptr<B> t(std::move(a)); h(bool(t)); if (t) h(t->id()); break; }
      case 7: b = cest::unique_ptr<B>(new B(&dead)); break;
      case 8: e = cest::make_unique<El>(s + 1); h(v(*e)); break;
      }
      const auto &k = a; h(bool(a)); h(a.get() == nullptr); h(a < a); h(a <= a); h(a >= a); h(a > a); h(a == b); h(a != b); if (a) { h(a->id()); h((*a).id()); h((*k).id()); h(k.get()->id()); } if (b) h(b->id()); h(dead);
    }
  }
  h(dead); return h.h;
}
BOTH(unique_ptr_, uni, ipow(9, TIER(4, 5)))
struct Del { int *n; constexpr void operator()(int *p) const { *n += 100; delete p; } };
constexpr uint64_t sha(unsigned n) {
  D d{n}; H h; int dead = 0;
  {
    cest::shared_ptr<B> a, b(nullptr); cest::shared_ptr<int> i, j; cest::shared_ptr<int[]> r;
    for (int s = 0; s < TIER(4, 5); s++) {
      switch (d(12)) {
      case 0: a = cest::shared_ptr<B>(new B(&dead)); break;
      case 1: a = cest::shared_ptr<B>(new De(&dead)); break;
      case 2: b = a; break;
      case 3: a = b; a = a; break;
      case 4: a = cest::shared_ptr<B>(); break;
      case 5: { cest::shared_ptr<B> t(a); h(t.use_count()); b = t; break; }
      case 6: i = cest::shared_ptr<int>(new int(s), Del{&dead}); break;
      case 7: j = i; h(j.use_count()); break;
      case 8: i = cest::shared_ptr<int>(j, j.get()); break;
      case 9: { cest::shared_ptr<int[]> q(new int[3]{1, 2, s}); r = q; h(r[2]); r[0] = 4; break; }
      case 10: i = cest::shared_ptr<int>(nullptr); h(r ? r[0] : -1); break;
      case 11: { cest::shared_ptr<int> q(new int(3)); j = q; h(q.use_count()); h(cest::shared_ptr<int>(q, nullptr).get() == nullptr); break; }
      }
      h(a.use_count()); h(b.use_count()); h(i.use_count()); h(j.use_count()); h(r.use_count()); h(bool(a)); h(bool(j)); if (a) { h(a->id()); h((*a).id()); h(a.get()->id()); } if (i) h(*i); h(dead);
    }
  }
  h(dead); return h.h;
}
BOTH(shared_ptr_, sha, ipow(12, TIER(3, 4)) * 12)
struct Acc { El e; constexpr int operator()(int x) { e = El(v(e) + x); return v(e); } };
constexpr int plain(int x) { return x * 3; }
constexpr uint64_t fun(unsigned n) {
  D d{n}; H h; using F = cest::function<int(int)>; F a = plain, b = [](int x) { return x + 1; }; int seen = 0; cest::function<void(int &)> w = [&seen](int &x) { seen += x; x++; };
  for (int s = 0; s < TIER(4, 5); s++) {
    switch (d(9)) {
    case 0: a = F(Acc{El(s)}); break;
    case 1: { const Acc k{El(40)}; a = F(k); break; }
    case 2: b = a; break;
    case 3: { F t(a); h(t(2)); h(t(3)); a = t; break; }
    case 4: { F t(std::move(b)); b = F(plain); a = std::move(t); break; }
    case 5: h(a(s)); break;
    case 6: { Acc l{El(7)}; F t(l); h(t(1)); h(v(l.e)); b = t; break; }
    case 7: { int x = s; w(x); h(x); break; }
    case 8: { auto w2 = w; int x = 9; w2(x); w = [&seen](int &x) { seen -= x; }; h(x); break; }
    }
    h(a(1)); h(b(2)); h(seen);
  }
  return h.h;
}
BOTH(function_, fun, ipow(9, TIER(4, 5)))
#elif PART == 8
#include <cest/sstream.hpp>
#include <cest/cstdio.hpp>
#include <cest/iostream.hpp>
template <class S> constexpr uint64_t strm(unsigned n) {
  D d{n}; H h; const char t[] = {'a', 0, 'b', ' ', 'd', '\n'}; S s(cest::string(t, d(5)));
  for (int k = 0; k < TIER(4, 5); k++) {
    char c = '#'; char buf[6] = {'1', '2', '3', '4', '5', '6'};
    switch (d(10)) {
    case 0: s.get(c); h((unsigned char)c); break;
    case 1: s.unget(); break;
    case 2: s.read(buf, 2); break;
    case 3: s.read(buf, 0); break;
    case 4: s.read(buf, 6); break;
    case 5: s.clear(); break;
    case 6: s.setstate(cest::ios_base::eofbit); break;
    case 7: s.str(cest::string("xyz")); break;
    case 8: s.str(cest::string()); break;
    case 9: h(s.str().size()); break;
    }
    for (char x : buf) h((unsigned char)x); h(s.gcount()); h(s.good()); h(s.eof()); h(s.fail()); h(bool(s)); h(!s); h((unsigned)s.rdstate());
  }
  cest::string z = s.str(); h(z.size()); for (char c : z) h((unsigned char)c); return h.h;
}
BOTH(istringstream_, strm<cest::istringstream>, 5 * ipow(10, TIER(3, 4)) )
BOTH(stringstream_, strm<cest::stringstream>, 5 * ipow(10, TIER(3, 4)))
constexpr uint64_t memf(unsigned n) {
  D d{n}; H h; char t[] = {'a', 0, 'b', (char)0xff, '\n', 'e', 'f'}; size_t len = d(8); cest::FILE *f = cest::fmemopen(t, len, "r"); h(f != nullptr);
  for (int k = 0; k < 4; k++) { char b[8] = {'0', '1', '2', '3', '4', '5', '6', '7'}; h(cest::fread(b, 1, d(5), f)); for (char c : b) h((unsigned char)c); }
  h(cest::fclose(f)); return h.h;
}
BOTH(memory_file, memf, 8 * 625)
// accepted, and without effect, at compile time: what they print at run time is C22's business
constexpr int prints(unsigned n) {
  D d{n};
  for (int k = 0; k < 3; k++) switch (d(10)) {
    case 0: cest::cout << 'c' << cest::endl; break; case 1: cest::cout << "text" << cest::string("more"); break; case 2: cest::cerr << 42 << -1L << 7u; break; case 3: cest::clog << cest::hex << 42 << cest::dec; break; case 4: cest::cout << cest::oct << 8 << cest::dec; break;
    case 5: cest::printf("plain"); break; case 6: cest::printf("%d %s", 1, "x"); break; case 7: cest::fprintf(cest::stdout, "plain"); break; case 8: cest::fprintf(cest::stderr, "%d", 3); break; case 9: cest::cout << cest::endl; break; }
  return 1;
}
constexpr bool all_print() { for (unsigned i = 0; i < 1000; i++) prints(i); return true; }
static_assert(all_print());
#elif PART == 9
#include <cest/complex.hpp>
template <class T> constexpr uint64_t cpx(unsigned n) {
  D d{n}; H h; constexpr T g[] = {T(0), T(1), T(-2), T(0.5), T(3)}; using Z = cest::complex<T>; Z a(g[d(5)], g[d(5)]), b(g[d(5)], g[d(5)]); T r = g[d(5)];
  auto o = [&](const Z &z) { h.d((double)z.real()); h.d((double)z.imag()); };
  o(a + b); o(a - b); o(a * b); if (b != T(0)) o(a / b); o(a + r); o(r + a); o(a - r); o(r - a); o(a * r); o(r * a); if (r != 0) o(a / r); if (a != T(0)) o(r / a); o(-a); o(+a); h(a == b); h(a == r); h(r == a); h(a != b); h(a != r); h(r != a);
  h.d((double)real(a)); h.d((double)imag(a)); h.d((double)norm(a)); o(conj(a)); Z c(a); c += b; o(c); c -= r; o(c); c *= b; o(c); if (b != T(0)) c /= b; o(c); c = r; o(c); c += r; c *= r; if (r != 0) c /= r; o(c); c = a; c.real(r); c.imag(g[1]); o(c); c += c; c *= c; o(c); Z e(r); o(e); Z f; o(f); cest::complex<float> q(cest::complex<float>(1, 2)); o(Z(q)); h.d((double)abs(a));
  return h.h;
}
BOTH(complex_float, cpx<float>, 3125)
BOTH(complex_double, cpx<double>, 3125)
BOTH(complex_long_double, cpx<long double>, 3125)
#elif PART == 10
#include <cest/cmath.hpp>
#include <cest/cctype.hpp>
#include <cest/swap.hpp>
constexpr uint64_t math(unsigned n) {
  H h; double x = ((int)n - TIER(160, 640)) / TIER(8.0, 16.0);
  h.d(cest::abs(x)); h.d(cest::fabs(x)); h.d(cest::floor(x)); h.d(cest::ceil(x)); h.d(cest::sin(x)); h.d(cest::cos(x)); h.d(cest::exp(x)); h.d(cest::sinh(x)); h.d(cest::cosh(x)); h.d(cest::atan(x));
  if (x >= 0) h.d(cest::sqrt(x)); if (x > 0) h.d(cest::log(x)); for (int e = -4; e <= 8; e++) if (x != 0 || e >= 0) h.d(cest::pow(x, e)); for (double y : {-3.0, -0.5, 0.0, 1.0, 20.0}) { h.d(cest::atan2(y, x)); h.d(cest::atan2(x, y)); }
  return h.h;
}
BOTH(cmath_, math, TIER(321, 1281))
constexpr uint64_t ctyp(unsigned n) { H h; int c = (int)n - 512; h(cest::isalnum(c) != 0); h(cest::isupper(c) != 0); return h.h; }
BOTH(cctype_, ctyp, 1024)
struct Mv { El e; constexpr Mv(int x) : e(x) {} Mv(const Mv &) = delete; constexpr Mv(Mv &&o) : e(v(o.e)) { o.e = El(-1); } constexpr Mv &operator=(Mv &&o) { e = o.e; o.e = El(-1); return *this; } };
constexpr int v(const Mv &m) { return v(m.e); }
template <class T> constexpr uint64_t swp(unsigned n) {
  D d{n}; H h; T a(1), b(2), c(3), e(4), f(5); auto o = [&] { h(v(a)); h(v(b)); h(v(c)); h(v(e)); h(v(f)); };
  for (int k = 0; k < 3; k++) { switch (d(10)) { case 0: nary::swap(a, b); break; case 1: nary::swap(a, b, c); break; case 2: nary::swap(e, a, f, b); break; case 3: nary::swap(a, b, c, e, f); break; case 4: nary::swapr(a, b); break; case 5: nary::swapr(a, b, c); break; case 6: nary::swapr(e, a, f, b); break; case 7: nary::swapr(a, b, c, e, f); break; case 8: nary::swap(); nary::swapr(); break; case 9: nary::swapr(a); break; } o(); }
  return h.h;
}
BOTH(swap_int, swp<int>, 1000)
BOTH(swap_owner, swp<El>, 1000)
BOTH(swap_move_only, swp<Mv>, 1000)
#elif PART == 11
#include <cest/algorithm.hpp>
#include <cest/numeric.hpp>
#include <cest/iterator.hpp>
#include <cest/vector.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
template <class C> constexpr uint64_t alg(unsigned n) {
  D d{n}; H h; C c; unsigned len = d(5), code = d(81); for (unsigned i = 0; i < len; i++) { c.push_back(typename C::value_type(1 + code % 3)); code /= 3; }
  auto b = c.begin(), e = c.end(); auto ob = [&] { for (const auto &x : c) h(x); }; using V = typename C::value_type; cest::vector<V> o;
  h(std::distance(b, e)); h(cest::count(b, e, V(2))); h(cest::find(b, e, V(3)) == e); h(cest::find_if(b, e, [](auto x) { return x > 1; }) == b); h(cest::accumulate(b, e, 0)); h(cest::all_of(b, e, [](auto x) { return x < 3; })); h(cest::equal(b, e, b)); h(cest::adjacent_find(b, e) == e); h(cest::is_sorted(b, e)); h(cest::max_element(b, e) == b); h(cest::min_element(b, e) == b); h(cest::lower_bound(b, e, V(2)) == e);
  cest::copy(b, e, cest::back_inserter(o)); h(o.size()); cest::transform(b, e, b, [](auto x) { return V(x * 2); }); ob(); cest::replace(b, e, V(4), V(7)); ob(); auto r = cest::remove(b, e, V(2)); h(std::distance(b, r)); for (auto i = b; i != r; ++i) h(*i); cest::fill(r, e, V(5)); ob(); if (len) { cest::rotate(b, std::next(b), e); ob(); }
  if constexpr (requires { --b; }) { cest::reverse(b, e); ob(); } if constexpr (requires { b + 1; }) { cest::sort(b, e); ob(); cest::sort(b, e, [](auto x, auto y) { return x > y; }); ob(); h(e - b); }
  return h.h;
}
BOTH(algorithm_vector, alg<cest::vector<int>>, 405)
BOTH(algorithm_deque, alg<cest::deque<int>>, 405)
BOTH(algorithm_list, alg<cest::list<int>>, 405)
BOTH(algorithm_string, alg<cest::string>, 405)
#endif
MC_MAIN
