// Adapters: each container's whole public vocabulary as a menu of operations,
// every one paired with its effect on a mathematical sequence (a vector<int>).
// Parameters (positions, counts, ways) are explorer choices.
#ifndef VERIF_SEQ_HPP
#define VERIF_SEQ_HPP

#include "mc.hpp"
#include "track.hpp"
#include <cest/vector.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/queue.hpp>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <vector>

using Model = std::vector<int>;
using trk::val;

enum class Cls { STRONG, BASIC, NOTHROW };   // what must hold if the operation throws

inline std::string show(const Model &m) {
  std::string s = "[";
  for (size_t i = 0; i < m.size(); i++) {
    if (i) s += ' ';
    if (i > 40) { s += "..."; break; }
    s += std::to_string(m[i]);
  }
  return s + "]";
}
inline uint64_t hmodel(const Model &m, uint64_t h = 1) {
  return mc::hash(m.data(), m.size() * sizeof(int), h + m.size());
}
inline void same(const Model &got, const Model &want, const char *how) {
  if (got != want) mc::fail("%s: %s instead of %s", how, show(got).c_str(), show(want).c_str());
}
// Walk [b,e), at most n+2 steps, so that a broken iterator cannot run away.
template <class I> Model walk(I b, I e, size_t n, const char *how) {
  Model r;
  while (!(b == e)) {
    if (r.size() > n) mc::fail("%s goes past the last element", how);
    r.push_back(val(*b)); ++b;
  }
  return r;
}

// sizes at and around every power of two, where storage, counters and tables change
inline int pick_edge(int max) {
  int v[80], n = 0; v[n++] = 0;
  for (int p = 1; p <= 1 << 20; p *= 2) for (int d = -1; d <= 1; d++) if (p + d > v[n - 1] && p + d <= max) v[n++] = p + d;
  return v[mc::choose(n)];
}

struct Menu {
  int id[64]; int n = 0;
  void add(int i, bool ok = true) { if (ok) id[n++] = i; }
  int pick() { return id[mc::choose(n)]; }
};

// ================================ vector =====================================
template <class E_, class A_> struct VecAd {
  using E = E_; using C = cest::vector<E, A_>;
  static constexpr const char *name = "vector";
  static constexpr bool has_size = true, has_swap = true, has_move = true, has_alloc = true;

  enum { PUSH_L, PUSH_R, POP, ERASE, RESIZE, RESERVE, CLEAR, WRITE };
  static void grow(C &c, Model &m, int &next) { c.push_back(E(next)); m.push_back(next++); }
  static void brief(const C &c, const Model &m) { if (c.size() != m.size()) mc::fail("size() is %zu, not %zu", c.size(), m.size()); }
  static void lean_menu(Menu &u, const Model &m) { bool ne = !m.empty(); (void)ne; u.add(PUSH_L); u.add(POP, ne); u.add(CLEAR); u.add(ERASE); }
  static void menu(Menu &m, const C &, const Model &x) {
    m.add(PUSH_L); m.add(POP, !x.empty()); m.add(ERASE); m.add(RESIZE);
    m.add(PUSH_R); m.add(RESERVE); m.add(CLEAR); m.add(WRITE, !x.empty());
  }
  static C *make(Model &m, int &next) {            // all the ways to construct one
    switch (mc::choose(6)) {
    case 0: return new C;
    case 1: { int n = mc::choose_in(0, 3); mc::tr("vector(%d)", n);
              C *c = new C((size_t)n); m.assign(n, 0); return c; }
    case 2: { mc::tr("vector{}"); return new C(std::initializer_list<E>{}); }
    case 3: { int a = next++; mc::tr("vector{%d}", a); m = {a}; return new C{E(a)}; }
    case 4: { int a = next++, b = next++; mc::tr("vector{%d,%d}", a, b); m = {a, b}; return new C{E(a), E(b)}; }
    default: { int a = next++, b = next++, d = next++; mc::tr("vector{%d,%d,%d}", a, b, d);
              m = {a, b, d}; return new C{E(a), E(b), E(d)}; }
    }
  }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    int n = (int)m.size();
    switch (op) {
    case PUSH_L: { int x = next++; mc::tr("push_back(%d)", x); E e(x);
      trk::Fault *f = nullptr; (void)f; c.push_back(static_cast<const E &>(e));
      if (val(e) != x) mc::fail("push_back of an lvalue changed its argument");
      m.push_back(x); return Cls::STRONG; }
    case PUSH_R: { int x = next++; mc::tr("push_back(move(%d))", x); c.push_back(E(x)); m.push_back(x); return Cls::STRONG; }
    case POP: mc::tr("pop_back()"); c.pop_back(); m.pop_back(); return Cls::NOTHROW;
    case ERASE: {
      int i = mc::choose_in(0, n), j = mc::choose_in(i, n);
      mc::tr("erase(%d,%d)", i, j);
      auto it = c.erase(c.begin() + i, c.begin() + j);
      if (it != c.begin() + i) mc::fail("erase returns position %td, not %d", it - c.begin(), i);
      m.erase(m.begin() + i, m.begin() + j); return Cls::BASIC; }
    case RESIZE: {
      int cap = (int)c.capacity();
      int ks[5] = {0, n > 0 ? n - 1 : n, n + 1, cap, cap + 1};
      int k = ks[mc::choose(5)];
      mc::tr("resize(%d)", k); c.resize(k); m.resize(k, 0); return Cls::BASIC; }
    case RESERVE: {
      int cap = (int)c.capacity();
      int ks[4] = {0, cap, cap + 1, 2 * cap + 1};
      int k = ks[mc::choose(4)];
      mc::tr("reserve(%d)", k); c.reserve(k); return Cls::STRONG; }
    case CLEAR: mc::tr("clear()"); c.clear(); m.clear(); return Cls::NOTHROW;
    case WRITE: {
      int i = mc::choose(n), x = next++;
      mc::tr("[%d] = %d", i, x);
      E e(x);
      switch (i == 0 ? 0 : i == n - 1 ? 1 : i % 4) {
      case 0: if (i == 0) { c.front() = e; } else c.at(i) = e; break;
      case 1: if (i == n - 1) { c.back() = e; } else c.begin()[i] = e; break;
      case 2: c[i] = e; break;
      default: c.data()[i] = e; break;
      }
      m[i] = x; return Cls::BASIC; }
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) { return walk(c.begin(), c.end(), c.size(), "iteration"); }
  static void observe(C &c, const Model &m) {
    const C &k = c;
    size_t n = m.size();
    if (k.size() != n) mc::fail("size() is %zu, not %zu", k.size(), n);
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    if (k.capacity() < n) mc::fail("capacity() %zu is below size %zu", k.capacity(), n);
    same(walk(c.begin(), c.end(), n, "begin..end"), m, "begin..end");
    same(walk(k.begin(), k.end(), n, "const begin..end"), m, "const begin..end");
    same(walk(k.cbegin(), k.cend(), n, "cbegin..cend"), m, "cbegin..cend");
    Model r(m.rbegin(), m.rend());
    same(walk(c.rbegin(), c.rend(), n, "rbegin..rend"), r, "rbegin..rend");
    same(walk(k.rbegin(), k.rend(), n, "const rbegin..rend"), r, "const rbegin..rend");
    if (n && (c.data() != &c[0] || k.data() != &k[0])) mc::fail("data() is not the first element");
    for (size_t i = 0; i < n; i++) {
      if (val(c[i]) != m[i] || val(k[i]) != m[i]) mc::fail("[%zu] is not %d", i, m[i]);
      if (val(c.at(i)) != m[i] || val(k.at(i)) != m[i]) mc::fail("at(%zu) is not %d", i, m[i]);
      if (val(c.data()[i]) != m[i] || val(k.data()[i]) != m[i]) mc::fail("data()[%zu] is not %d", i, m[i]);
    }
    if (n) {
      if (val(c.front()) != m[0] || val(k.front()) != m[0]) mc::fail("front() is not %d", m[0]);
      if (val(c.back()) != m[n-1] || val(k.back()) != m[n-1]) mc::fail("back() is not %d", m[n-1]);
    }
  }
  static void observe_at(C &c, const Model &m) {
    const C &k = c;
    size_t bad[] = {m.size(), m.size() + 1, c.capacity(), c.capacity() + 1, SIZE_MAX, SIZE_MAX / 2 + 1};
    for (size_t i : bad) {
      if (i < m.size()) continue;
      int thrown = 0;
      try { (void)c.at(i); } catch (std::out_of_range &) { thrown++; }
      try { (void)k.at(i); } catch (std::out_of_range &) { thrown++; }
      if (thrown != 2) mc::fail("at(%zu) of %zu elements does not throw out_of_range", i, m.size());
    }
  }
};

// ================================ deque ======================================
template <class E_, class A_> struct DeqAd {
  using E = E_; using C = cest::deque<E, A_>;
  static constexpr const char *name = "deque";
  static constexpr bool has_size = true, has_swap = false, has_move = false, has_alloc = false;

  enum { PUSH_BL, PUSH_BR, PUSH_FL, PUSH_FR, POP_B, POP_F, CLEAR, WRITE };
  static void grow(C &c, Model &m, int &next) { if (next & 1) { c.push_front(E(next)); m.insert(m.begin(), next++); } else { c.push_back(E(next)); m.push_back(next++); } }
  static void brief(const C &c, const Model &m) { if (c.size() != m.size()) mc::fail("size() is %zu, not %zu", c.size(), m.size()); }
  static void lean_menu(Menu &u, const Model &m) { bool ne = !m.empty(); (void)ne; u.add(PUSH_BL); u.add(PUSH_FL); u.add(POP_B, ne); u.add(POP_F, ne); u.add(CLEAR); }
  static void menu(Menu &m, const C &, const Model &x) {
    m.add(PUSH_BL); m.add(PUSH_FL); m.add(POP_B, !x.empty()); m.add(POP_F, !x.empty());
    m.add(CLEAR); m.add(PUSH_BR); m.add(PUSH_FR); m.add(WRITE, !x.empty());
  }
  static C *make(Model &m, int &next) {
    switch (mc::choose(3)) {
    case 0: return new C;
    case 1: { mc::tr("deque{}"); return new C(std::initializer_list<E>{}); }
    default: { int a = next++, b = next++, d = next++; mc::tr("deque{%d,%d,%d}", a, b, d);
              m = {a, b, d}; return new C{E(a), E(b), E(d)}; }
    }
  }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    int n = (int)m.size();
    switch (op) {
    case PUSH_BL: { int x = next++; mc::tr("push_back(%d)", x); E e(x); c.push_back(static_cast<const E &>(e));
      if (val(e) != x) mc::fail("push_back of an lvalue changed its argument");
      m.push_back(x); return Cls::STRONG; }
    case PUSH_BR: { int x = next++; mc::tr("push_back(move(%d))", x); c.push_back(E(x)); m.push_back(x); return Cls::STRONG; }
    case PUSH_FL: { int x = next++; mc::tr("push_front(%d)", x); E e(x); c.push_front(static_cast<const E &>(e));
      if (val(e) != x) mc::fail("push_front of an lvalue changed its argument");
      m.insert(m.begin(), x); return Cls::STRONG; }
    case PUSH_FR: { int x = next++; mc::tr("push_front(move(%d))", x); c.push_front(E(x)); m.insert(m.begin(), x); return Cls::STRONG; }
    case POP_B: mc::tr("pop_back()"); c.pop_back(); m.pop_back(); return Cls::NOTHROW;
    case POP_F: mc::tr("pop_front()"); c.pop_front(); m.erase(m.begin()); return Cls::NOTHROW;
    case CLEAR: mc::tr("clear()"); c.clear(); m.clear(); return Cls::NOTHROW;
    case WRITE: { int w = mc::choose(n > 2 ? 3 : n), i = w == 0 ? 0 : w == 1 ? n - 1 : n / 2, x = next++;
      mc::tr("[%d] = %d", i, x); E e(x);
      if (w == 0) c.front() = e; else if (w == 1) c.back() = e; else c[i] = e;
      m[i] = x; return Cls::BASIC; }
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) {
    Model r; for (size_t i = 0; i < c.size(); i++) r.push_back(val(c[i])); return r;
  }
  static void observe(C &c, const Model &m) {
    const C &k = c; size_t n = m.size();
    if (k.size() != n) mc::fail("size() is %zu, not %zu", k.size(), n);
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    for (size_t i = 0; i < n; i++)
      if (val(c[i]) != m[i] || val(k[i]) != m[i]) mc::fail("[%zu] of %zu is not %d", i, n, m[i]);
    if (n) {
      if (val(c.front()) != m[0] || val(k.front()) != m[0]) mc::fail("front() is not %d", m[0]);
      if (val(c.back()) != m[n-1] || val(k.back()) != m[n-1]) mc::fail("back() is not %d", m[n-1]);
    }
  }
  // every position reached from every direction, mutable and constant
  template <class I> static void walk_both(I b, I e, const Model &m, bool all_pairs, const char *how) {
    size_t n = m.size();
    std::vector<I> it;                 // it[i]: position i
    I p = b;
    for (size_t i = 0; i < n; i++) {
      if (p == e) mc::fail("%s reaches end after %zu of %zu elements", how, i, n);
      if (val(*p) != m[i]) mc::fail("%s visits %d at position %zu, not %d", how, val(*p), i, m[i]);
      it.push_back(p);
      I before = p, old = p++;
      if (!(old == before)) mc::fail("%s: post-increment does not return the old position", how);
      if (val(*old) != m[i]) mc::fail("%s: post-increment's position denotes another element", how);
      I q = before; I &ref = ++q;
      if (&ref != &q || !(q == p)) mc::fail("%s: pre- and post-increment differ", how);
    }
    if (!(p == e)) mc::fail("%s does not reach end after %zu elements", how, n);
    it.push_back(p);
    for (size_t i = n; i-- > 0;) {
      I before = p, old = p--;
      if (!(old == before)) mc::fail("%s: post-decrement does not return the old position", how);
      if (!(p == it[i])) mc::fail("%s: stepping back does not return to position %zu", how, i);
      if (val(*p) != m[i]) mc::fail("%s: stepping back visits %d at position %zu, not %d", how, val(*p), i, m[i]);
      I q = before; I &ref = --q;
      if (&ref != &q || !(q == p)) mc::fail("%s: pre- and post-decrement differ", how);
      ++q;
      if (!(q == before)) mc::fail("%s: increment does not undo decrement at %zu", how, i + 1);
    }
    if (!(p == b)) mc::fail("%s: stepping back from end does not reach begin", how);
    for (size_t i = 0; i <= n; i++)
      for (size_t j = 0; j <= n; j++) {
        if (!all_pairs && i != 0 && j != 0 && i != n && j != n && i != j && i + 1 != j && j + 1 != i) continue;
        ptrdiff_t d = it[i] - it[j];
        if (d != (ptrdiff_t)i - (ptrdiff_t)j)
          mc::fail("%s: the difference of positions %zu and %zu is %td", how, i, j, d);
        if ((it[i] == it[j]) != (i == j)) mc::fail("%s: positions %zu and %zu compare wrongly", how, i, j);
        I q = it[j], r = it[j]; I &qr = (q += d), &rr = (r -= -d);
        if (!(q == it[i]) || !(r == it[i]) || &qr != &q || &rr != &r || !(it[j] + d == it[i]) || !(d + it[j] == it[i]) || !(it[i] - d == it[j]))
          mc::fail("%s: moving by %td from position %zu goes wrong", how, d, j);
        if (i < n && (val(*q) != m[i] || val(it[j][d]) != m[i])) mc::fail("%s: position %zu, reached from %zu, denotes another element", how, i, j);
        if ((it[i] < it[j]) != (i < j) || (it[i] > it[j]) != (i > j) || (it[i] <= it[j]) != (i <= j) || (it[i] >= it[j]) != (i >= j))
          mc::fail("%s: the order of positions %zu and %zu is wrong", how, i, j);
      }
  }
  static void observe_iter(C &c, const Model &m, bool all_pairs = true) {
    const C &k = c;
    walk_both(c.begin(), c.end(), m, all_pairs, "iteration");
    walk_both(k.begin(), k.end(), m, all_pairs, "const iteration");
    walk_both(k.cbegin(), k.cend(), m, all_pairs, "c-iteration");
    typename C::const_iterator ci = c.begin(), ce = c.end();
    if (!(ci == k.begin()) || !(ce == k.end())) mc::fail("a converted iterator denotes another position");
    if constexpr (!std::is_arithmetic_v<E>)
      if (!m.empty() && (c.begin()->v != m[0] || k.begin()->v != m[0])) mc::fail("-> denotes another element");
  }
};

// ================================ list =======================================
template <class E_, class A_> struct ListAd {
  using E = E_; using C = cest::list<E, A_>;
  static constexpr const char *name = "list";
  static constexpr bool has_size = true, has_swap = false, has_move = false, has_alloc = false;

  enum { INS_L, INS_R, EMPL, ERASE, PUSH_B, PUSH_BR, PUSH_F, PUSH_FR, POP_B, POP_F, EMPL_B, EMPL_F, CLEAR, WRITE };
  static void grow(C &c, Model &m, int &next) { c.push_back(E(next)); m.push_back(next++); }
  static void brief(const C &c, const Model &m) { if (c.size() != m.size()) mc::fail("size() is %zu, not %zu", c.size(), m.size()); }
  static void lean_menu(Menu &u, const Model &m) { bool ne = !m.empty(); (void)ne; u.add(INS_L); u.add(ERASE, ne); u.add(CLEAR); }
  static void menu(Menu &m, const C &, const Model &x) {
    bool ne = !x.empty();
    m.add(INS_L); m.add(ERASE, ne); m.add(PUSH_B); m.add(PUSH_F); m.add(POP_B, ne); m.add(POP_F, ne);
    m.add(EMPL); m.add(INS_R); m.add(CLEAR); m.add(EMPL_B); m.add(EMPL_F); m.add(PUSH_BR); m.add(PUSH_FR);
    m.add(WRITE, ne);
  }
  static C *make(Model &, int &) { return new C; }
  static auto at(C &c, int i) { auto it = c.begin(); while (i--) ++it; return it; }
  static int index(C &c, typename C::iterator p, size_t n) {
    auto it = c.begin(); int i = 0;
    for (; !(it == c.end()) && i <= (int)n; ++it, ++i) if (it == p) return i;
    return it == p ? i : -1;
  }
  static void ret(C &c, typename C::iterator p, int i, size_t n, const char *op) {
    if (index(c, p, n) != i) mc::fail("%s returns position %d, not %d", op, index(c, p, n), i);
  }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    int n = (int)m.size();
    switch (op) {
    case INS_L: { int i = mc::choose_in(0, n), x = next++; mc::tr("insert(%d, %d)", i, x); E e(x);
      auto it = c.insert(at(c, i), static_cast<const E &>(e)); m.insert(m.begin() + i, x);
      if (val(e) != x) mc::fail("insert of an lvalue changed its argument");
      ret(c, it, i, m.size(), "insert"); return Cls::STRONG; }
    case INS_R: { int i = mc::choose_in(0, n), x = next++; mc::tr("insert(%d, move(%d))", i, x);
      auto it = c.insert(at(c, i), E(x)); m.insert(m.begin() + i, x);
      ret(c, it, i, m.size(), "insert"); return Cls::STRONG; }
    case EMPL: { int i = mc::choose_in(0, n), x = next++; mc::tr("emplace(%d, %d)", i, x);
      auto it = c.emplace(at(c, i), x); m.insert(m.begin() + i, x);
      ret(c, it, i, m.size(), "emplace"); return Cls::STRONG; }
    case ERASE: { int i = mc::choose_in(0, n - 1); mc::tr("erase(%d)", i);
      auto it = c.erase(at(c, i)); m.erase(m.begin() + i); ret(c, it, i, m.size(), "erase"); return Cls::NOTHROW; }
    case PUSH_B: { int x = next++; mc::tr("push_back(%d)", x); E e(x); c.push_back(static_cast<const E &>(e)); m.push_back(x); return Cls::STRONG; }
    case PUSH_BR: { int x = next++; mc::tr("push_back(move(%d))", x); c.push_back(E(x)); m.push_back(x); return Cls::STRONG; }
    case PUSH_F: { int x = next++; mc::tr("push_front(%d)", x); E e(x); c.push_front(static_cast<const E &>(e)); m.insert(m.begin(), x); return Cls::STRONG; }
    case PUSH_FR: { int x = next++; mc::tr("push_front(move(%d))", x); c.push_front(E(x)); m.insert(m.begin(), x); return Cls::STRONG; }
    case POP_B: mc::tr("pop_back()"); c.pop_back(); m.pop_back(); return Cls::NOTHROW;
    case POP_F: mc::tr("pop_front()"); c.pop_front(); m.erase(m.begin()); return Cls::NOTHROW;
    case EMPL_B: { int x = next++; mc::tr("emplace_back(%d)", x); E &r = c.emplace_back(x); m.push_back(x);
      if (&r != &c.back()) mc::fail("emplace_back does not return the last element"); return Cls::STRONG; }
    case EMPL_F: { int x = next++; mc::tr("emplace_front(%d)", x); E &r = c.emplace_front(x); m.insert(m.begin(), x);
      if (&r != &c.front()) mc::fail("emplace_front does not return the first element"); return Cls::STRONG; }
    case CLEAR: mc::tr("clear()"); c.clear(); m.clear(); return Cls::NOTHROW;
    case WRITE: { int w = mc::choose(n > 2 ? 3 : n), i = w == 0 ? 0 : w == 1 ? n - 1 : 1, x = next++;
      mc::tr("*%d = %d", i, x); E e(x);
      if (w == 0) c.front() = e; else if (w == 1) c.back() = e; else *at(c, i) = e;
      m[i] = x; return Cls::BASIC; }
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) { return walk(c.begin(), c.end(), c.size(), "iteration"); }
  template <class I> static void walk_both(I b, I e, const Model &m, const char *how) {
    size_t n = m.size(); I p = b; std::vector<I> it;
    for (size_t i = 0; i < n; i++) {
      if (p == e) mc::fail("%s reaches end after %zu of %zu elements", how, i, n);
      if (val(*p) != m[i]) mc::fail("%s visits %d at position %zu, not %d", how, val(*p), i, m[i]);
      it.push_back(p);
      I before = p; I old = p++;
      if (!(old == before)) mc::fail("%s: post-increment does not return the old position", how);
      I q = before; ++q; if (!(q == p)) mc::fail("%s: pre- and post-increment differ", how);
    }
    if (!(p == e)) mc::fail("%s does not reach end after %zu elements", how, n);
    for (size_t i = n; i-- > 0;) {
      I before = p; I old = p--;
      if (!(old == before)) mc::fail("%s: post-decrement does not return the old position", how);
      if (!(p == it[i]) || val(*p) != m[i]) mc::fail("%s: stepping back misses position %zu", how, i);
      I q = before; --q; if (!(q == p)) mc::fail("%s: pre- and post-decrement differ", how);
    }
    if (!(p == b)) mc::fail("%s: stepping back from end does not reach begin", how);
  }
  static void observe(C &c, const Model &m) {
    const C &k = c; size_t n = m.size();
    if (k.size() != n) mc::fail("size() is %zu, not %zu", k.size(), n);
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    walk_both(c.begin(), c.end(), m, "iteration");
    walk_both(k.begin(), k.end(), m, "const iteration");
    walk_both(k.cbegin(), k.cend(), m, "c-iteration");
    if (n) {
      if (val(c.front()) != m[0] || val(k.front()) != m[0]) mc::fail("front() is not %d", m[0]);
      if (val(c.back()) != m[n-1] || val(k.back()) != m[n-1]) mc::fail("back() is not %d", m[n-1]);
      if constexpr (!std::is_arithmetic_v<E>)
        if (c.begin()->v != m[0] || k.begin()->v != m[0]) mc::fail("-> denotes another element");
    }
    typename C::const_iterator ci = c.begin();
    if (!(ci == k.begin())) mc::fail("a converted iterator denotes another position");
  }
};

// ============================= forward_list ==================================
template <class E_, class A_> struct FwdAd {
  using E = E_; using C = cest::forward_list<E, A_>;
  static constexpr const char *name = "forward_list";
  static constexpr bool has_size = false, has_swap = true, has_move = false, has_alloc = false;

  enum { INS_L, INS_R, ERASE1, ERASER, PUSH_F, PUSH_FR, POP_F, CLEAR, WRITE };
  static void grow(C &c, Model &m, int &next) { c.push_front(E(next)); m.insert(m.begin(), next++); }
  static void brief(const C &c, const Model &m) { if (c.empty() != m.empty()) mc::fail("empty() is wrong"); }
  static void lean_menu(Menu &u, const Model &m) { bool ne = !m.empty(); (void)ne; u.add(INS_L); u.add(ERASE1, ne); u.add(ERASER); u.add(CLEAR); }
  static void menu(Menu &m, const C &, const Model &x) {
    bool ne = !x.empty();
    m.add(INS_L); m.add(ERASE1, ne); m.add(ERASER); m.add(PUSH_F); m.add(POP_F, ne);
    m.add(INS_R); m.add(CLEAR); m.add(PUSH_FR); m.add(WRITE, ne);
  }
  static C *make(Model &, int &) { return new C; }
  static auto at(C &c, int i) { auto it = c.before_begin(); while (i--) ++it; return it; } // i=0: before begin
  static void ret(C &c, typename C::iterator p, int i, const char *op) {   // i: element index
    auto it = c.begin(); for (int k = 0; k < i; k++) ++it;
    if (!(it == p)) mc::fail("%s does not return position %d", op, i);
  }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    int n = (int)m.size();
    switch (op) {
    case INS_L: { int i = mc::choose_in(0, n), x = next++; mc::tr("insert_after(%d, %d)", i - 1, x); E e(x);
      auto it = c.insert_after(at(c, i), static_cast<const E &>(e)); m.insert(m.begin() + i, x);
      if (val(e) != x) mc::fail("insert_after of an lvalue changed its argument");
      ret(c, it, i, "insert_after"); return Cls::STRONG; }
    case INS_R: { int i = mc::choose_in(0, n), x = next++; mc::tr("insert_after(%d, move(%d))", i - 1, x);
      auto it = c.insert_after(at(c, i), E(x)); m.insert(m.begin() + i, x);
      ret(c, it, i, "insert_after"); return Cls::STRONG; }
    case ERASE1: { int i = mc::choose_in(0, n - 1); mc::tr("erase_after(%d)", i - 1);
      auto it = c.erase_after(at(c, i)); m.erase(m.begin() + i); ret(c, it, i, "erase_after"); return Cls::NOTHROW; }
    case ERASER: { int i = mc::choose_in(0, n), j = mc::choose_in(i, n);  // erases elements [i,j)
      mc::tr("erase_after(%d, %d)", i - 1, j);
      auto first = at(c, i); auto last = c.begin(); for (int k = 0; k < j; k++) ++last;
      auto it = c.erase_after(first, last);
      m.erase(m.begin() + i, m.begin() + j); ret(c, it, i, "erase_after"); return Cls::NOTHROW; }
    case PUSH_F: { int x = next++; mc::tr("push_front(%d)", x); E e(x); c.push_front(static_cast<const E &>(e)); m.insert(m.begin(), x); return Cls::STRONG; }
    case PUSH_FR: { int x = next++; mc::tr("push_front(move(%d))", x); c.push_front(E(x)); m.insert(m.begin(), x); return Cls::STRONG; }
    case POP_F: mc::tr("pop_front()"); c.pop_front(); m.erase(m.begin()); return Cls::NOTHROW;
    case CLEAR: mc::tr("clear()"); c.clear(); m.clear(); return Cls::NOTHROW;
    case WRITE: { int i = mc::choose(n > 2 ? 2 : n), x = next++; mc::tr("*%d = %d", i, x); E e(x);
      if (i == 0) c.front() = e; else *at(c, i + 1) = e;
      m[i] = x; return Cls::BASIC; }
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) { return walk(c.begin(), c.end(), 1u << 20, "iteration"); }
  template <class I> static void walk1(I b, I e, const Model &m, const char *how) {
    size_t n = m.size(); I p = b;
    for (size_t i = 0; i < n; i++) {
      if (p == e) mc::fail("%s reaches end after %zu of %zu elements", how, i, n);
      if (val(*p) != m[i]) mc::fail("%s visits %d at position %zu, not %d", how, val(*p), i, m[i]);
      I before = p; I old = p++;
      if (!(old == before)) mc::fail("%s: post-increment does not return the old position", how);
      I q = before; ++q; if (!(q == p)) mc::fail("%s: pre- and post-increment differ", how);
    }
    if (!(p == e)) mc::fail("%s does not reach end after %zu elements", how, n);
  }
  static void observe(C &c, const Model &m) {
    const C &k = c; size_t n = m.size();
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    walk1(c.begin(), c.end(), m, "iteration");
    walk1(k.begin(), k.end(), m, "const iteration");
    walk1(k.cbegin(), k.cend(), m, "c-iteration");
    auto bb = c.before_begin(); ++bb;
    if (!(bb == c.begin())) mc::fail("the position after before_begin is not begin");
    if (n) {
      if (val(c.front()) != m[0] || val(k.front()) != m[0]) mc::fail("front() is not %d", m[0]);
      if constexpr (!std::is_arithmetic_v<E>)
        if (c.begin()->v != m[0] || k.begin()->v != m[0]) mc::fail("-> denotes another element");
    }
    typename C::const_iterator ci = c.begin();
    if (!(ci == k.begin())) mc::fail("a converted iterator denotes another position");
  }
};

// ================================ queue ======================================
template <class E_, class Cont> struct QueAd {
  using E = E_; using C = cest::queue<E, Cont>;
  static constexpr const char *name = "queue";
  static constexpr bool has_size = true, has_swap = false, has_move = false, has_alloc = false;
  enum { PUSH_L, PUSH_R, POP, WRITE };
  static void grow(C &c, Model &m, int &next) { c.push(E(next)); m.push_back(next++); }
  static void brief(const C &c, const Model &m) { if (c.size() != m.size()) mc::fail("size() is %zu, not %zu", c.size(), m.size()); }
  static void lean_menu(Menu &u, const Model &m) { bool ne = !m.empty(); (void)ne; u.add(PUSH_L); u.add(POP, ne); }
  static void menu(Menu &m, const C &, const Model &x) {
    m.add(PUSH_L); m.add(POP, !x.empty()); m.add(PUSH_R); m.add(WRITE, !x.empty());
  }
  static C *make(Model &m, int &next) {
    switch (mc::choose(3)) {
    case 0: return new C;
    case 1: { Cont k; int n = mc::choose_in(0, 3);
      for (int i = 0; i < n; i++) { int x = next++; k.push_back(E(x)); m.push_back(x); }
      mc::tr("queue(container of %d)", n); C *q = new C(k);
      if (k.size() != (size_t)n) mc::fail("the container a queue is built from has changed"); 
      return q; }
    default: { Cont k; int n = mc::choose_in(0, 3);
      for (int i = 0; i < n; i++) { int x = next++; k.push_back(E(x)); m.push_back(x); }
      mc::tr("queue(move(container of %d))", n); return new C(std::move(k)); }
    }
  }
  static Cls apply(int op, C &c, Model &m, int &next) {
    mc::op();
    switch (op) {
    case PUSH_L: { int x = next++; mc::tr("push(%d)", x); E e(x); c.push(static_cast<const E &>(e));
      if (val(e) != x) mc::fail("push of an lvalue changed its argument");
      m.push_back(x); return Cls::STRONG; }
    case PUSH_R: { int x = next++; mc::tr("push(move(%d))", x); c.push(E(x)); m.push_back(x); return Cls::STRONG; }
    case POP: mc::tr("pop()"); c.pop(); m.erase(m.begin()); return Cls::NOTHROW;
    case WRITE: { int x = next++; E e(x); if (mc::flip()) { mc::tr("back() = %d", x); c.back() = e; m.back() = x; }
      else { mc::tr("front() = %d", x); c.front() = e; m.front() = x; } return Cls::BASIC; }
    }
    return Cls::BASIC;
  }
  static Model contents(const C &c) {            // a queue shows its elements as they leave
    C t(c); Model r;
    size_t n = t.size();
    while (!t.empty() && r.size() <= n) { r.push_back(val(t.front())); t.pop(); }
    return r;
  }
  static void observe(C &c, const Model &m) {
    const C &k = c; size_t n = m.size();
    if (k.size() != n) mc::fail("size() is %zu, not %zu", k.size(), n);
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    if (n) {
      if (val(c.front()) != m[0] || val(k.front()) != m[0]) mc::fail("front() is not %d", m[0]);
      if (val(c.back()) != m[n-1] || val(k.back()) != m[n-1]) mc::fail("back() is not %d", m[n-1]);
    }
  }
  static void observe_drain(C &c, Model m) {     // destroys: the elements leave in order
    while (!m.empty()) { observe(c, m); c.pop(); m.erase(m.begin()); }
    observe(c, m);
  }
};

// ============================ exploration drivers ============================
// One object, its whole vocabulary, every history of `depth` operations.
template <class Ad, class Obs> void history(int depth, Obs obs) {
  Model m; int next = 1;
  auto *c = Ad::make(m, next);
  for (int i = 0; i < depth; i++) {
    Menu menu; Ad::menu(menu, *c, m);
    Ad::apply(menu.pick(), *c, m, next);
  }
  mc::state(hmodel(m));
  obs(*c, m);
  delete c;
}
template <class Ad> void history(int depth) {
  history<Ad>(depth, [](auto &c, const Model &m) { Ad::observe(c, m); });
}

// Every iterator and reference to an element other than those an operation
// removes keeps denoting it. Values are unique, so they identify elements.
template <class Ad> auto positions(typename Ad::C &c, const Model &m) {
  std::vector<decltype(c.begin())> it; auto p = c.begin();
  for (size_t i = 0; i < m.size(); i++) { it.push_back(p); ++p; }
  return it;
}
template <class Ad> void kept_history(int depth) {
  Model m; int next = 1;
  auto *c = Ad::make(m, next);
  for (int i = 0; i < depth; i++) {
    Menu menu; Ad::menu(menu, *c, m); int op = menu.pick();
    if (i + 1 < depth) { Ad::apply(op, *c, m, next); continue; }
    auto it = positions<Ad>(*c, m); Model old = m;
    std::vector<const typename Ad::E *> at; for (auto &p : it) at.push_back(&*p);
    Ad::apply(op, *c, m, next);
    auto now = positions<Ad>(*c, m);
    for (size_t k = 0; k < old.size(); k++)
      for (size_t l = 0; l < m.size(); l++)
        if (old[k] == m[l]) {
          if (!(it[k] == now[l])) mc::fail("the iterator to %d denotes another position", old[k]);
          if (&*it[k] != at[k] || val(*at[k]) != m[l]) mc::fail("the reference to %d denotes %d", old[k], val(*at[k]));
          auto p = it[k]; for (size_t s = l; s < m.size(); s++, ++p)
            if (p == c->end() || val(*p) != m[s]) mc::fail("stepping on from the iterator to %d misses %d", old[k], m[s]);
          if (!(p == c->end())) mc::fail("stepping on from the iterator to %d does not reach end", old[k]);
        }
  }
  mc::state(hmodel(m));
  Ad::observe(*c, m);
  delete c;
}

// Two objects: own operations, copies, moves, assignments, swaps, destruction.
template <class Ad> void two_objects(int depth, int fill, bool lean = false) {
  using C = typename Ad::C;
  Model m[2]; int next = 1; C *v[2];
  for (int i = 0; i < 2; i++) {
    v[i] = new C;
    for (int k = 0, n = mc::choose_in(0, fill); k < n; k++) Ad::grow(*v[i], m[i], next);
    mc::tr("object %d holds %s", i, show(m[i]).c_str());
  }
  for (int s = 0; s < depth; s++) {
    int i = mc::choose(2), j = 1 - i; C &a = *v[i], &b = *v[j];
    int what = mc::choose(Ad::has_swap ? 6 : 5);
    if (what) mc::op();
    switch (what) {
    case 0: { mc::tr("object %d:", i); Menu u; if (lean) Ad::lean_menu(u, m[i]); else Ad::menu(u, a, m[i]);
              Ad::apply(u.pick(), a, m[i], next); break; }
    case 1: { mc::tr("%d = %d", i, j); C &r = (a = static_cast<const C &>(b)); m[i] = m[j];
              if (&r != &a) mc::fail("assignment does not return its target"); break; }
    case 2: { mc::tr("%d is copied from %d", i, j); C *n = new C(static_cast<const C &>(b)); delete v[i]; v[i] = n; m[i] = m[j]; break; }
    case 3: { mc::tr("%d is moved from %d", i, j); C *n = new C(std::move(b)); delete v[i]; v[i] = n; m[i] = m[j]; m[j] = Ad::contents(b); break; }
    case 4: { mc::tr("%d = move(%d)", i, j); a = std::move(b); m[i] = m[j]; m[j] = Ad::contents(b); break; }
    case 5: if constexpr (Ad::has_swap) { mc::tr("%d swap %d", i, j); a.swap(b); m[i].swap(m[j]); } break;
    }
    Ad::brief(*v[0], m[0]); Ad::brief(*v[1], m[1]);
  }
  mc::state(hmodel(m[1], hmodel(m[0])));
  Ad::observe(*v[0], m[0]); Ad::observe(*v[1], m[1]);
  int first = mc::choose(2);           // either may go first
  delete v[first]; Ad::observe(*v[1 - first], m[1 - first]); Ad::grow(*v[1 - first], m[1 - first], next);
  Ad::observe(*v[1 - first], m[1 - first]); delete v[1 - first];
}

// swaps: positions and references go with their elements
template <class Ad> void kept_swaps(int depth, int fill) {
  using C = typename Ad::C; using E = typename Ad::E; Model m[2]; int next = 1; C c[2]; struct Kept { typename C::iterator it; const E *p; int at; }; std::vector<Kept> k[2];
  for (int i = 0; i < 2; i++) { for (int n = mc::choose_in(0, fill); n > 0; n--) Ad::grow(c[i], m[i], next); int at = 0; for (auto it = c[i].begin(); !(it == c[i].end()); ++it) k[i].push_back({it, &*it, at++}); mc::tr("object %d holds %s", i, show(m[i]).c_str()); }
  mc::state(hmodel(m[1], hmodel(m[0])) + 7);
  for (int d = 0; d < depth; d++) { mc::op();
    switch (mc::choose(3)) { case 0: mc::tr("0 swap 1"); c[0].swap(c[1]); m[0].swap(m[1]); k[0].swap(k[1]); break; case 1: mc::tr("1 swap 1"); c[1].swap(c[1]); break;
      case 2: { mc::tr("writes through positions of 0"); for (auto &x : k[0]) { *x.it = E(next); m[0][x.at] = next++; } break; } }
    for (int i = 0; i < 2; i++) { Ad::observe(c[i], m[i]); for (auto &x : k[i]) { if (&*x.it != x.p || !(*x.p == E(m[i][x.at]))) mc::fail("position %d of what is now object %d denotes another element", x.at, i);
      auto it = x.it; size_t n = x.at; for (; !(it == c[i].end()); ++it, ++n) if (n >= m[i].size() || !(*it == E(m[i][n]))) mc::fail("walking on from position %d of what is now object %d goes astray", x.at, i); if (n != m[i].size()) mc::fail("walking on from position %d of what is now object %d ends early", x.at, i); } }
  }
}
#endif
