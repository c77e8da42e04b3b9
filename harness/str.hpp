// basic_string adapter: the whole vocabulary against a std::basic_string.
#ifndef VERIF_STR_HPP
#define VERIF_STR_HPP
#include "seq.hpp"
#include <cest/string.hpp>
#include <sstream>
#include <string>

namespace str {

template <class Ch> constexpr Ch letter(int i) {     // the alphabet: plain, null, high, next
  constexpr Ch top = sizeof(Ch) == 1 ? Ch(0xFF) : sizeof(Ch) == 2 ? Ch(0xFFFF) : Ch(0x10FFFF);
  constexpr Ch a[] = {Ch('a'), Ch(0), top, Ch('b'), Ch(0x80), Ch(1), Ch(0x7f), Ch('A')};
  return a[i];
}
template <class S> std::string show(const S &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < 60; i++) {
    auto u = (unsigned long)(std::make_unsigned_t<std::remove_cvref_t<decltype(s[0])>>)s[i]; char b[16];
    if (u >= 32 && u < 127) r += (char)u; else { snprintf(b, sizeof b, "\\x%lx", u); r += b; }
  }
  return r + "\"";
}
template <> inline std::string show(const std::u16string &) { return "(u16)"; }

// a counted buffer with nothing after it, so an overrun is seen
template <class Ch> struct Buf {
  Ch *p; size_t n;
  template <class S> explicit Buf(const S &s, bool nul) : n(s.size() + nul) {
    p = (Ch *)malloc(n * sizeof(Ch) + (n == 0)); for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; if (nul) p[s.size()] = Ch(0);
  }
  ~Buf() { free(p); }
  Buf(const Buf &) = delete;
};
// an input iterator over an array
template <class Ch> struct In {
  using iterator_category = std::input_iterator_tag; using value_type = Ch; using difference_type = ptrdiff_t;
  using pointer = const Ch *; using reference = Ch;
  const Ch *p; Ch operator*() const { return *p; } In &operator++() { ++p; return *this; }
  In operator++(int) { In t = *this; ++p; return t; }
  friend bool operator==(const In &a, const In &b) { return a.p == b.p; }
};

template <class Ch, class Al = std::allocator<Ch>, class Tr = std::char_traits<Ch>> struct Ad {
  using C = cest::basic_string<Ch, Tr, Al>; using M = std::basic_string<Ch>;

  static M text(int max, int letters) {              // any text up to `max` long
    M m; int n = mc::choose_in(0, max); for (int i = 0; i < n; i++) m += letter<Ch>(mc::choose(letters)); return m;
  }
  static std::string sh(const M &m) { if constexpr (sizeof(Ch) == 2) return "?"; else return show(m); }

  static C *make(M &m, int letters) {
    switch (mc::choose(5)) {
    case 0: return new C;
    case 1: { M t = text(2, letters); Buf<Ch> b(t, true); m = t.substr(0, t.find(Ch(0))); mc::tr("string(%s)", sh(m).c_str()); mc::op(); return new C(b.p); }
    case 2: { m = text(2, letters); Buf<Ch> b(m, false); mc::tr("string(%s, %zu)", sh(m).c_str(), m.size()); mc::op(); return new C(b.p, m.size()); }
    case 3: { m = text(2, letters); Buf<Ch> b(m, false); mc::tr("string(input range %s)", sh(m).c_str()); mc::op();
      return new C(In<Ch>{b.p}, In<Ch>{b.p + b.n}); }
    default: { m = text(2, letters); C t(m.data(), m.size()); mc::tr("string(string %s)", sh(m).c_str()); mc::op(); return new C(static_cast<const C &>(t)); }
    }
  }
  enum { PUSH, POP, APP_S, APP_N, PLUS_S, PLUS_C, AS_S, AS_C, CLEAR, RESERVE, WRITE, NOPS };
  static void menu(Menu &u, const M &m) {
    u.add(PUSH); u.add(POP, !m.empty()); u.add(APP_S); u.add(APP_N); u.add(AS_S); u.add(AS_C); u.add(CLEAR); u.add(RESERVE);
    u.add(WRITE, !m.empty()); u.add(PLUS_S); u.add(PLUS_C);
  }
  static void apply(int op, C &c, M &m, int letters, int len = 2) {
    mc::op(); C *ret = &c;
    switch (op) {
    case PUSH: { Ch x = letter<Ch>(mc::choose(letters)); mc::tr("push_back"); c.push_back(x); m.push_back(x); break; }
    case POP: mc::tr("pop_back"); c.pop_back(); m.pop_back(); break;
    case APP_S: { M t = text(len, letters); C s(t.data(), t.size()); mc::tr("append(string %s)", sh(t).c_str()); ret = &c.append(s); m += t;
      if (s.size() != t.size()) mc::fail("append changed its argument"); break; }
    case APP_N: { M t = text(len, letters); Buf<Ch> b(t, false); mc::tr("append(%s, %zu)", sh(t).c_str(), t.size()); ret = &c.append(b.p, b.n); m += t; break; }
    case PLUS_S: { M t = text(len - 1, letters); C s(t.data(), t.size()); mc::tr("+= string %s", sh(t).c_str()); ret = &(c += s); m += t; break; }
    case PLUS_C: { Ch x = letter<Ch>(mc::choose(letters)); mc::tr("+= character"); ret = &(c += x); m += x; break; }
    case AS_S: { M t = text(len, letters); C s(t.data(), t.size()); mc::tr("= string %s", sh(t).c_str()); ret = &(c = static_cast<const C &>(s)); m = t; break; }
    case AS_C: { M t = text(len, letters); Buf<Ch> b(t, true); m = t.substr(0, t.find(Ch(0))); mc::tr("= C string %s", sh(m).c_str()); ret = &(c = static_cast<const Ch *>(b.p)); break; }
    case CLEAR: mc::tr("clear"); c.clear(); m.clear(); break;
    case RESERVE: { size_t cap = c.capacity(), ks[4] = {0, cap, cap + 1, 2 * cap + 3}; size_t k = ks[mc::choose(4)]; mc::tr("reserve(%zu)", k); c.reserve(k);
      if (c.capacity() < k) mc::fail("capacity() is %zu after reserve(%zu)", c.capacity(), k); break; }
    case WRITE: { int w = mc::choose(m.size() > 2 ? 4 : (int)m.size() > 1 ? 2 : 1); Ch x = letter<Ch>(mc::choose(letters)); size_t n = m.size();
      mc::tr("write a character, way %d", w);
      if (w == 0) { c.front() = x; m.front() = x; } else if (w == 1) { c.back() = x; m.back() = x; }
      else if (w == 2) { c[n / 2] = x; m[n / 2] = x; } else { c.begin()[n / 2] = x; c.data()[0] = x; m[n / 2] = x; m[0] = x; } break; }
    }
    if (ret != &c) mc::fail("the operation does not return its string");
  }
  static void observe(C &c, const M &m) {
    const C &k = c; size_t n = m.size();
    if (k.size() != n || k.length() != n) mc::fail("size() is %zu, not %zu", k.size(), n);
    if (k.empty() != (n == 0)) mc::fail("empty() is wrong");
    if (k.capacity() < n) mc::fail("capacity() %zu is below size %zu", k.capacity(), n);
    for (size_t i = 0; i < n; i++) {
      if (k[i] != m[i] || c[i] != m[i]) mc::fail("[%zu] of %zu is wrong: %lx, not %lx", i, n, (unsigned long)k[i], (unsigned long)m[i]);
      if (k.data()[i] != m[i] || c.data()[i] != m[i] || k.c_str()[i] != m[i]) mc::fail("data()[%zu] is wrong", i);
    }
    if (k.c_str()[n] != Ch(0) || k.data()[n] != Ch(0) || c[n] != Ch(0) || k[n] != Ch(0)) mc::fail("the character after the last of %zu is not null", n);
    if (M(c.begin(), c.end()) != m || M(k.begin(), k.end()) != m || M(k.cbegin(), k.cend()) != m) mc::fail("iteration is wrong");
    if (n && (k.front() != m[0] || c.front() != m[0])) mc::fail("front() is wrong");
    if (n && (k.back() != m[n-1] || c.back() != m[n-1])) mc::fail("back() is wrong");
  }
  static uint64_t h(const M &m, uint64_t s = 1) { return mc::hash(m.data(), m.size() * sizeof(Ch), s + m.size()); }
};
template <class A> void history(int depth, int letters) {
  typename A::M m; auto *c = A::make(m, letters);
  for (int i = 0; i < depth; i++) { Menu u; A::menu(u, m); A::apply(u.pick(), *c, m, letters); }
  mc::state(A::h(m)); A::observe(*c, m); delete c;
}
// two strings: copies and assignments
template <class A> void two(int depth, int letters) {
  using C = typename A::C; using M = typename A::M; C *c[2]; M m[2];
  for (int i = 0; i < 2; i++) { m[i] = A::text(2, letters); c[i] = new C(m[i].data(), m[i].size()); mc::tr("string %d is %s", i, A::sh(m[i]).c_str()); }
  for (int s = 0; s < depth; s++) {
    int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(7)) {
    case 0: { Menu u; u.add(A::PUSH); u.add(A::POP, !m[i].empty()); u.add(A::CLEAR); u.add(A::RESERVE); u.add(A::WRITE, !m[i].empty());
      mc::tr("string %d:", i); A::apply(u.pick(), *c[i], m[i], letters, 1); break; }
    case 1: { mc::tr("%d = %d", i, j); mc::op(); C &r = (*c[i] = static_cast<const C &>(*c[j])); m[i] = m[j]; if (&r != c[i]) mc::fail("assignment does not return its target"); break; }
    case 2: { mc::tr("%d is copied from %d", i, j); mc::op(); C *n = new C(static_cast<const C &>(*c[j])); delete c[i]; c[i] = n; m[i] = m[j]; break; }
    case 3: { mc::tr("%d += %d", i, j); mc::op(); *c[i] += *c[j]; m[i] += m[j]; break; }
    case 4: { mc::tr("%d = moved %d", i, j); mc::op(); *c[i] = std::move(*c[j]); m[i] = m[j]; m[j].assign(c[j]->data(), c[j]->size()); break; }
    case 5: { mc::tr("%d is moved from %d", i, j); mc::op(); C *n = new C(std::move(*c[j])); delete c[i]; c[i] = n; m[i] = m[j]; m[j].assign(c[j]->data(), c[j]->size()); break; }
    case 6: { mc::tr("%d = characters of %d", i, j); mc::op(); *c[i] = c[j]->c_str(); m[i] = m[j].substr(0, m[j].find(m[j].c_str()[m[j].size()])); break; }
    }
  }
  for (int i = 0; i < 2; i++) { A::observe(*c[i], m[i]); mc::state(A::h(m[i], 2)); }
  int f = mc::choose(2); delete c[f]; A::observe(*c[1 - f], m[1 - f]);
  c[1 - f]->push_back(letter<typename M::value_type>(0)); m[1 - f] += letter<typename M::value_type>(0); A::observe(*c[1 - f], m[1 - f]);
  delete c[1 - f];
}
} // namespace str
#endif
