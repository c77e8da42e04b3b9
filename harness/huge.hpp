// Sizes at which a count, a difference or a place no longer fits 15 or 16 bits. One history per size and way; the contents
// are a formula, so nothing but the container itself is large.
#ifndef VERIF_HUGE_HPP
#define VERIF_HUGE_HPP
#include "mc.hpp"
#include <stdexcept>
#include <vector>
namespace huge {
inline int size() {
  static const int q[] = {32767, 32768, 65535, 65536, 65537}, t[] = {32767, 32768, 32769, 65535, 65536, 65537, 98304, 131071, 131073, 262145};
  return mc::thorough ? mc::pick(t) : mc::pick(q);
}
inline int f(int i) { return (int)((unsigned)i * 2654435761u >> 3); }
// the elements of c are f(lo), f(lo + d), ... ; n of them; checked through iterators
template <class C> void runs(const C &c, int lo, int n, int d, const char *how) {
  int i = 0; for (auto it = c.begin(); !(it == c.end()); ++it, ++i) { if (i >= n) mc::fail("%s: iterating goes past the %d elements", how, n); if (*it != f(lo + i * d)) mc::fail("%s: element %d of %d is wrong", how, i, n); }
  if (i != n) mc::fail("%s: iterating ends after %d of %d elements", how, i, n);
  if constexpr (requires { c.size(); }) if (c.size() != (size_t)n) mc::fail("%s: size() is %zu, not %d", how, (size_t)c.size(), n);
  if (c.empty() != (n == 0)) mc::fail("%s: empty() is wrong", how);
  if (n) { if (c.front() != f(lo)) mc::fail("%s: front() is wrong", how); if constexpr (requires { c.back(); }) if (c.back() != f(lo + (n - 1) * d)) mc::fail("%s: back() is wrong", how); }
  if constexpr (requires { c[0]; }) for (int k = 0; k < n; k++) if (c[k] != f(lo + k * d)) mc::fail("%s: [%d] of %d is wrong", how, k, n);
}
template <class C> void vector() {
  int n = size(), way = mc::choose(6); mc::tr("%d elements, way %d", n, way); mc::op(); C c; mc::state(n * 8 + way);
  auto throws = [&](size_t p) { try { (void)c.at(p); } catch (std::out_of_range &) { return; } mc::fail("at(%zu) of %zu elements does not throw", p, c.size()); };
  for (int i = 0; i < n; i++) c.push_back(f(i));
  runs(c, 0, n, 1, "pushed"); throws(n); throws((size_t)n + 65536); if (c.at(n - 1) != f(n - 1) || c.data()[n - 1] != f(n - 1)) mc::fail("the last of %d elements is wrong", n);
  if (c.end() - c.begin() != n || c.rend() - c.rbegin() != n) mc::fail("the distance of end from begin is not %d", n);
  mc::op();
  switch (way) {
  case 0: { C d(static_cast<const C &>(c)); runs(d, 0, n, 1, "copied"); C e; e.push_back(1); e = static_cast<const C &>(c); runs(e, 0, n, 1, "assigned"); if (!(d == e)) mc::fail("equal vectors of %d elements compare unequal", n); e.pop_back(); if (d == e) mc::fail("vectors of %d and %d elements compare equal", n, n - 1); d[n - 1] ^= 1; if (c == d) mc::fail("vectors differing at %d compare equal", n - 1); break; }
  case 1: { auto it = c.erase(c.begin(), c.begin() + (n - 7)); if (it != c.begin()) mc::fail("erase returns the wrong position"); runs(c, n - 7, 7, 1, "erased at the front"); break; }
  case 2: { auto it = c.erase(c.begin() + 5, c.end()); if (it != c.end()) mc::fail("erase returns the wrong position"); runs(c, 0, 5, 1, "erased at the back"); break; }
  case 3: c.resize(n + 3); if (c.size() != (size_t)n + 3 || c[n] != 0 || c[n + 2] != 0) mc::fail("resize to %d leaves %zu elements", n + 3, c.size()); c.resize(n); runs(c, 0, n, 1, "resized"); c.resize(3); runs(c, 0, 3, 1, "resized"); break;
  case 4: { size_t k = c.capacity(); c.reserve(k + 1); if (c.capacity() < k + 1) mc::fail("capacity() is %zu below what was reserved", c.capacity()); runs(c, 0, n, 1, "reserved"); C d((size_t)n); if (d.size() != (size_t)n) mc::fail("vector(%d) has %zu elements", n, d.size()); for (int i = 0; i < n; i++) { if (d[i] != 0) mc::fail("vector(%d) holds %d", n, d[i]); d[i] = f(i); } runs(d, 0, n, 1, "vector(n)"); d.swap(c); runs(c, 0, n, 1, "swapped"); break; }
  case 5: for (int i = 0; i < n; i++) { if (c.back() != f(n - 1 - i) || c.size() != size_t(n - i)) mc::fail("%d pops of %d go wrong", i, n); c.pop_back(); } runs(c, 0, 0, 1, "popped"); break;
  }
  mc::op();
}
// both ends of a deque; the larger sizes are for a count of blocks
inline int deque_size() { static const int q[] = {32767, 32768, 65535, 65536, 65537, 131079, 196617}; return mc::pick(q); }
template <class C> void deque() {
  int n = deque_size(), way = mc::choose(n > 65537 ? 1 : 4); mc::tr("%d elements, way %d", n, way); mc::op(); C c; mc::state(n * 8 + way);
  if (way == 0) { for (int i = 0; i < n; i++) c.push_back(f(i)); runs(c, 0, n, 1, "pushed at the back"); C d(c); runs(d, 0, n, 1, "copied"); for (int i = 0; i < n; i++) { if (c.front() != f(i) || c.size() != size_t(n - i)) mc::fail("%d pops of %d go wrong", i, n); c.pop_front(); } }
  if (way == 1) { for (int i = 0; i < n; i++) c.push_front(f(i)); runs(c, n - 1, n, -1, "pushed at the front"); C d; d.push_back(1); d = c; runs(d, n - 1, n, -1, "assigned"); for (int i = 0; i < n; i++) { if (c.back() != f(i) || c.size() != size_t(n - i)) mc::fail("%d pops of %d go wrong", i, n); c.pop_back(); } }
  if (way == 2) { for (int i = 0; i < n; i++) { c.push_back(f(i)); if (i >= 3) c.pop_front(); } runs(c, n - 3, 3, 1, "slid"); c.clear(); }
  if (way == 3) { int k = n / 3; for (int i = k - 1; i >= 0; i--) c.push_front(f(i)); for (int i = k; i < n; i++) c.push_back(f(i)); runs(c, 0, n, 1, "pushed at both ends"); for (int i = 0; i < n - 2; i++) if (i & 1) c.pop_back(); else c.pop_front(); runs(c, (n - 1) / 2, 2, 1, "popped at both ends"); c.clear(); }
  runs(c, 0, 0, 1, "emptied"); c.push_front(7); if (c.front() != 7 || c.size() != 1) mc::fail("a deque emptied does not serve again"); mc::op();
}
template <class C> void deque_iterators() {
  int n = deque_size(), front = mc::choose(n > 65537 ? 1 : 2); mc::tr("%d elements pushed at the %s", n, front ? "front" : "back"); C c; mc::state(n * 2 + front);
  for (int i = 0; i < n; i++) if (front) c.push_front(f(n - 1 - i)); else c.push_back(f(i));
  const C &k = c; auto b = c.begin(); auto e = c.end(); auto cb = k.begin(); auto ce = k.end(); mc::op();
  if (e - b != n || b - e != -n || ce - cb != n || cb - ce != -n) mc::fail("end and begin of %d elements are %td apart", n, e - b);
  if (!(b + n == e) || !(e - n == b) || !(cb + n == ce) || !(ce - n == cb) || !(b < e) || e < b) mc::fail("a jump over %d elements goes elsewhere", n);
  for (int i = 0; i < n; i++) if (b[i] != f(i) || *(e - (n - i)) != f(i) || cb[i] != f(i) || ce[i - n] != f(i)) mc::fail("a jump to element %d of %d denotes another", i, n);
  auto p = e; for (int i = n; i-- > 0;) { --p; if (*p != f(i)) mc::fail("stepping back to %d denotes another element", i); if (p - b != i) mc::fail("the position of %d is %td", i, p - b); } if (!(p == b)) mc::fail("stepping back does not end at begin"); mc::op();
}
template <class C> void list() {
  int n = size(), way = mc::choose(3); mc::tr("%d elements, way %d", n, way); mc::op(); C c; mc::state(n * 8 + way);
  for (int i = 0; i < n; i++) if (way) c.push_front(f(n - 1 - i)); else c.push_back(f(i));
  runs(c, 0, n, 1, "pushed"); { C d(c); runs(d, 0, n, 1, "copied"); C e; e.push_back(1); e = c; runs(e, 0, n, 1, "assigned"); }
  if (way == 0) for (int i = 0; i < n - 2; i++) c.pop_front(); else if (way == 1) { auto it = c.begin(); for (int i = 0; i < n - 2; i++) it = c.erase(it); } else { auto it = c.end(); for (int i = 0; i < n - 2; i++) { --it; --it; --it; it = c.erase(it); ++it; ++it; } }
  if (c.size() != 2) mc::fail("size() is %zu after all but two were erased", c.size()); if (way < 2) runs(c, n - 2, 2, 1, "erased"); else runs(c, n - 2, 2, 1, "erased from the middle");
  c.pop_back(); c.pop_back(); runs(c, 0, 0, 1, "emptied"); mc::op();
}
template <class C> void forward_list() {
  int n = size(), way = mc::choose(3); mc::tr("%d elements, way %d", n, way); mc::op(); C c; mc::state(n * 8 + way);
  if (way) for (int i = n; i-- > 0;) c.push_front(f(i)); else { auto it = c.before_begin(); for (int i = 0; i < n; i++) it = c.insert_after(it, f(i)); }
  runs(c, 0, n, 1, "pushed"); { C d(c); runs(d, 0, n, 1, "copied"); C e; e.push_front(1); e = c; runs(e, 0, n, 1, "assigned"); e.swap(d); runs(d, 0, n, 1, "swapped"); }
  auto it = c.begin(); if (way < 2) { ++it; auto r = c.erase_after(it, c.end()); if (!(r == c.end())) mc::fail("erase_after returns the wrong position"); runs(c, 0, 2, 1, "erased"); } else { for (int i = 0; i < n - 1; i++) c.erase_after(c.begin() == c.end() ? c.before_begin() : it); runs(c, 0, 1, 1, "erased one by one"); }
  c.clear(); runs(c, 0, 0, 1, "cleared"); mc::op();
}
template <class T> void tree() {
  int n = size(), order = mc::choose(3); mc::tr("%d keys, order %d", n, order); mc::op(); typename T::C c; mc::state(n * 8 + order);
  auto key = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : (int)((long)i * 40503 % n); };       // 40503 and every size here are coprime, or the set below says so
  if (order == 2) { std::vector<bool> s(n); for (int i = 0; i < n; i++) s[key(i)] = true; for (bool x : s) if (!x) return; }
  for (int i = 0; i < n; i++) { auto r = T::put(c, key(i), f(key(i))); if (!r.second || T::k(r.first) != key(i)) mc::fail("inserting %d as number %d reports an old key, or another place", key(i), i); }
  auto all = [&](const typename T::C &x, const char *how) {
    if (x.size() != (size_t)n || x.empty()) mc::fail("%s: size() is %zu, not %d", how, x.size(), n);
    int i = 0; for (auto it = x.begin(); it != x.end(); ++it, i++) if (T::k(it) != i || (T::is_map && T::v(it) != f(i))) mc::fail("%s: entry %d is wrong", how, i); if (i != n) mc::fail("%s: %d entries are visited, not %d", how, i, n);
    for (i = 0; i < n; i++) { auto it = x.find(i); if (it == x.end() || T::k(it) != i) mc::fail("%s: key %d is not found", how, i); } if (!(x.find(n) == x.end()) || !(x.find(-1) == x.end())) mc::fail("%s: a key is found that is not there", how); };
  all(c, "inserted"); for (int i = 0; i < n; i += 97) if (T::put(c, i, 1).second) mc::fail("inserting %d again reports a new key", i);
  { typename T::C d(c); all(d, "copied"); typename T::C e; T::put(e, 5, 5); e = d; all(e, "assigned"); d.clear(); if (d.size() || !(d.begin() == d.end())) mc::fail("clear leaves %zu keys", d.size()); } mc::op();
}
template <class S> void string() {
  using Ch = typename S::value_type; int n = size(), way = mc::choose(5); mc::tr("%d characters, way %d", n, way); mc::op(); mc::state(n * 8 + way);
  auto g = [](int i) { return Ch('a' + (i * 7 + i / 251) % 26); };
  auto is = [&](const S &s, int n, const char *how) { if (s.size() != (size_t)n || s.length() != (size_t)n || s.empty() != !n) mc::fail("%s: size() is %zu, not %d", how, (size_t)s.size(), n); if (s.capacity() < s.size()) mc::fail("%s: capacity() is below size()", how);
    for (int i = 0; i < n; i++) if (s[i] != g(i)) mc::fail("%s: character %d of %d is wrong", how, i, n); if (s.c_str()[n] != Ch(0) || s.data()[n] != Ch(0)) mc::fail("%s: no null after %d characters", how, n); if (s.end() - s.begin() != n) mc::fail("%s: end is not %d past begin", how, n); if (n && (s.front() != g(0) || s.back() != g(n - 1))) mc::fail("%s: front() or back() is wrong", how); };
  Ch *raw = new Ch[n + 1]; for (int i = 0; i < n; i++) raw[i] = g(i); raw[n] = Ch(0);
  { S s; switch (way) {
    case 0: for (int i = 0; i < n; i++) s.push_back(g(i)); break; case 1: { S t(raw, n); s = static_cast<const S &>(t); is(t, n, "the source"); break; }
    case 2: s = static_cast<const Ch *>(raw); break; case 3: s.append(raw, n / 2); { S t(raw + n / 2, n - n / 2); s += t; } break; default: { S t(static_cast<const Ch *>(raw)); s = S(t); break; } }
    is(s, n, "built"); { S t(s); is(t, n, "copied"); if (!(t == s) || t.compare(s) != 0 || t != s) mc::fail("equal texts of %d compare unequal", n); t.pop_back(); is(t, n - 1, "popped"); if (t == s || !(t < s) || t.compare(s) >= 0) mc::fail("texts of %d and %d compare wrongly", n - 1, n); }
    size_t k = s.capacity(); s.reserve(k + 10); if (s.capacity() < k + 10) mc::fail("reserve(%zu) leaves %zu", k + 10, (size_t)s.capacity()); is(s, n, "reserved"); while (s.size() > 3) s.pop_back(); is(s, 3, "popped"); s.clear(); is(s, 0, "cleared"); }
  delete[] raw; mc::op();
}
template <class S> void find() {
  using Ch = typename S::value_type; int n = size(), at = mc::choose(5); int i = at == 0 ? n - 1 : at == 1 ? 32768 : at == 2 ? 65535 : at == 3 ? 65536 : n - 3; if (i < 0 || i >= n) return; mc::tr("%d characters, the odd one at %d", n, i); mc::op(); mc::state(n * 8 + at);
  S s; for (int k = 0; k < n; k++) s.push_back(k == i ? Ch('b') : Ch('a')); S b; b.push_back(Ch('b')); S ab; ab.push_back(Ch('a')); ab.push_back(Ch('b')); const Ch z[] = {Ch('b'), Ch(0)};
  auto eq = [&](size_t got, size_t want, const char *how) { if (got != want) mc::fail("%s yields %zd, not %zd", how, got, want); };
  for (size_t pos : {size_t(0), size_t(1), size_t(i), size_t(i) + 1, size_t(n - 1), size_t(n), size_t(n) + 1, size_t(i) + 65536, S::npos}) {
    size_t w = pos <= size_t(i) ? i : S::npos; eq(s.find(Ch('b'), pos), w, "find(character)"); eq(s.find(b, pos), w, "find(string)"); eq(s.find(static_cast<const Ch *>(z), pos), w, "find(C string)"); eq(s.find(static_cast<const Ch *>(z), pos, 1), w, "find(characters)");
    eq(s.find(ab, pos), i > 0 && pos < size_t(i) ? i - 1 : S::npos, "find(string of two)"); eq(s.find(s, pos), pos == 0 ? 0 : S::npos, "find(itself)"); eq(s.find(S(), pos), pos <= size_t(n) ? pos : S::npos, "find(nothing)"); }
  mc::op();
}
template <class S> void compare() {         // one text is the beginning of the other
  using Ch = typename S::value_type; static const int ns[] = {0, 1, 255, 32768, 65535, 65536, 65537, 131072}; int n = mc::pick(ns), m = mc::pick(ns); mc::tr("%d characters and %d", n, m); mc::op(); mc::state(n * 31 + m);
  S a, b; a.reserve(n); b.reserve(m); for (int k = 0; k < n; k++) a.push_back(Ch('q')); for (int k = 0; k < m; k++) b.push_back(Ch('q'));
  auto bad = [&](const char *w) { mc::fail("%s is wrong for texts of %d and %d equal characters", w, n, m); }; const Ch *z = b.c_str(); const S &s = a, &t = b;
  int r = s.compare(t), rz = s.compare(z); if ((r < 0) != (n < m) || (r > 0) != (n > m)) bad("compare"); if ((rz < 0) != (n < m) || (rz > 0) != (n > m)) bad("compare with a C string");
  if ((s == t) != (n == m) || (s == z) != (n == m) || (z == s) != (n == m)) bad("=="); if ((s != t) != (n != m) || (s != z) != (n != m) || (z != s) != (n != m)) bad("!="); if ((s < t) != (n < m) || (s < z) != (n < m) || (z < s) != (m < n)) bad("<");
}
template <class Q> void queue() {
  int n = size(), slide = mc::choose(2); mc::tr("%d elements%s", n, slide ? ", a window of three" : ""); mc::op(); Q q; mc::state(n * 2 + slide); int gone = 0;
  auto ok = [&](int last) { if (q.front() != f(gone) || q.back() != f(last) || q.size() != size_t(last - gone + 1) || q.empty()) mc::fail("after %d pushes and %d pops: front, back or size %zu is wrong", last + 1, gone, (size_t)q.size()); };
  for (int i = 0; i < n; i++) { q.push(f(i)); ok(i); if (slide && i >= 3) { q.pop(); gone++; ok(i); } }
  { Q r(q); if (r.size() != q.size() || r.front() != q.front() || r.back() != q.back()) mc::fail("a copy of a queue of %zu differs", (size_t)q.size()); }
  for (; gone < n;) { ok(n - 1); q.pop(); gone++; } if (!q.empty() || q.size()) mc::fail("the queue is not empty in the end"); mc::op();
}
}
#endif
