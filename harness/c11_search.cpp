// find, compare and the relational operators, over every small text
#include "str.hpp"
#include "huge.hpp"
TRK_HEAP
using namespace str;
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class M> uint64_t hh(const M &m, uint64_t s) { return mc::hash(m.data(), m.size() * sizeof(m[0]), s * 131 + m.size()); }

template <class Ch, class Tr = std::char_traits<Ch>> struct Sr {
  using S = cest::basic_string<Ch, Tr>; using M = std::basic_string<Ch, Tr>;
  static M text(int lo, int max, int letters) { M m; int n = mc::choose_in(lo, max); for (int i = 0; i < n; i++) m += letter<Ch>(mc::choose(letters)); return m; }
  static void eq(size_t got, size_t want, const char *how, const M &t, const M &p, size_t pos) {
    if (got != want) mc::fail("%s in a text of %zu for a pattern of %zu from %zd yields %zd, not %zd (%s in %s)", how, t.size(), p.size(), pos, got, want,
                              Ad<Ch>::sh(typename Ad<Ch>::M(p.data(), p.size())).c_str(), Ad<Ch>::sh(typename Ad<Ch>::M(t.data(), t.size())).c_str());
  }
  static size_t naive(const M &t, const M &p, size_t pos) {       // the definition
    if (pos > t.size()) return S::npos;
    for (size_t i = pos; i + p.size() <= t.size(); i++) { bool ok = true;
      for (size_t k = 0; k < p.size(); k++) if (!Tr::eq(t[i + k], p[k])) ok = false;
      if (ok) return i; }
    return S::npos;
  }
  static void find_all(const M &t, const M &p) {
    Buf<Ch> raw(p, false), z(p, true); S s(t.data(), t.size()), q(p.data(), p.size());
    M pc = p.substr(0, std::char_traits<Ch>::length(z.p)); if constexpr (!std::is_same_v<Tr, std::char_traits<Ch>>) pc = p.substr(0, Tr::length(z.p));
    size_t ps[40]; int n = 0; for (size_t i = 0; i <= t.size() + 2 && n < 36; i++) ps[n++] = i; ps[n++] = S::npos; ps[n++] = S::npos - 1;
    for (int i = 0; i < n; i++) { size_t pos = ps[i]; mc::op();
      eq(s.find(q, pos), naive(t, p, pos), "find(string)", t, p, pos);
      eq(s.find(raw.p, pos, raw.n), naive(t, p, pos), "find(characters, pos, count)", t, p, pos);
      eq(s.find(static_cast<const Ch *>(z.p), pos), naive(t, pc, pos), "find(C string)", t, pc, pos);
      if (p.size() == 1) eq(s.find(p[0], pos), naive(t, p, pos), "find(character)", t, p, pos);
    }
    eq(s.find(q), naive(t, p, 0), "find(string)", t, p, 0); eq(s.find(static_cast<const Ch *>(z.p)), naive(t, pc, 0), "find(C string)", t, pc, 0);
    if (p.size() == 1) eq(s.find(p[0]), naive(t, p, 0), "find(character)", t, p, 0);
    if (p.size() == 0) eq(s.find(letter<Ch>(0)), naive(t, M(1, letter<Ch>(0)), 0), "find(character)", t, p, 0);
  }
  static int order(const M &a, const M &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (Tr::lt(a[i], b[i])) return -1; if (Tr::lt(b[i], a[i])) return 1; }
    return a.size() < b.size() ? -1 : a.size() > b.size();
  }
  static void cmp(const M &a, const M &b) {
    mc::op();
    S s(a.data(), a.size()), t(b.data(), b.size()); int o = order(a, b);
    auto bad = [&](const char *what) { mc::fail("%s is wrong for %s and %s", what, Ad<Ch>::sh(typename Ad<Ch>::M(a.data(), a.size())).c_str(), Ad<Ch>::sh(typename Ad<Ch>::M(b.data(), b.size())).c_str()); };
    if (sgn(s.compare(t)) != o) bad("compare(string)");
    if (sgn(t.compare(s)) != -o) bad("compare(string), reversed,");
    if ((s == t) != (o == 0)) bad("==");
    if ((s != t) != (o != 0)) bad("!=");
    if ((s < t) != (o < 0)) bad("<");
    Buf<Ch> z(b, true); const Ch *cs = z.p; M c = b.substr(0, Tr::length(cs)); int oc = order(a, c);
    if (sgn(s.compare(cs)) != oc) bad("compare(C string)");
    if ((s == cs) != (oc == 0) || (cs == s) != (oc == 0)) bad("== with a C string");
    if ((s != cs) != (oc != 0) || (cs != s) != (oc != 0)) bad("!= with a C string");
    if ((s < cs) != (oc < 0)) bad("< with a C string");
    if ((cs < s) != (oc > 0)) bad("C string < string");
  }
};
struct CI : std::char_traits<char> {                 // case-insensitive
  static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
  static bool eq(char a, char b) { return up(a) == up(b); }
  static bool lt(char a, char b) { return (unsigned char)up(a) < (unsigned char)up(b); }
  static int compare(const char *a, const char *b, size_t n) { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
  static const char *find(const char *s, size_t n, char c) { for (; n--; ++s) if (eq(*s, c)) return s; return nullptr; }
};
template <class X> void find_small(int tmax, int tl, int pmax, int pl) {
  auto t = X::text(0, tmax, tl); auto p = X::text(0, pmax, pl); mc::state(hh(t, 1) ^ hh(p, 2)); X::find_all(t, p);
}
MC_SCENARIO(find_char, 0, 0, 8, 16) { find_small<Sr<char>>(mc::thorough ? 7 : 5, 3, 3, 3); }
MC_SCENARIO(find_two, 0, 0, 8, 16) { find_small<Sr<char>>(mc::thorough ? 10 : 8, 2, mc::thorough ? 5 : 4, 2); }
MC_SCENARIO(find_letters, 0, 0, 2, 16) { find_small<Sr<char>>(mc::thorough ? 4 : 3, 5, 2, 5); }
MC_SCENARIO(find_wchar, 0, 0, 2, 8) { find_small<Sr<wchar_t>>(mc::thorough ? 6 : 4, 3, 2, 3); }
MC_SCENARIO(find_char16, 0, 0, 2, 8) { find_small<Sr<char16_t>>(mc::thorough ? 6 : 4, 3, 2, 3); }
MC_SCENARIO(find_char32, 0, 0, 1, 8) { find_small<Sr<char32_t>>(mc::thorough ? 6 : 3, 3, 2, 3); }
MC_SCENARIO(find_char8, 0, 0, 1, 8) { find_small<Sr<char8_t>>(mc::thorough ? 6 : 3, 3, 2, 3); }
template <class X> void cmp_small(int max, int letters) {
  auto a = X::text(0, max, letters); auto b = X::text(0, max, letters); mc::state(hh(a, 3) ^ hh(b, 4)); X::cmp(a, b);
}
MC_SCENARIO(cmp_char, 0, 0, 8, 16) { cmp_small<Sr<char>>(mc::thorough ? 4 : 3, 6); }
MC_SCENARIO(cmp_three, 0, 0, 8, 16) { cmp_small<Sr<char>>(mc::thorough ? 6 : 5, 3); }
MC_SCENARIO(cmp_wchar, 0, 0, 2, 8) { cmp_small<Sr<wchar_t>>(mc::thorough ? 5 : 4, 3); }
MC_SCENARIO(cmp_char16, 0, 0, 1, 8) { cmp_small<Sr<char16_t>>(mc::thorough ? 5 : 3, 4); }
MC_SCENARIO(cmp_char32, 0, 0, 1, 8) { cmp_small<Sr<char32_t>>(mc::thorough ? 5 : 3, 4); }
MC_SCENARIO(cmp_char8, 0, 0, 1, 8) { cmp_small<Sr<char8_t>>(mc::thorough ? 5 : 3, 4); }
MC_SCENARIO(own_traits_cmp, 0, 0, 2, 8) { cmp_small<Sr<char, CI>>(mc::thorough ? 4 : 3, 4); }
MC_SCENARIO(own_traits_find, 0, 0, 2, 8) {
  using X = Sr<char, CI>; static const char al[] = {'a', 'A', 'b', 0};
  X::M t, p; int n = mc::choose_in(0, 4); for (int i = 0; i < n; i++) t += al[mc::choose(4)]; n = mc::choose_in(0, 2); for (int i = 0; i < n; i++) p += al[mc::choose(4)];
  mc::state(hh(t, 5) ^ hh(p, 6)); X::find_all(t, p);
}
// longer texts: one odd character at every place; a pattern with its prefix repeated
// a text against parts of itself, where they lie
MC_SCENARIO(own_text, 0, 0, 4, 8) {
  using T = Sr<char>; std::string t = T::text(0, mc::thorough ? 6 : 5, 3); cest::string s(t.data(), t.size()); const cest::string &c = s; int k = mc::choose_in(0, (int)t.size()); const char *p = c.c_str() + k; std::string z(p), tail = t.substr(k); mc::tr("a text of %zu, from %d", t.size(), k); mc::op(); mc::state(hh(t, k + 77));
  int o = sgn(T::order(t, z)); auto bad = [&](const char *w) { mc::fail("%s is wrong for %s and its own end from %d", w, Ad<char>::sh(Ad<char>::M(t.data(), t.size())).c_str(), k); };
  if (sgn(c.compare(p)) != o) bad("compare"); if ((c == p) != (o == 0) || (p == c) != (o == 0)) bad("=="); if ((c != p) != (o != 0) || (p != c) != (o != 0)) bad("!="); if ((c < p) != (o < 0) || (p < c) != (o > 0)) bad("<");
  if (c.compare(c) != 0 || !(c == c) || c != c || c < c) bad("comparing a text with itself");
  for (size_t pos = 0; pos <= t.size() + 1; pos++) { T::eq(c.find(p, pos), T::naive(t, z, pos), "find(C string)", t, z, pos); T::eq(c.find(c, pos), T::naive(t, t, pos), "find(string)", t, t, pos); for (size_t n = 0; n <= tail.size(); n++) T::eq(c.find(p, pos, n), T::naive(t, tail.substr(0, n), pos), "find(characters, pos, count)", t, tail.substr(0, n), pos); }
}
MC_SCENARIO(find_long, 0, 0, 4, 8) {
  using X = Sr<char>; int n = mc::choose_in(0, mc::thorough ? 34 : 20), i = mc::choose_in(0, n), k = mc::choose_in(0, 6), w = mc::choose(4);
  X::M t(n, 'a'); if (i < n) t[i] = w == 3 ? '\0' : 'b';
  X::M p(k, 'a'); if (w == 1 && k) p[k - 1] = 'b'; if (w == 2 && k) p[0] = 'b'; if (w == 3 && k) p[k / 2] = '\0';
  mc::state(hh(t, 7) ^ hh(p, 8)); X::find_all(t, p);
}
// longer comparisons: equal but for one place or the length
MC_SCENARIO(cmp_long, 0, 0, 2, 4) {
  using X = Sr<char>; int n = mc::choose_in(0, mc::thorough ? 80 : 40), m = mc::choose_in(0, n), i = mc::choose_in(0, m), w = mc::choose(4);
  X::M a(n, 'q'), b(m, 'q'); static const char d[4] = {'\0', 'p', '\xff', '\x80'}; if (i < m) b[i] = d[w];
  mc::state(hh(a, 9) ^ hh(b, 10)); X::cmp(a, b); X::cmp(b, a);
}
// all pairs of characters
MC_SCENARIO(all_chars, 0, 0, 1, 1) {
  using X = Sr<char>; int a = mc::choose(256); for (int b = 0; b < 256; b++) { X::cmp(X::M(1, (char)a), X::M(1, (char)b)); X::find_all(X::M("x") + (char)b + "y", X::M(1, (char)a)); } mc::state(a);
}
// texts, patterns and places around powers of two
MC_SCENARIO(find_far, 0, 0, 4, 8) {
  using X = Sr<char>; int max = mc::thorough ? 2049 : 513, n = pick_edge(max), k = pick_edge(max), i = pick_edge(max), w = mc::choose(3); if (i > n) i = n; if (k > n) k = n;
  X::M t(n, 'a'); if (i < n) t[i] = 'b'; X::M p(k, 'a'); if (w == 1 && k) p[k - 1] = 'b'; if (w == 2 && k) p[0] = 'b';
  X::S s(t.data(), t.size()), q(p.data(), p.size()); Buf<char> raw(p, false), z(p, true); mc::state(hh(t, 17) ^ hh(p, 18));
  for (size_t pos : {size_t(0), size_t(1), size_t(i), size_t(i) + 1, size_t(n - k), size_t(n - k) + 1, size_t(n), size_t(n) + 1, X::S::npos}) { mc::op(); size_t want = t.find(p, pos);
    X::eq(s.find(q, pos), want, "find(string)", t, p, pos); X::eq(s.find(raw.p, pos, raw.n), want, "find(characters, pos, count)", t, p, pos); X::eq(s.find(static_cast<const char *>(z.p), pos), want, "find(C string)", t, p, pos);
    X::eq(s.find('b', pos), t.find('b', pos), "find(character)", t, "b", pos); X::eq(s.find('z', pos), X::S::npos, "find(character)", t, "z", pos); }
}
template <class Ch> void cmp_far(int max) {
  using X = Sr<Ch>; int n = pick_edge(max), m = pick_edge(max), i = pick_edge(max), w = mc::choose(3); if (i > m) i = m;
  typename X::M a(n, Ch('q')), b(m, Ch('q')); static const Ch d[3] = {Ch(0), Ch('p'), Ch(-1)}; if (i < m) b[i] = d[w];
  mc::state(hh(a, 19) ^ hh(b, 20)); X::cmp(a, b); X::cmp(b, a);
}
MC_SCENARIO(cmp_far, 0, 0, 4, 8) { cmp_far<char>(mc::thorough ? 2049 : 513); }
MC_SCENARIO(cmp_far_wide, 0, 0, 1, 4) { cmp_far<char32_t>(mc::thorough ? 1025 : 129); }
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_find, 0, 0, 1, 2) { huge::find<cest::string>(); }
MC_SCENARIO(huge_find_wide, 0, 0, 1, 2) { huge::find<cest::u32string>(); }
MC_SCENARIO(huge_compare, 0, 0, 1, 2) { huge::compare<cest::string>(); }
MC_SCENARIO(huge_compare_wide, 0, 0, 1, 2) { huge::compare<cest::wstring>(); }
#endif
MC_MAIN
