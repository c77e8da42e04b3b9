#include "str.hpp"
#include "huge.hpp"
TRK_HEAP
using namespace str;
using AC = Ad<char>; using AT = Ad<char, trk::TAlloc<char>>; using AW = Ad<wchar_t, trk::TAlloc<wchar_t>>;
using A8 = Ad<char8_t>; using A16 = Ad<char16_t>; using A32 = Ad<char32_t, trk::TAlloc<char32_t>>;
MC_SCENARIO(hist_char, 2, 3, 4, 16) { history<AC>(depth, 3); }
MC_SCENARIO(hist_char2, 3, 4, 8, 16) { history<AT>(depth, 2); }
MC_SCENARIO(hist_char1, 4, 5, 8, 16) { history<AT>(depth, 1); }
MC_SCENARIO(hist_wchar, 2, 3, 2, 8) { history<AW>(depth, 3); }
MC_SCENARIO(hist_char8, 2, 3, 2, 8) { history<A8>(depth, 3); }
MC_SCENARIO(hist_char16, 2, 3, 2, 8) { history<A16>(depth, 3); }
MC_SCENARIO(hist_char32, 2, 3, 2, 8) { history<A32>(depth, 3); }
MC_SCENARIO(two_char, 3, 4, 8, 16) { two<AT>(depth, 2); }
MC_SCENARIO(two_wchar, 2, 3, 2, 8) { two<AW>(depth, 2); }
// pushes and pops only, long
MC_SCENARIO(lean, 8, 10, 4, 16) {
  AT::C c; AT::M m;
  for (int i = 0; i < depth; i++) {
    mc::op(); Menu u; u.add(0); u.add(1, !m.empty()); u.add(2); u.add(3);
    switch (u.pick()) {
    case 0: c.push_back('a' + i); m.push_back('a' + i); break;
    case 1: c.pop_back(); m.pop_back(); break;
    case 2: c.append("xyz", 3); m.append("xyz", 3); break;
    case 3: c.clear(); m.clear(); break;
    }
  }
  AT::observe(c, m); mc::state(AT::h(m, 3));
}
template <class A> typename A::M pattern(int n, int k) {
  typename A::M m; for (int i = 0; i < n; i++) m += letter<typename A::M::value_type>((i * 7 + k + i / 3) % 4); return m;
}
// every length: construction each way, then growth by each way
template <class A> void lengths(int max, bool far = false) {
  using C = typename A::C; using M = typename A::M; using Ch = typename M::value_type;
  int n = far ? pick_edge(max) : mc::choose_in(0, max), way = mc::choose(6), then = mc::choose(6);
  M m = pattern<A>(n, 1); Buf<Ch> b(m, false); C *c = nullptr; mc::op();
  mc::tr("length %d way %d then %d", n, way, then);
  switch (way) {
  case 0: c = new C(b.p, n); break;
  case 1: c = new C(In<Ch>{b.p}, In<Ch>{b.p + n}); break;
  case 2: c = new C; for (Ch x : m) c->push_back(x); break;
  case 3: c = new C; c->reserve(n); c->append(b.p, n); break;
  case 4: { C t(b.p, n); c = new C; *c = static_cast<const C &>(t); break; }
  case 5: { for (Ch &x : m) if (x == Ch(0)) x = Ch('z'); Buf<Ch> z(m, true); c = new C(static_cast<const Ch *>(z.p)); break; }
  }
  A::observe(*c, m); mc::op();
  switch (then) {
  case 0: for (int i = 0; i < 4; i++) { c->push_back(Ch('p')); m += Ch('p'); A::observe(*c, m); } break;
  case 1: { M t = pattern<A>(n + 1, 2); C s(t.data(), t.size()); c->append(s); m += t; break; }
  case 2: while (!m.empty()) { c->pop_back(); m.pop_back(); A::observe(*c, m); } break;
  case 3: c->reserve(2 * n + 5); A::observe(*c, m); { size_t cap = c->capacity(); const Ch *p = c->data();
      while (m.size() < 2 * (size_t)n + 5) { c->push_back(Ch('q')); m += Ch('q'); }
      if (c->capacity() < cap) mc::fail("capacity() shrinks while appending"); (void)p; } break;
  case 4: { M t = pattern<A>(n / 2, 3); C s(t.data(), t.size()); *c = static_cast<const C &>(s); m = t; A::observe(*c, m); c->push_back(Ch('r')); m += Ch('r'); break; }
  case 5: { C k(*c); k.push_back(Ch('s')); M mk = m; mk += Ch('s'); A::observe(k, mk); break; }
  }
  A::observe(*c, m); mc::state(A::h(m, 4 + way * 8 + then)); delete c;
}
MC_SCENARIO(lengths_char, 0, 0, 2, 4) { lengths<AT>(mc::thorough ? 300 : 80); }
MC_SCENARIO(lengths_wchar, 0, 0, 1, 2) { lengths<AW>(mc::thorough ? 200 : 40); }
MC_SCENARIO(lengths_char16, 0, 0, 1, 2) { lengths<A16>(mc::thorough ? 100 : 20); }
MC_SCENARIO(lengths_char8, 0, 0, 1, 2) { lengths<A8>(mc::thorough ? 100 : 20); }
MC_SCENARIO(far_char, 0, 0, 2, 4) { lengths<AC>(mc::thorough ? 16385 : 1025, true); }
MC_SCENARIO(far_wchar, 0, 0, 2, 4) { lengths<AW>(mc::thorough ? 4097 : 513, true); }
MC_SCENARIO(far_char32, 0, 0, 2, 4) { lengths<A32>(mc::thorough ? 4097 : 513, true); }
// assignment between every pair of lengths
static void assign_pairs(int n, int k) {
  int w = mc::choose(3), r = mc::choose(2);
  AT::M a = pattern<AT>(n, 1), b = pattern<AT>(k, 2); if (w == 1) for (char &x : b) if (!x) x = 'z';
  AT::C s(a.data(), a.size()), t(b.data(), b.size()); if (r) s.reserve(n + k); mc::op();
  mc::tr("length %d to length %d way %d", k, n, w);
  if (w == 0) { s = static_cast<const AT::C &>(t); a = b; } else if (w == 1) { Buf<char> z(b, true); s = static_cast<const char *>(z.p); a = b; } else { s += t; a += b; }
  AT::observe(s, a); AT::observe(t, b); s.push_back('!'); a += '!'; AT::observe(s, a); mc::state(AT::h(a, 60 + w));
}
MC_SCENARIO(assign_pairs, 0, 0, 2, 4) { int max = mc::thorough ? 70 : 24, n = mc::choose_in(0, max); assign_pairs(n, mc::choose_in(0, max)); }
MC_SCENARIO(assign_far, 0, 0, 2, 4) { int max = mc::thorough ? 4097 : 513, n = pick_edge(max); assign_pairs(n, pick_edge(max)); }
// from a real stream
MC_SCENARIO(from_stream, 0, 0, 1, 1) {
  int n = mc::choose(2) ? mc::choose_in(0, mc::thorough ? 1200 : 300) : pick_edge(mc::thorough ? 131073 : 16385); std::string t = pattern<AC>(n, 0); std::istringstream is(t); mc::op();
  cest::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  AC::observe(s, t); mc::state(AC::h(t, 70));
  std::wstring w; for (char x : t) w += wchar_t((unsigned char)x);   // not WEOF
  std::wistringstream ws(w);
  cest::wstring v((std::istreambuf_iterator<wchar_t>(ws)), std::istreambuf_iterator<wchar_t>());
  Ad<wchar_t>::observe(v, w);
}
// the named types
MC_SCENARIO(types, 0, 0, 1, 1) {
  mc::op(); mc::state(99);
  cest::string a("text"); cest::wstring b(L"text"); cest::u8string c(u8"text"); cest::u16string d(u"text"); cest::u32string e(U"text");
  Ad<char>::observe(a, "text"); Ad<wchar_t>::observe(b, L"text"); Ad<char8_t>::observe(c, u8"text"); Ad<char16_t>::observe(d, u"text"); Ad<char32_t>::observe(e, U"text");
}
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_char, 0, 0, 1, 2) { huge::string<cest::string>(); }
MC_SCENARIO(huge_char16, 0, 0, 1, 2) { huge::string<cest::u16string>(); }
#endif
MC_MAIN
