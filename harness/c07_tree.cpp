// set (C07) or, with -DMAP, map (C08)
#include "tree.hpp"
#include "huge.hpp"
TRK_HEAP
using namespace tree; using trk::Tok;
#ifdef MAP
template <class K, class C = std::less<K>, bool T = false> using Of = MapOf<K, C, T>;
using Tracked = MapOf<Tok, std::less<Tok>, true, Tok>;
#else
template <class K, class C = std::less<K>, bool T = false> using Of = SetOf<K, C, T>;
using Tracked = SetOf<Tok, std::less<Tok>, true>;
#endif

// every insertion order of n keys; then every key again
template <class T> void perms(int n, int stride, int base) {
  typename T::C c; Mdl m;
  std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(base + i * stride);
  std::vector<decltype(c.end())> its; std::vector<int> at;
  for (int i = 0; i < n; i++) {
    int j = mc::choose((int)left.size()); int k = left[j]; left.erase(left.begin() + j);
    put<T>(c, m, k, 100 + i);
    if (n <= 6) observe<T>(c, m, base - 1, base + n * stride, false);
    its.push_back(T::put(c, k, 0).first); at.push_back(k);
  }
  observe<T>(c, m, base - 1, base + n * stride);
  for (size_t i = 0; i < its.size(); i++) {
    int rk = rank_of<typename T::Compare>(at[i]);
    if (T::k(its[i]) != m.r[rk].first || T::v(its[i]) != m.r[rk].second) mc::fail("the position of %d now denotes %d", at[i], T::k(its[i]));
    walk_from<T>(its[i], c.end(), m, m.r.find(rk), "iteration from a retained position");
  }
  for (int i = 0; i < n; i++) put<T>(c, m, base + i * stride, 900 + i);
  observe<T>(c, m, base - 1, base + n * stride, false);
  mc::state(hm(m));
}
MC_SCENARIO(perms_int, 9, 10, 8, 16) { perms<Of<int>>(depth, 2, -6); }
MC_SCENARIO(perms_desc, 7, 8, 2, 8) { perms<Of<int, Desc>>(depth, 1, 0); }
MC_SCENARIO(perms_tok, 7, 8, 2, 8) { perms<Tracked>(depth, 1, 0); }
MC_SCENARIO(perms_half, 7, 8, 4, 8) { perms<Of<int, Half>>(depth, 1, -3); }
MC_SCENARIO(perms_alleq, 7, 8, 2, 8) { perms<Of<AllEq>>(depth, 1, 0); }
MC_SCENARIO(perms_nevereq, 7, 8, 2, 8) { perms<Of<NeverEq>>(depth, 1, 0); }
MC_SCENARIO(perms_halfeq, 7, 8, 4, 8) { perms<Of<HalfEq>>(depth, 1, -3); }
MC_SCENARIO(perms_noeq, 5, 7, 1, 4) { perms<Of<NoEq>>(depth, 1, 0); }

// every sequence of insertions over a few keys, repeats included
template <class T> void sequences(int depth, int keys, int base) {
  typename T::C c; Mdl m; int v = 1;
  for (int i = 0; i < depth; i++) put<T>(c, m, base + mc::choose(keys), v++);
  observe<T>(c, m, base - 2, base + keys + 1, false); mc::state(hm(m, 3));
}
MC_SCENARIO(seq_int, 7, 8, 8, 16) { sequences<Of<int>>(depth, 6, 0); }
MC_SCENARIO(seq_half, 7, 8, 4, 16) { sequences<Of<int, Half>>(depth, 5, -2); }
MC_SCENARIO(seq_mod, 6, 7, 1, 8) { sequences<Of<int, Mod>>(depth, 6, 0); }

// extreme keys
MC_SCENARIO(extremes, 5, 7, 2, 8) {
  static const int ks[] = {0, -1, 1, 0x7fffffff, -0x7fffffff - 1, 0x7ffffffe, -0x7fffffff};
  using T = Of<int>; T::C c; Mdl m; int v = 1;
  for (int i = 0; i < depth; i++) put<T>(c, m, mc::pick(ks), v++);
  walk_from<T>(c.begin(), c.cend(), m, m.r.begin(), "iteration");
  for (int k : ks) { auto f = c.find(k); bool in = m.r.count(k);
    if ((f != c.end()) != in || (in && T::k(f) != k)) mc::fail("find(%d) is wrong", k); }
  mc::state(hm(m, 4));
}
// stand-in keys
template <class T> void probes(int depth) {
  typename T::C c; Mdl m;
  for (int i = 0; i < depth; i++) put<T>(c, m, mc::choose(5), i);
  observe_probe<T>(c, m, -1, 5); mc::state(hm(m, 5));
}
MC_SCENARIO(probe_less, 5, 6, 1, 4) { probes<Of<int, std::less<>>>(depth); }
MC_SCENARIO(probe_desc, 5, 6, 1, 4) { probes<Of<int, Desc>>(depth); }
MC_SCENARIO(probe_half, 5, 6, 1, 4) { probes<Of<int, Half>>(depth); }
MC_SCENARIO(probe_key, 4, 5, 1, 4) { probes<Of<NoEq, Desc>>(depth); }

// one or two objects: insertions, clears, copies, assignments, hints, writes
template <class T> void histories(int depth, int keys, int nobj) {
  using C = typename T::C; C *c[2]; Mdl m[2]; int v = 1;
  for (int i = 0; i < nobj; i++) c[i] = new C;
  for (int s = 0; s < depth; s++) {
    int i = nobj == 2 ? mc::choose(2) : 0, j = 1 - i;
    Menu u; u.add(0); u.add(1); u.add(2); 
    if (nobj == 2) { u.add(3); u.add(4); u.add(5); u.add(6); }
    u.add(7);
    switch (u.pick()) {
    case 0: mc::tr("object %d:", i); put<T>(*c[i], m[i], mc::choose(keys), v++); break;
    case 1: mc::tr("object %d: clear()", i); mc::op(); c[i]->clear(); m[i].r.clear(); break;
    case 2: if constexpr (T::is_map) {               // write the value of an entry
        int k = mc::choose(keys), w = 1000 + v++; auto f = c[i]->find(typename T::K(k)); mc::op();
        auto p = m[i].r.find(rank_of<typename T::Compare>(k));
        if ((f != c[i]->end()) != (p != m[i].r.end())) mc::fail("find(%d) is wrong", k);
        if (p != m[i].r.end()) { mc::tr("object %d: value of %d = %d", i, k, w); f->second = w; p->second.second = w; }
      } else {                                       // insert with a hint: any position
        int k = mc::choose(keys), h = mc::choose(keys + 1); auto hint = c[i]->begin();
        if (h == keys) hint = c[i]->end(); else { hint = c[i]->find(typename T::K(h)); if (hint == c[i]->end()) hint = c[i]->begin(); }
        mc::tr("object %d: insert %d with a hint", i, k); mc::op();
        auto r = c[i]->insert(hint, typename T::K(k)); int rk = rank_of<typename T::Compare>(k);
        m[i].r.insert({rk, {k, 0}});
        if (r == c[i]->end() || T::k(r) != m[i].r[rk].first) mc::fail("inserting %d with a hint yields another position", k);
      } break;
    case 3: { mc::tr("%d = %d", i, j); mc::op(); C &r = (*c[i] = static_cast<const C &>(*c[j])); m[i] = m[j]; if (&r != c[i]) mc::fail("assignment does not return its target"); break; }
    case 4: { mc::tr("%d is copied from %d", i, j); mc::op(); C *n = new C(static_cast<const C &>(*c[j])); delete c[i]; c[i] = n; m[i] = m[j]; break; }
    case 5: case 6: { mc::tr("object %d is moved", i); mc::op(); C *n = new C(std::move(*c[j])); delete c[i]; c[i] = n; m[i] = m[j];
        Mdl left; for (auto it = c[j]->begin(); it != c[j]->end(); ++it) left.r[rank_of<typename T::Compare>(T::k(it))] = {T::k(it), T::v(it)};
        m[j] = left; break; }
    case 7: if (m[i].r.size()) { mc::tr("object %d: insert what is there", i); for (auto p = m[i].r.begin(); p != m[i].r.end(); ++p) put<T>(*c[i], m[i], p->second.first, 7777); } break;
    }
  }
  for (int i = 0; i < nobj; i++) { observe<T>(*c[i], m[i], -1, keys); mc::state(hm(m[i], 6)); }
  if (nobj == 2) { int f = mc::choose(2); delete c[f]; observe<T>(*c[1 - f], m[1 - f], -1, keys, false);
    put<T>(*c[1 - f], m[1 - f], 2, v++); observe<T>(*c[1 - f], m[1 - f], -1, keys, false); delete c[1 - f]; }
  else delete c[0];
}
MC_SCENARIO(hist_int, 4, 6, 4, 16) { histories<Of<int>>(depth, 4, 1); }
MC_SCENARIO(hist_tok, 4, 5, 2, 8) { histories<Tracked>(depth, 3, 1); }
MC_SCENARIO(hist_half, 4, 5, 2, 8) { histories<Of<int, Half>>(depth, 4, 1); }
MC_SCENARIO(two_int, 3, 4, 8, 16) { histories<Of<int>>(depth, 3, 2); }
MC_SCENARIO(two_tok, 3, 4, 8, 16) { histories<Tracked>(depth, 2, 2); }
// copies and assignments between every pair of sizes and of insertion patterns
MC_SCENARIO(copies, 0, 0, 2, 4) {
  using T = Tracked; int a = mc::choose_in(0, 17), b = mc::choose_in(0, 17), w = mc::choose(3);
  mc::tr("size %d, size %d, way %d", a, b, w);
  T::C x, y; Mdl mx, my;
  for (int i = 0; i < a; i++) put<T>(x, mx, w == 0 ? i : w == 1 ? -i : (i & 1 ? i : -i), i);
  for (int i = 0; i < b; i++) put<T>(y, my, w == 0 ? -i : i, 50 + i);
  mc::op(); y = static_cast<const T::C &>(x); observe<T>(y, mx, -18, 18, false); observe<T>(x, mx, -18, 18, false);
  T::C z(y); mc::op(); Mdl mz = mx; put<T>(z, mz, 100, 1); observe<T>(z, mz, -18, 101, false); observe<T>(y, mx, -18, 101, false);
  mc::op(); x.clear(); observe<T>(x, Mdl{}, -18, 18); observe<T>(y, mx, -18, 18, false);
  mc::state(hm(mx, hm(my)));
}
// long insertion orders: every word of relative moves, repeated
MC_SCENARIO(long_orders, 3, 5, 4, 16) {
  using T = Of<int>; int n = mc::thorough ? 200 : 80;
  std::vector<int> w; for (int i = 0; i < depth; i++) w.push_back(mc::choose(MOVES));
  auto keys = relative_order(w, n); T::C c; Mdl m;
  for (int t = 0; t < n; t++) put<T>(c, m, 2 * keys[t], t);
  observe<T>(c, m, -1, 2 * n, false);
  uint64_t h = 0; for (int x : w) h = h * 31 + x; mc::state(h + depth * 100003);
}
// a thousand keys and more: every iterator kind end to end, every key found, every retained position good
MC_SCENARIO(large, 2, 3, 4, 16) {
  using T = Of<int>; static const int ns[] = {300, 1100, 2100}; int n = mc::thorough ? mc::pick(ns) : 1100;
  std::vector<int> w; for (int i = 0; i < depth; i++) w.push_back(mc::choose(MOVES));
  mc::tr("%d keys, moves %s", n, show(w).c_str());
  auto keys = relative_order(w, n); T::C c; Mdl m; std::vector<decltype(c.end())> it;
  for (int t = 0; t < n; t++) { put<T>(c, m, 2 * keys[t], t); it.push_back(T::put(c, 2 * keys[t], -1).first); }
  for (int t = 0; t < n; t++) {
    if (T::k(it[t]) != 2 * keys[t] || T::v(it[t]) != m.r[2 * keys[t]].second) mc::fail("the position of %d now denotes %d", 2 * keys[t], T::k(it[t]));
    auto p = m.r.find(2 * keys[t]), q = p; auto i = it[t]; ++i; ++q;
    if (q == m.r.end() ? !(i == c.end()) : (i == c.end() || T::k(i) != q->first)) mc::fail("the position after %d is wrong", 2 * keys[t]);
    auto j = it[t]; if (p != m.r.begin()) { --p; --j; if (T::k(j) != p->first) mc::fail("the position before %d is wrong", 2 * keys[t]); }
  }
  observe<T>(c, m, -1, 2 * n, false);
  T::C d(c); observe<T>(d, m, -1, 2 * n, false); c.clear(); observe<T>(c, Mdl{}, -1, 9); observe<T>(d, m, -1, 2 * n, false);
  uint64_t h = n; for (int x : w) h = h * 31 + x; mc::state(h);
}
#if !__has_feature(memory_sanitizer)
MC_SCENARIO(huge_, 0, 0, 1, 2) { huge::tree<Of<int>>(); }
#endif
MC_MAIN
