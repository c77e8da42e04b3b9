// Operations whose argument is the object itself, or one of its own elements.
#include "pair.hpp"
TRK_HEAP
using trk::Tok; using trk::TokC; using A = trk::TAlloc<Tok>;

// what every container is asked: itself as the argument
template <class Ad> void selfops(typename Ad::C &c, Model &m) {
  using C = typename Ad::C; mc::op();
  switch (mc::choose(4)) {
  case 0: { mc::tr("c = c"); C &r = (c = static_cast<const C &>(c)); if (&r != &c) mc::fail("assignment does not return its target"); break; }
  case 1: { mc::tr("c = move(c)"); C &o = c; c = std::move(o); break; }
  case 2: { mc::tr("swap(c, c)"); if constexpr (Ad::has_swap) c.swap(c); else std::swap(c, c); break; }
  case 3: { if constexpr (requires { c == c; }) { mc::tr("c == c"); if (!(c == c)) mc::fail("an object does not equal itself"); } break; }
  }
  (void)m;
}
// an own element as the argument; i: which one
template <class E, class Al> bool own(VecAd<E, Al>, auto &c, Model &m, int &) {
  int n = (int)m.size(); if (!n) return false; int i = mc::choose(n), x = m[i]; mc::op();
  switch (mc::choose(5)) {
  case 0: mc::tr("push_back(c[%d])", i); c.push_back(static_cast<const E &>(c[i])); m.push_back(x); break;
  case 1: mc::tr("push_back(move(c[%d]))", i); c.push_back(std::move(c[i])); m.push_back(x); if (!std::is_same_v<E, int>) m[i] = val(c[i]); break;
  case 2: { int j = mc::choose(n); mc::tr("c[%d] = c[%d]", j, i); c[j] = static_cast<const E &>(c[i]); m[j] = x; break; }
  case 3: mc::tr("push_back(*(begin+%d)) three times", i); for (int k = 0; k < 3; k++) { c.push_back(*(c.begin() + i)); m.push_back(x); } break;
  case 4: mc::tr("push_back(back()), push_back(front())"); c.push_back(c.back()); m.push_back(m.back()); c.push_back(c.front()); m.push_back(m[0]); break;
  }
  return true;
}
template <class E, class Al> bool own(DeqAd<E, Al>, auto &c, Model &m, int &) {
  int n = (int)m.size(); if (!n) return false; int i = mc::choose(n), x = m[i]; mc::op();
  switch (mc::choose(5)) {
  case 0: mc::tr("push_back(c[%d])", i); c.push_back(static_cast<const E &>(c[i])); m.push_back(x); break;
  case 1: mc::tr("push_front(c[%d])", i); c.push_front(static_cast<const E &>(c[i])); m.insert(m.begin(), x); break;
  case 2: mc::tr("push_back(move(c[%d]))", i); c.push_back(std::move(c[i])); m.push_back(x); m[i] = val(c[i]); break;
  case 3: { int j = mc::choose(n); mc::tr("c[%d] = c[%d]", j, i); c[j] = static_cast<const E &>(c[i]); m[j] = x; break; }
  case 4: mc::tr("push_front(back()), push_back(front())"); c.push_front(c.back()); m.insert(m.begin(), m.back()); c.push_back(c.front()); m.push_back(m[0]); break;
  }
  return true;
}
template <class E, class Al> bool own(ListAd<E, Al>, auto &c, Model &m, int &) {
  using Ad = ListAd<E, Al>;
  int n = (int)m.size(); if (!n) return false; int i = mc::choose(n), x = m[i]; auto it = Ad::at(c, i); mc::op();
  switch (mc::choose(7)) {
  case 0: mc::tr("push_back(c[%d])", i); c.push_back(static_cast<const E &>(*it)); m.push_back(x); break;
  case 1: mc::tr("push_front(c[%d])", i); c.push_front(static_cast<const E &>(*it)); m.insert(m.begin(), x); break;
  case 2: { int j = mc::choose_in(0, n); mc::tr("insert(%d, c[%d])", j, i); c.insert(Ad::at(c, j), static_cast<const E &>(*it)); m.insert(m.begin() + j, x); break; }
  case 3: { int j = mc::choose_in(0, n); mc::tr("emplace(%d, c[%d])", j, i); c.emplace(Ad::at(c, j), static_cast<const E &>(*it)); m.insert(m.begin() + j, x); break; }
  case 4: mc::tr("emplace_back(c[%d])", i); c.emplace_back(static_cast<const E &>(*it)); m.push_back(x); break;
  case 5: mc::tr("emplace_front(c[%d])", i); c.emplace_front(static_cast<const E &>(*it)); m.insert(m.begin(), x); break;
  case 6: { int j = mc::choose(n); mc::tr("c[%d] = c[%d]", j, i); *Ad::at(c, j) = static_cast<const E &>(*it); m[j] = x; break; }
  }
  return true;
}
template <class E, class Al> bool own(FwdAd<E, Al>, auto &c, Model &m, int &) {
  using Ad = FwdAd<E, Al>;
  int n = (int)m.size(); if (!n) return false; int i = mc::choose(n), x = m[i]; auto it = Ad::at(c, i + 1); mc::op();
  switch (mc::choose(3)) {
  case 0: mc::tr("push_front(c[%d])", i); c.push_front(static_cast<const E &>(*it)); m.insert(m.begin(), x); break;
  case 1: { int j = mc::choose_in(0, n); mc::tr("insert_after(%d, c[%d])", j - 1, i); c.insert_after(Ad::at(c, j), static_cast<const E &>(*it)); m.insert(m.begin() + j, x); break; }
  case 2: { int j = mc::choose(n); mc::tr("c[%d] = c[%d]", j, i); *Ad::at(c, j + 1) = static_cast<const E &>(*it); m[j] = x; break; }
  }
  return true;
}
template <class E, class K> bool own(QueAd<E, K>, auto &c, Model &m, int &) {
  if (m.empty()) return false; mc::op();
  switch (mc::choose(3)) {
  case 0: mc::tr("push(front())"); c.push(static_cast<const E &>(c.front())); m.push_back(m[0]); break;
  case 1: mc::tr("push(back())"); c.push(static_cast<const E &>(c.back())); m.push_back(m.back()); break;
  case 2: mc::tr("front() = back()"); c.front() = static_cast<const E &>(c.back()); m[0] = m.back(); break;
  }
  return true;
}
template <class T, int K> bool own(TreeAd<T, K>, auto &c, Model &m, int &next) {
  using Ad = TreeAd<T, K>; int n = (int)Ad::count(m); if (!n) return false; int i = mc::choose(n); auto it = c.begin(); for (int k = 0; k < i; k++) ++it; mc::op();
  switch (mc::choose(3)) {
  case 0: { mc::tr("insert(*position of %d)", m[i * Ad::W]); auto r = c.insert(*it); if (r.second) mc::fail("inserting an own element reports a new key"); if (T::k(r.first) != m[i * Ad::W]) mc::fail("it yields another position"); break; }
  case 1: { mc::tr("find(own key %d)", m[i * Ad::W]); if constexpr (T::is_map) { if (c.find(it->first) == c.end()) mc::fail("an own key is not found"); } else if (c.find(*it) == c.end()) mc::fail("an own key is not found"); break; }
  case 2: { mc::tr("a new key with an own value"); if constexpr (T::is_map) { int k = 50 + next++; c.insert(typename T::P(k, it->second)); Ad::note(m, k, m[i * 2 + 1]); } break; }
  }
  return true;
}
template <class Al, int L> bool own(StrAd<Al, L>, auto &c, Model &m, int &) {
  using Ad = StrAd<Al, L>; std::string s = Ad::s(m); int n = (int)s.size(); mc::op();
  switch (mc::choose(9)) {
  case 0: { int i = mc::choose_in(0, n); mc::tr("s = s.c_str() + %d", i); c = c.c_str() + i; s = std::string(s.c_str() + i); break; }
  case 1: { int i = mc::choose_in(0, n), k = mc::choose_in(0, n - i); mc::tr("append(s.data() + %d, %d)", i, k); c.append(c.data() + i, k); s += s.substr(i, k); break; }
  case 2: { mc::tr("append(s)"); c.append(c); s += std::string(s); break; }
  case 3: { mc::tr("s += s"); c += c; s += std::string(s); break; }
  case 4: { if (!n) return false; int i = mc::choose(n); mc::tr("push_back(s[%d])", i); c.push_back(c[i]); s.push_back(s[i]); break; }
  case 5: { if (!n) return false; int i = mc::choose(n); mc::tr("s += s[%d]", i); c += c[i]; s += s[i]; break; }
  case 6: { mc::tr("compare(s), s == s, s < s"); if (c.compare(c) || !(c == c) || c != c || c < c) mc::fail("a string does not equal itself"); break; }
  case 7: { int i = mc::choose_in(0, n); mc::tr("find(s.c_str() + %d), find(s)", i); auto want = s.find(s.c_str() + i); if (c.find(c.c_str() + i) != want) mc::fail("finding an own tail yields %zu, not %zu", c.find(c.c_str() + i), want);
    if (c.find(c) != 0) mc::fail("a string is not found in itself"); for (int p = 0; p <= n; p++) if (c.find(c.c_str() + i, p) != s.find(s.c_str() + i, p)) mc::fail("finding an own tail from %d is wrong", p); break; }
  case 8: { int i = mc::choose_in(0, n); mc::tr("compare(s.c_str() + %d)", i); int a = c.compare(c.c_str() + i), b = s.compare(s.c_str() + i); if ((a < 0) != (b < 0) || (a > 0) != (b > 0)) mc::fail("comparing with an own tail yields %d", a); break; }
  }
  m = Ad::mod(s); return true;
}
// a state; then `depth` self-referential calls; then ordinary use
template <class Ad> void selves(int depth, int lim) {
  Model m; int next = 1; auto *c = new typename Ad::C; shape(Ad{}, *c, m, next, lim);
  for (int d = 0; d < depth; d++) {
    if (mc::flip()) { if (!own(Ad{}, *c, m, next)) mc::tr("(nothing to do)"); }
    else selfops<Ad>(*c, m);
    Ad::brief(*c, m);
  }
  mc::state(hmodel(m)); Ad::observe(*c, m);
  if constexpr (std::is_same_v<typename Ad::E, Tok>) { Model none; ledger<Ad>(m, none); }
  Ad::grow(*c, m, next); Ad::grow(*c, m, next); Ad::observe(*c, m);
  delete c;
}
// one of them far from empty
template <class Ad> void far_selves(int max) {
  Model m, none; int next = 1, n = pick_edge(max); auto *c = new typename Ad::C; for (int i = 0; i < n; i++) Ad::grow(*c, m, next); mc::tr("%d elements", n);
  if (mc::flip()) { if (!own(Ad{}, *c, m, next)) mc::tr("(nothing to do)"); } else selfops<Ad>(*c, m);
  mc::state(hmodel(m, 5)); Ad::observe(*c, m); if constexpr (std::is_same_v<typename Ad::E, Tok>) ledger<Ad>(m, none);
  Ad::grow(*c, m, next); Ad::observe(*c, m); delete c;
}
#ifdef CHUNKS
using Deq = DeqAd<Tok, A>;
MC_SCENARIO(deque_, 2, 3, 4, 16) { selves<Deq>(depth, 3); }
MC_SCENARIO(queue_, 3, 5, 4, 16) { selves<QueAd<Tok, cest::deque<Tok, A>>>(depth, 5); }
MC_SCENARIO(far_deque, 0, 0, 2, 8) { far_selves<Deq>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_queue, 0, 0, 1, 4) { far_selves<QueAd<Tok, cest::deque<Tok, A>>>(mc::thorough ? 257 : 65); }
#else
// at every size: growth happens while the argument is inside
MC_SCENARIO(vector_, 2, 3, 4, 16) { selves<VecAd<Tok, A>>(depth, mc::thorough ? 6 : 5); }
MC_SCENARIO(vector_copied, 2, 3, 4, 16) { selves<VecAd<TokC, trk::TAlloc<TokC>>>(depth, 4); }
MC_SCENARIO(vector_int, 2, 3, 4, 16) { selves<VecAd<int, std::allocator<int>>>(depth, 5); }
MC_SCENARIO(list_, 2, 3, 4, 16) { selves<ListAd<Tok, A>>(depth, 4); }
MC_SCENARIO(forward_list_, 3, 4, 4, 16) { selves<FwdAd<Tok, A>>(depth, 4); }
MC_SCENARIO(queue_list, 3, 5, 4, 16) { selves<QueAd<Tok, cest::list<Tok, A>>>(depth, 5); }
MC_SCENARIO(set_, 2, 3, 4, 16) { selves<TreeAd<tree::SetOf<Tok, std::less<Tok>, true>, 4>>(depth, 4); }
MC_SCENARIO(map_, 2, 3, 4, 16) { selves<TreeAd<tree::MapOf<Tok, std::less<Tok>, true, Tok>, 4>>(depth, 4); }
MC_SCENARIO(string_, 2, 3, 4, 16) { selves<StrAd<trk::TAlloc<char>, 1>>(depth, 6); }
MC_SCENARIO(string_plain, 2, 3, 4, 16) { selves<StrAd<>>(depth, 4); }
MC_SCENARIO(far_vector, 0, 0, 2, 8) { far_selves<VecAd<Tok, A>>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_vector_copied, 0, 0, 2, 8) { far_selves<VecAd<TokC, trk::TAlloc<TokC>>>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_list, 0, 0, 2, 8) { far_selves<ListAd<Tok, A>>(mc::thorough ? 65 : 33); }
MC_SCENARIO(far_forward_list, 0, 0, 2, 8) { far_selves<FwdAd<Tok, A>>(mc::thorough ? 129 : 65); }
MC_SCENARIO(far_queue_list, 0, 0, 2, 8) { far_selves<QueAd<Tok, cest::list<Tok, A>>>(mc::thorough ? 257 : 65); }
MC_SCENARIO(far_set, 0, 0, 2, 8) { far_selves<TreeAd<tree::SetOf<Tok, std::less<Tok>, true>, 4>>(mc::thorough ? 257 : 65); }
MC_SCENARIO(far_map, 0, 0, 2, 8) { far_selves<TreeAd<tree::MapOf<Tok, std::less<Tok>, true, Tok>, 4>>(mc::thorough ? 257 : 65); }
MC_SCENARIO(far_string, 0, 0, 2, 8) { far_selves<StrAd<trk::TAlloc<char>, 1>>(mc::thorough ? 129 : 65); }
// large vectors and strings, at every size around a growth
MC_SCENARIO(large_vector, 0, 0, 2, 4) {
  using V = VecAd<Tok, A>; V::C c; Model m; int next = 1, n = mc::choose_in(1, mc::thorough ? 260 : 130); for (int i = 0; i < n; i++) V::grow(c, m, next);
  int w = mc::choose(3), i = w == 0 ? 0 : w == 1 ? n / 2 : n - 1; mc::op(); mc::tr("%d elements, push_back(c[%d])", n, i); c.push_back(c[i]); m.push_back(m[i]); V::observe(c, m); c = static_cast<const V::C &>(c); V::observe(c, m); mc::state(hmodel(m));
}
MC_SCENARIO(large_string, 0, 0, 2, 4) {
  cest::basic_string<char, std::char_traits<char>, trk::TAlloc<char>> c; std::string s; int n = mc::choose_in(0, mc::thorough ? 140 : 70); for (int i = 0; i < n; i++) { c.push_back('a' + i % 26); s += 'a' + i % 26; }
  int i = mc::choose_in(0, n), w = mc::choose(4); mc::op(); mc::tr("%d characters, from %d, way %d", n, i, w);
  switch (w) { case 0: c = c.c_str() + i; s = std::string(s, i); break; case 1: c.append(c.data() + i, n - i); s += std::string(s, i); break;
    case 2: c.append(c.c_str(), i); s += std::string(s, 0, i); break; case 3: c.append(c).append(c); s += std::string(s); s += std::string(s); break; }
  StrAd<trk::TAlloc<char>>::S::observe(c, s); c.push_back('!'); s += '!'; StrAd<trk::TAlloc<char>>::S::observe(c, s); mc::state(mc::hash_str(s.c_str()));
}
#endif
MC_MAIN
