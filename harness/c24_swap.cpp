#include "seq.hpp"
#include <cest/swap.hpp>
TRK_HEAP
using trk::Tok;
// an element that cannot be copied, and owns a block
struct Own {
  int *p; int *base;
  explicit Own(int v) : p(new int(v)), base(nullptr) {}
  Own(Own &&o) noexcept : p(o.p), base(nullptr) { o.p = nullptr; }
  Own &operator=(Own &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Own() { delete p; }
};
struct Copied {                          // no move operations
  int v[3]; explicit Copied(int x) : v{x, ~x, x * 3} {}
  Copied(const Copied &o) : v{o.v[0], o.v[1], o.v[2]} {}
  Copied &operator=(const Copied &o) { for (int i = 0; i < 3; i++) v[i] = o.v[i]; return *this; }
};
int get(const int &x) { return x; }
int get(const char &x) { return x; }
int get(int *const &x) { return *x; }
int get(const Tok &t) { return t.get(); }
int get(const Own &o) { if (!o.p) mc::fail("an argument is left without its value"); return *o.p; }
int get(const Copied &o) { if (o.v[1] != ~o.v[0] || o.v[2] != o.v[0] * 3) mc::fail("a value is torn"); return o.v[0]; }
int get(const std::string &s) { return s.size() == 20 ? atoi(s.c_str()) : (mc::fail("a string lost its value"), 0); }
template <class T> struct Mk { static T *mk(int v) { return new T(v); } };
template <> struct Mk<std::string> { static std::string *mk(int v) { char b[32]; snprintf(b, sizeof b, "%020d", v); return new std::string(b); } };

template <class T, size_t... I> void call(bool rev, T **p, std::index_sequence<I...>) { if (rev) nary::swapr(*p[I]...); else nary::swap(*p[I]...); }
template <class T> void call(bool rev, T **p, int n) {
  switch (n) {
#define N(k) case k: call(rev, p, std::make_index_sequence<k>{}); break;
    N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8) N(9) N(10)
#undef N
  }
}
inline void rotate(bool rev, Model &m, const std::vector<int> &at) {   // the specification
  size_t n = at.size(); if (n < 2) return; Model o; for (int i : at) o.push_back(m[i]);
  for (size_t i = 0; i < n; i++) m[at[i]] = o[rev ? (i + n - 1) % n : (i + 1) % n];
}
// histories over a pool: each call names any ordered choice of distinct objects
template <class T> void hist(int depth, int pool) {
  T *o[12]; Model m; for (int i = 0; i < pool; i++) { o[i] = Mk<T>::mk(i + 1); m.push_back(i + 1); }
  for (int s = 0; s < depth; s++) {
    bool rev = mc::choose(2); int n = mc::choose_in(0, pool); std::vector<int> at, left; T *p[12];
    for (int i = 0; i < pool; i++) left.push_back(i);
    std::string d;
    for (int i = 0; i < n; i++) { int k = mc::choose((int)left.size()); at.push_back(left[k]); left.erase(left.begin() + k); p[i] = o[at[i]]; d += ' ' + std::to_string(at[i]); }
    mc::tr("%s%s", rev ? "swapr" : "swap", d.c_str()); mc::op();
    call(rev, p, n); rotate(rev, m, at);
    for (int i = 0; i < pool; i++) if (get(*o[i]) != m[i]) mc::fail("object %d holds %d, not %d", i, get(*o[i]), m[i]);
  }
  mc::state(hmodel(m, sizeof(T)));
  for (int i = 0; i < pool; i++) delete o[i];
}
MC_SCENARIO(hist_int, 2, 3, 4, 8) { hist<int>(depth, mc::thorough && depth < 3 ? 5 : 4); }
MC_SCENARIO(hist_tok, 2, 3, 4, 8) { hist<Tok>(depth, 4); }
MC_SCENARIO(hist_move_only, 2, 3, 4, 8) { hist<Own>(depth, 4); }
MC_SCENARIO(hist_copied, 2, 3, 4, 8) { hist<Copied>(depth, mc::thorough ? 4 : 3); }
MC_SCENARIO(hist_string, 2, 3, 4, 8) { hist<std::string>(depth, mc::thorough ? 4 : 3); }
// every assignment of values (equal ones included) to n arguments, and back again
template <class T> void values(int maxn) {
  int n = mc::choose_in(0, maxn); bool rev = mc::choose(2); T *p[12]; Model m; std::vector<int> at;
  int letters = n <= 6 ? (n < 2 ? 2 : n) : 3;
  for (int i = 0; i < n; i++) { int v = mc::choose(letters); p[i] = Mk<T>::mk(v); m.push_back(v); at.push_back(i); }
  mc::tr("%s of %s", rev ? "swapr" : "swap", ::show(m).c_str()); mc::op(); mc::op();
  Model was = m; call(rev, p, n); rotate(rev, m, at);
  for (int i = 0; i < n; i++) if (get(*p[i]) != m[i]) mc::fail("argument %d of %d holds %d, not %d", i, n, get(*p[i]), m[i]);
  call(!rev, p, n);
  for (int i = 0; i < n; i++) if (get(*p[i]) != was[i]) mc::fail("argument %d of %d holds %d, not %d, after the opposite swap", i, n, get(*p[i]), was[i]);
  mc::state(hmodel(m, n * 2 + rev));
  for (int i = 0; i < n; i++) delete p[i];
}
MC_SCENARIO(values_int, 0, 0, 4, 8) { values<int>(mc::thorough ? 10 : 7); }
MC_SCENARIO(values_char, 0, 0, 4, 8) { values<char>(mc::thorough ? 8 : 6); }
MC_SCENARIO(values_tok, 0, 0, 4, 8) { values<Tok>(mc::thorough ? 8 : 6); }
MC_SCENARIO(values_move_only, 0, 0, 4, 8) { values<Own>(mc::thorough ? 8 : 6); }
MC_SCENARIO(values_string, 0, 0, 4, 8) { values<std::string>(mc::thorough ? 8 : 5); }
// every position among n distinct values
template <class T> void distinct() {
  int n = mc::choose_in(0, 10); bool rev = mc::choose(2); T *p[12]; Model m; std::vector<int> at;
  for (int i = 0; i < n; i++) { p[i] = Mk<T>::mk(i + 1); m.push_back(i + 1); at.push_back(i); }
  mc::tr("%s of %d", rev ? "swapr" : "swap", n);
  for (int k = 0; k < n + 1; k++) {      // all the way round
    mc::op(); call(rev, p, n); rotate(rev, m, at);
    for (int i = 0; i < n; i++) if (get(*p[i]) != m[i]) mc::fail("argument %d of %d holds %d, not %d", i, n, get(*p[i]), m[i]);
    mc::state(hmodel(m, n * 2 + rev));
  }
  for (int i = 0; i < n; i++) delete p[i];
}
MC_SCENARIO(distinct_int, 0, 0, 1, 1) { distinct<int>(); }
MC_SCENARIO(distinct_tok, 0, 0, 1, 1) { distinct<Tok>(); }
MC_SCENARIO(distinct_move_only, 0, 0, 1, 1) { distinct<Own>(); }
MC_SCENARIO(distinct_string, 0, 0, 1, 1) { distinct<std::string>(); }
// a move that fails: the exception reaches the caller, and every argument is one it can still be given
struct Frail { int v; static inline int left; static void tick() { if (left >= 0 && left-- == 0) throw 7; }
  explicit Frail(int x) : v(x) {} Frail(Frail &&o) : v((tick(), o.v)) {} Frail &operator=(Frail &&o) { tick(); v = o.v; return *this; } };
template <> struct Mk<Frail> { static Frail *mk(int v) { return new Frail(v); } };
MC_SCENARIO(failing, 0, 0, 1, 1) {
  int n = mc::choose_in(0, 10); bool rev = mc::choose(2); int at = mc::choose_in(-1, n + 1); Frail *p[12]; Frail::left = -1;
  for (int i = 0; i < n; i++) p[i] = new Frail(i + 1);
  mc::tr("%s of %d, move %d fails", rev ? "swapr" : "swap", n, at); mc::op(); bool thrown = false; Frail::left = at;
  try { call(rev, p, n); } catch (int) { thrown = true; }
  bool due = at >= 0 && Frail::left == -1; Frail::left = -1; if (due != thrown) mc::fail("a move of %s fails, and the exception %s", rev ? "swapr" : "swap", thrown ? "came from nowhere" : "is lost");
  for (int i = 0; i < n; i++) if (p[i]->v < 1 || p[i]->v > n) mc::fail("argument %d holds %d, which no argument held", i, p[i]->v);
  if (!thrown) for (int i = 0; i < n; i++) if (n > 1 && p[i]->v != (rev ? (i + n - 1) % n : (i + 1) % n) + 1) mc::fail("argument %d holds %d", i, p[i]->v);
  mc::state(((uint64_t)n * 2 + rev) * 20 + at + 1 + 4000000); for (int i = 0; i < n; i++) delete p[i];
}
MC_MAIN
