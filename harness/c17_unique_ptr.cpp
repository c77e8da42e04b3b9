#include "mc.hpp"
#include "track.hpp"
#include <cest/memory.hpp>
#include <cest/vector.hpp>
#include <vector>
#include <string>
TRK_HEAP

// Objects with an identity; the log of deletions
struct Obj;
static int made, dead_at[64]; static long clock_; static bool alive[64];
static const cest::unique_ptr<Obj> *watch;          // the owner being reset: must not still show the dying object
struct Obj {
  int id; trk::Tok t;
  explicit Obj(int x = 0) : id(made++), t(x) { alive[id] = true; }
  Obj(const Obj &) = delete;
  virtual ~Obj() {
    if (id < 0 || id >= made || !alive[id]) mc::fail("object %d is deleted twice", id);
    if (watch && watch->get() == this) mc::fail("while object %d is deleted, its former owner still yields it", id);
    alive[id] = false;
  }
};
struct Der : Obj { trk::Tok u; explicit Der(int x = 0) : Obj(x), u(x) {} };
using UB = cest::unique_ptr<Obj>; using UD = cest::unique_ptr<Der>;
constexpr int NB = 2, ND = 1, NS = NB + ND, NR = 2;

struct World {
  UB *b[NB]; UD *d[ND]; Obj *raw[NR] = {}; Obj *want[NS] = {};
  World() { made = 0; watch = nullptr; for (auto &x : b) x = new UB; for (auto &x : d) x = new UD; }
  Obj *get(int s) { return s < NB ? b[s]->get() : d[s - NB]->get(); }
  void check() {
    bool own[64] = {};
    auto mark = [&](Obj *o) { if (o) { if (own[o->id]) mc::fail("object %d has two owners", o->id); own[o->id] = true; } };
    for (int s = 0; s < NS; s++) {
      if (get(s) != want[s]) mc::fail("pointer %d yields %s", s, get(s) ? want[s] ? "another object" : "an object instead of none" : "no object");
      mark(want[s]);
    }
    for (auto r : raw) mark(r);
    for (int i = 0; i < made; i++) if (own[i] != alive[i]) mc::fail(own[i] ? "object %d is deleted while it has an owner" : "object %d is not deleted although it has no owner", i);
    for (int s = 0; s < NS; s++) {
      Obj *o = want[s]; bool t = s < NB ? bool(*b[s]) : bool(*d[s - NB]);
      if (t != (o != nullptr)) mc::fail("the truth value of pointer %d is wrong", s);
      if (!o) continue;
      if (s < NB) { const UB &k = *b[s]; if (&**b[s] != o || &*k != o || b[s]->operator->() != o || k.operator->() != o) mc::fail("dereferencing pointer %d yields another object", s); if ((*b[s])->id != o->id) mc::fail("-> yields another object"); }
      else { const UD &k = *d[s - NB]; if (&**d[s - NB] != o || &*k != o || k.operator->() != o) mc::fail("dereferencing pointer %d yields another object", s); }
    }
    for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) {
      const UB &x = *b[i], &y = *b[j]; Obj *p = want[i], *q = want[j]; std::less<Obj *> lt;
      if ((x == y) != (p == q) || (x != y) != (p != q) || (x < y) != lt(p, q) || (x <= y) != !lt(q, p) || (x > y) != lt(q, p) || (x >= y) != !lt(p, q))
        mc::fail("comparing pointers %d and %d is wrong", i, j);
    }
    for (int i = 0; i < NB; i++) for (int j = NB; j < NS; j++) {     // of a base, and of what derives from it
      const UB &x = *b[i]; const UD &y = *d[j - NB]; Obj *p = want[i], *q = want[j]; std::less<Obj *> lt;
      if ((x == y) != (p == q) || (y == x) != (p == q) || (x != y) != (p != q) || (x < y) != lt(p, q) || (y < x) != lt(q, p) || (x <= y) != !lt(q, p) || (x > y) != lt(q, p) || (x >= y) != !lt(p, q))
        mc::fail("comparing pointers %d and %d, of different types, is wrong", i, j);
    }
  }
  uint64_t hash() {
    uint64_t h = 7; for (auto w : want) h = h * 37 + (w ? w->id + 1 : 0); for (auto r : raw) h = h * 41 + (r ? r->id + 1 : 0); return h;
  }
  void finish() {
    for (int s = 0; s < NB; s++) { delete b[s]; want[s] = nullptr; }
    for (auto x : d) delete x;
    for (auto r : raw) delete r;
    for (int i = 0; i < made; i++) if (alive[i]) mc::fail("object %d is never deleted", i);
  }
};
static void step(World &w) {
  mc::op();
  int s = mc::choose(NS); bool der = s >= NB; UB *B = der ? nullptr : w.b[s]; UD *D = der ? w.d[s - NB] : nullptr;

  switch (mc::choose(10)) {
  case 0: mc::tr("p%d.reset(new)", s); { if (der) { Der *n = new Der(made); D->reset(n); w.want[s] = n; } else { Obj *n = mc::choose(2) ? new Der(made) : new Obj(made); watch = B; B->reset(n); watch = nullptr; w.want[s] = n; } } break;
  case 1: mc::tr("p%d.reset()", s); if (der) D->reset(); else { watch = B; B->reset(); watch = nullptr; } w.want[s] = nullptr; break;
  case 2: { Obj *o; if (der) { Obj *had = D->get(); o = D->release(); if (o != had) mc::fail("release yields another pointer"); } else { Obj *had = B->get(); o = B->release(); if (o != had) mc::fail("release yields another pointer"); }
    int k = mc::choose(NR); mc::tr("r%d = p%d.release()", k, s); w.want[s] = nullptr; delete w.raw[k]; w.raw[k] = o; break; }
  case 3: { int k = mc::choose(NR); mc::tr("p%d.reset(r%d)", s, k); Obj *o = w.raw[k]; if (der && o && !dynamic_cast<Der *>(o)) break; w.raw[k] = nullptr; w.want[s] = o; if (der) D->reset(static_cast<Der *>(o)); else B->reset(o); break; }
  case 4: { mc::tr("p%d = move(another)", s); if (der) { UD *x = w.d[mc::choose(ND)]; if (x != D) {} *D = std::move(*x); break; }
    int j = mc::choose(NB); mc::tr("  from p%d", j); if (j != s) watch = B; UB &r = (*B = std::move(*w.b[j])); watch = nullptr; if (&r != B) mc::fail("assignment does not return its target");
    if (j != s) { w.want[s] = w.want[j]; w.want[j] = nullptr; } break; }
  case 5: { mc::tr("p%d is built by moving another", s); if (der) { UD *n = new UD(std::move(*D)); if (D->get()) mc::fail("a moved-from pointer is not empty"); delete D; w.d[s - NB] = n; break; }
    int j = mc::choose(NS); mc::tr("  p%d", j); UB *n; if (j < NB) n = new UB(std::move(*w.b[j])); else n = new UB(std::move(*w.d[j - NB]));
    Obj *o = w.want[j]; w.want[j] = nullptr; if (n->get() != o) mc::fail("move construction yields another object");
    if (w.get(j)) mc::fail("a moved-from pointer is not empty");
    delete w.b[s]; w.b[s] = n; w.want[s] = o; break; }
  case 6: { mc::tr("p%d = make_unique", s); if (der) { *D = cest::make_unique<Der>(7); w.want[s] = D->get(); } else { watch = B; *B = cest::make_unique<Obj>(7); watch = nullptr; w.want[s] = B->get(); } 
    if (!w.want[s] || w.want[s]->t.get() != 7) mc::fail("make_unique does not pass its argument"); break; }
  case 7: { mc::tr("p%d = move(converted)", s); if (der) break; UB t(std::move(*w.d[0])); *B = std::move(t); w.want[s] = w.want[NB]; w.want[NB] = nullptr; if (t) mc::fail("a moved-from pointer is not empty"); break; }
  case 8: { mc::tr("p%d is destroyed and made empty", s); if (der) { delete D; w.d[s - NB] = new UD; } else { delete B; w.b[s] = new UB; } w.want[s] = nullptr; break; }
  case 9: { mc::tr("p%d is built on a new object", s); if (der) { Der *o = new Der(1); UD *n = new UD(o); delete D; w.d[s - NB] = n; w.want[s] = o; } else { Obj *o = new Obj(1); UB *n = new UB(o); delete B; w.b[s] = n; w.want[s] = o; } break; }
  }
  w.check();
}
MC_SCENARIO(hist, 4, 5, 8, 16) {
  World w;
  for (int i = 0; i < depth; i++) step(w);
  mc::state(w.hash()); w.finish();
}
// lists of owners: each object owns the next
struct Node { int id; cest::unique_ptr<Node> next; static bool live[64]; static int n;
  Node() : id(n++) { live[id] = true; } ~Node() { if (!live[id]) mc::fail("node %d is deleted twice", id); live[id] = false; } };
bool Node::live[64]; int Node::n;
MC_SCENARIO(chains, 6, 8, 4, 16) {
  Node::n = 0; cest::unique_ptr<Node> h[2]; std::vector<int> m[2]; using U = cest::unique_ptr<Node>;
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(6)) {
    case 0: { mc::tr("push on %d", i); U n(new Node); n->next = std::move(h[i]); h[i] = std::move(n); m[i].insert(m[i].begin(), h[i]->id); break; }
    case 1: mc::tr("pop from %d", i); if (!m[i].empty()) { h[i] = std::move(h[i]->next); m[i].erase(m[i].begin()); } break;
    case 2: mc::tr("%d = move(%d)", i, j); h[i] = std::move(h[j]); m[i] = m[j]; m[j].clear(); break;
    case 3: mc::tr("cut %d after its first", i); if (!m[i].empty()) { h[i]->next.reset(); m[i].resize(1); } break;
    case 4: mc::tr("%d's tail = %d", i, j); if (!m[i].empty()) { h[i]->next = std::move(h[j]); m[i].resize(1); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); } break;
    case 5: mc::tr("%d = %d released", i, i); { Node *r = h[i].release(); if (h[i]) mc::fail("released pointer is not empty"); h[i].reset(r); } break;
    }
    bool own[64] = {}; for (auto &v : m) for (int x : v) own[x] = true;
    for (int k = 0; k < Node::n; k++) if (own[k] != Node::live[k]) mc::fail(own[k] ? "node %d is deleted while owned" : "node %d is not deleted", k);
    for (int k = 0; k < 2; k++) { Node *p = h[k].get(); for (int x : m[k]) { if (!p || p->id != x) mc::fail("the chain is broken at node %d", x); p = p->next.get(); } if (p) mc::fail("the chain goes on"); }
  }
  uint64_t hh = 5; for (auto &v : m) { for (int x : v) hh = hh * 31 + x + 1; hh = hh * 77 + 3; } mc::state(hh);
  h[0].reset(); h[1].reset(); for (int k = 0; k < Node::n; k++) if (Node::live[k]) mc::fail("node %d is never deleted", k);
}
// arguments reach the object; simple types and const objects; empty pointers
struct Args { int a; std::string s; std::unique_ptr<int> p; };
MC_SCENARIO(making, 0, 0, 1, 1) {
  int k = mc::choose_in(-3, 3); mc::op(); mc::state(k + 10);
  { auto p = cest::make_unique<int>(k); if (*p != k || !p) mc::fail("make_unique<int>(%d) holds %d", k, *p); *p = k + 1; const auto &c = p; if (*c != k + 1) mc::fail("const access differs"); }
  { auto p = cest::make_unique<Args>(k, std::string(k + 5, 'x'), std::make_unique<int>(k)); if (p->a != k || p->s.size() != size_t(k + 5) || *p->p != k) mc::fail("make_unique does not pass its arguments"); }
  { auto p = cest::make_unique<trk::Tok>(k); if (p->get() != k) mc::fail("make_unique<Tok> is wrong"); cest::unique_ptr<trk::Tok> q(std::move(p)); if (p || !q || q->get() != k) mc::fail("moving is wrong"); q.reset(nullptr); if (q) mc::fail("reset(nullptr) leaves an object"); }
  { size_t n = size_t(k + 3); auto p = cest::make_unique<std::vector<int>>(n, 1); if (*p != std::vector<int>(n, 1)) mc::fail("make_unique<std::vector<int>>(%zu, 1) is not %zu ones", n, n);
    auto q = cest::make_unique<cest::vector<int>>(n); if (q->size() != n) mc::fail("make_unique<cest::vector<int>>(%zu) is not of that size", n);
    auto s = cest::make_unique<std::string>(n, 'z'); if (*s != std::string(n, 'z')) mc::fail("make_unique<std::string>(%zu, 'z') is wrong", n); auto e = cest::make_unique<int>(); if (*e) mc::fail("make_unique<int>() is not zero"); }
  { cest::unique_ptr<const int> p(new int(k)); if (*p != k) mc::fail("const object is wrong"); }
  { cest::unique_ptr<int> p; if (p || p.get() || p.release()) mc::fail("an empty pointer is not empty"); p.reset(); cest::unique_ptr<int> q(nullptr); if (q) mc::fail("null is not empty"); p = std::move(q); if (p) mc::fail("empty assigned is not empty"); if (!(p == q) || p != q || p < q) mc::fail("empty pointers differ"); }
}
MC_MAIN
