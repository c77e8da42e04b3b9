#include "huge.hpp"
#include "mc.hpp"
#include "track.hpp"
#include <cest/memory.hpp>
TRK_HEAP

struct Obj { int id; trk::Tok t; int part[2]; static bool alive[64]; static int made;
  Obj() : id(made++), t(id), part{id * 2, id * 2 + 1} { alive[id] = true; }
  virtual ~Obj() { if (!alive[id]) mc::fail("object %d is deleted twice", id); alive[id] = false; } };
bool Obj::alive[64]; int Obj::made;
struct Der : Obj { trk::Tok u; Der() : u(id) {} };
// a deleter that logs, with an identity that its copies share
static int dcalls[64], dels; static const void *dptr[64];
struct Del { int id; trk::Tok live; explicit Del(int i) : id(i), live(i) {}
  void operator()(Obj *p) const { live.get(); dcalls[id]++; dptr[id] = p; delete p; } };
struct Del2 { void operator()(Obj *p) const { delete p; } };
using SP = cest::shared_ptr<Obj>;
// comparisons are those of the pointers
template <class A, class B, class P> void compare(const A &a, const B &b, P *p, P *q, int i, int j) {
  std::less<P *> lt;
  if ((a == b) != (p == q) || (a != b) != (p != q) || (a < b) != lt(p, q) || (a > b) != lt(q, p) || (a <= b) != !lt(q, p) || (a >= b) != !lt(p, q)) mc::fail("comparing pointers %d and %d is wrong", i, j);
}
static const char *kind(int k) { static const char *n[] = {"default", "nullptr", "new", "new derived", "with a deleter", "null with a deleter"}; return n[k]; }

struct Group { int owners = 0; Obj *orig = nullptr; int del = -1; bool ran = false; };
struct Slot { int group = -1; Obj *p = nullptr; };
constexpr int N = 3;
struct World {
  SP *s[N]; Slot m[N]; std::vector<Group> g;
  World() { Obj::made = 0; dels = 0; for (auto &x : s) x = new SP; memset(dcalls, 0, sizeof dcalls); }
  void drop(int i) { int k = m[i].group; if (k >= 0) g[k].owners--; m[i] = {}; }
  void join(int i, int j, Obj *p) { m[i].group = m[j].group; m[i].p = p; if (m[i].group >= 0) g[m[i].group].owners++; }
  void check() {
    for (int i = 0; i < N; i++) {
      long want = m[i].group < 0 ? 0 : g[m[i].group].owners; const SP &k = *s[i];
      if (k.use_count() != want) mc::fail("use_count of p%d is %ld, not %ld", i, k.use_count(), want);
      if (k.get() != m[i].p) mc::fail("p%d yields another pointer", i);
      if (bool(k) != (m[i].p != nullptr)) mc::fail("the truth value of p%d is wrong", i);
      if (m[i].p && (&*k != m[i].p || k.operator->() != m[i].p)) mc::fail("dereferencing p%d yields another object", i);
      int d = m[i].group < 0 ? -1 : g[m[i].group].del;
      Del *gd = get_deleter<Del>(k);
      if ((gd != nullptr) != (d >= 0)) mc::fail("get_deleter of p%d finds %s", i, gd ? "a deleter of another type" : "nothing");
      if (gd && gd->id != d) mc::fail("get_deleter of p%d finds another deleter", i);
      if (get_deleter<Del2>(k)) mc::fail("get_deleter finds a deleter of the wrong type");
    }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) compare(static_cast<const SP &>(*s[i]), static_cast<const SP &>(*s[j]), m[i].p, m[j].p, i, j);
    for (auto &x : g) {
      bool up = x.owners > 0;
      if (x.orig && Obj::alive[x.orig ? ids[&x - &g[0]] : 0] != up) mc::fail(up ? "object %d is deleted while it has owners" : "object %d is not deleted although its last owner went", ids[&x - &g[0]]);
      if (x.del >= 0) { if (dcalls[x.del] != !up) mc::fail("the deleter of object %d has run %d times", ids[&x - &g[0]], dcalls[x.del]);
        if (!up && dptr[x.del] != x.orig) mc::fail("the deleter ran with another pointer"); }
    }
  }
  std::vector<int> ids;
  void fresh(int i, Obj *o, int d) { Group x; x.owners = 1; x.orig = o; x.del = d; g.push_back(x); ids.push_back(o ? o->id : -1); m[i].group = (int)g.size() - 1; m[i].p = o; }
  SP *make(int i, int k) {                // builds a new one, then replaces slot i
    SP *n; Obj *o = nullptr;
    switch (k) {
    case 0: n = new SP; break;
    case 1: n = new SP(nullptr); break;
    case 2: n = new SP(o = new Obj); break;
    case 3: { Der *d = new Der; o = d; n = new SP(d); break; }
    case 4: n = new SP(o = new Obj, Del(dels)); break;
    default: n = new SP(static_cast<Obj *>(nullptr), Del(dels)); break;
    }
    if (n->use_count() != (k >= 2)) mc::fail("use_count of a new pointer (%s) is %ld", kind(k), n->use_count());
    delete s[i]; drop(i); s[i] = n;
    if (k >= 2) fresh(i, o, k >= 4 ? dels++ : -1);
    return n;
  }
  uint64_t hash() { uint64_t h = 3; for (auto &x : m) h = h * 61 + x.group + 2 + (x.p ? 1000 : 0); for (auto &x : g) h = h * 7 + x.owners + (x.del >= 0 ? 50 : 0); return h; }
  void finish() {
    for (int i = 0; i < N; i++) { delete s[i]; s[i] = nullptr; drop(i); s[i] = new SP; }
    check(); for (auto x : s) delete x;
    for (int i = 0; i < Obj::made; i++) if (Obj::alive[i]) mc::fail("object %d is never deleted", i);
  }
};
MC_SCENARIO(hist, 4, 5, 8, 16) {
  World w;
  for (int d = 0; d < depth; d++) {
    mc::op(); int i = mc::choose(N);
    switch (mc::choose(6)) {
    case 0: { int k = mc::choose(6); mc::tr("p%d is built: %s", i, kind(k)); w.make(i, k); break; }
    case 1: { int j = mc::choose(N); mc::tr("p%d = p%d", i, j); Slot o = w.m[j]; SP &r = (*w.s[i] = static_cast<const SP &>(*w.s[j])); if (&r != w.s[i]) mc::fail("assignment does not return its target");
      if (i != j) { if (o.group >= 0) w.g[o.group].owners++; w.drop(i); w.m[i] = o; } break; }
    case 2: { int j = mc::choose(N); mc::tr("p%d is copied from p%d", i, j); Slot o = w.m[j]; SP *n = new SP(static_cast<const SP &>(*w.s[j])); if (o.group >= 0) w.g[o.group].owners++; delete w.s[i]; w.drop(i); w.m[i] = o; w.s[i] = n; break; }
    case 3: { int j = mc::choose(N), a = mc::choose(2); mc::tr("p%d is an alias of p%d to %s", i, j, a ? "null" : "its own pointer"); Slot o = w.m[j]; Obj *p = a ? nullptr : o.p;
      SP *n = new SP(*w.s[j], p); if (o.group >= 0) w.g[o.group].owners++; delete w.s[i]; w.drop(i); w.m[i] = o; w.m[i].p = p; w.s[i] = n; break; }
    case 4: { mc::tr("p%d = nullptr", i); *w.s[i] = SP(nullptr); w.drop(i); break; }
    case 5: { mc::tr("p%d is destroyed", i); delete w.s[i]; w.drop(i); w.s[i] = new SP; break; }
    }
    w.check();
  }
  mc::state(w.hash()); w.finish();
}
// owners that are moved: the target has all the source had; the source keeps it too, or is empty
MC_SCENARIO(moved, 4, 6, 4, 16) {
  World w;
  for (int d = 0; d < depth; d++) {
    mc::op(); int i = mc::choose(2), j = 1 - i; Slot o = w.m[j];
    switch (mc::choose(7)) {
    case 0: { static const int ks[] = {0, 2, 3, 4}; int k = mc::pick(ks); mc::tr("p%d is built: %s", i, kind(k)); w.make(i, k); break; }
    case 1: { mc::tr("p%d = p%d", i, j); *w.s[i] = static_cast<const SP &>(*w.s[j]); if (o.group >= 0) w.g[o.group].owners++; w.drop(i); w.m[i] = o; break; }
    case 2: { mc::tr("p%d = move(p%d)", i, j); SP &r = (*w.s[i] = static_cast<SP &&>(*w.s[j])); if (&r != w.s[i]) mc::fail("assignment does not return its target"); if (o.group >= 0) w.g[o.group].owners++; w.drop(i); w.m[i] = o; break; }
    case 3: { mc::tr("p%d is made from move(p%d)", i, j); SP *n = new SP(static_cast<SP &&>(*w.s[j])); if (o.group >= 0) w.g[o.group].owners++; delete w.s[i]; w.drop(i); w.m[i] = o; w.s[i] = n; break; }
    case 4: { mc::tr("p%d is an alias of p%d to null", i, j); SP *n = new SP(*w.s[j], nullptr); if (o.group >= 0) w.g[o.group].owners++; delete w.s[i]; w.drop(i); w.m[i] = o; w.m[i].p = nullptr; w.s[i] = n; break; }
    case 5: { mc::tr("p%d and p%d are swapped", i, j); std::swap(*w.s[i], *w.s[j]); std::swap(w.m[i], w.m[j]); break; }
    case 6: { mc::tr("p%d goes through a function by value, and back", i); auto f = [](SP x) { return x; }; *w.s[i] = f(static_cast<SP &&>(*w.s[i])); break; }
    }
    if (o.group >= 0 && w.m[j].group == o.group && !w.s[j]->use_count() && !w.s[j]->get()) w.drop(j);
    w.check();
  }
  mc::state(w.hash() + 1); w.finish();
}
// lists of shared nodes: heads share tails
struct Node { int id; cest::shared_ptr<Node> next; static bool live[64]; static int n; Node() : id(n++) { live[id] = true; }
  ~Node() { if (!live[id]) mc::fail("node %d is deleted twice", id); live[id] = false; } };
bool Node::live[64]; int Node::n;
MC_SCENARIO(chains, 6, 7, 8, 16) {
  using P = cest::shared_ptr<Node>; Node::n = 0; P *h = new P[2]; int head[2] = {-1, -1}; std::vector<int> nx;   // nx[id]: the model's next
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(6)) {
    case 0: { mc::tr("push on %d", i); P n(new Node); nx.push_back(head[i]); n->next = h[i]; h[i] = n; head[i] = n->id; break; }
    case 1: mc::tr("pop from %d", i); if (head[i] >= 0) { h[i] = h[i]->next; head[i] = nx[head[i]]; } break;
    case 2: mc::tr("%d = %d", i, j); h[i] = h[j]; head[i] = head[j]; break;
    case 3: mc::tr("cut %d after its first", i); if (head[i] >= 0) { h[i]->next = P(); nx[head[i]] = -1; } break;
    case 4: mc::tr("%d is empty", i); h[i] = P(nullptr); head[i] = -1; break;
    case 5: mc::tr("%d's tail = %d's tail", i, j); if (head[i] >= 0 && head[j] >= 0) {
      bool cycle = false; for (int x = nx[head[j]]; x >= 0; x = nx[x]) if (x == head[i]) cycle = true;
      if (cycle) break;         /* owners in a cycle never go: not for this scenario */ h[i]->next = h[j]->next; nx[head[i]] = nx[head[j]]; } break;
    }
    std::vector<int> refs(Node::n, 0); std::vector<bool> up(Node::n, false);
    for (int k = 0; k < 2; k++) { if (head[k] >= 0) refs[head[k]]++; for (int x = head[k]; x >= 0 && !up[x]; x = nx[x]) { up[x] = true; if (nx[x] >= 0) refs[nx[x]]++; } }
    for (int k = 0; k < Node::n; k++) if (up[k] != Node::live[k]) mc::fail(up[k] ? "node %d is deleted while reachable" : "node %d is not deleted", k);
    for (int k = 0; k < 2; k++) { const P *p = &h[k]; for (int x = head[k]; x >= 0; x = nx[x]) {
        if (!*p || (*p)->id != x) mc::fail("the chain is broken at node %d", x);
        if (p->use_count() != refs[x]) mc::fail("use_count of node %d is %ld, not %d", x, p->use_count(), refs[x]); p = &(*p)->next; }
      if (*p || p->use_count() != 0) mc::fail("the chain goes on"); }
  }
  uint64_t hh = 5; for (int k : head) hh = hh * 31 + k + 1; for (int x : nx) hh = hh * 31 + x + 2; mc::state(hh);
  delete[] h; for (int k = 0; k < Node::n; k++) if (Node::live[k]) mc::fail("node %d is never deleted", k);
}
// arrays
struct El { int v; static int live; El() : v(0) { live++; } ~El() { live--; v = -1; } }; int El::live;
MC_SCENARIO(arrays, 4, 5, 4, 16) {
  using A = cest::shared_ptr<El[]>; El::live = 0; A *p[2] = {new A, new A}; int grp[2] = {-1, -1}; std::vector<int> size, own; int calls = 0, ran = 0;
  auto drop = [&](int i) { if (grp[i] >= 0) own[grp[i]]--; grp[i] = -1; };
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2), j = 1 - i;
    switch (mc::choose(5)) {
    case 0: { int n = mc::choose_in(1, 3); mc::tr("a%d is a new array of %d", i, n); El *e = new El[n]; for (int k = 0; k < n; k++) e[k].v = (int)size.size() * 10 + k; A *q = new A(e); delete p[i]; drop(i); p[i] = q; grp[i] = (int)size.size(); size.push_back(n); own.push_back(1); break; }
    case 1: { mc::tr("a%d is a new array with a deleter", i); El *e = new El[2]; e[0].v = (int)size.size() * 10; e[1].v = e[0].v + 1; A *q = new A(e, [&ran](El *x) { ran++; delete[] x; }); calls++; delete p[i]; drop(i); p[i] = q; grp[i] = (int)size.size(); size.push_back(2); own.push_back(1); break; }
    case 2: mc::tr("a%d = a%d", i, j); *p[i] = static_cast<const A &>(*p[j]); if (grp[j] >= 0) own[grp[j]]++; drop(i); grp[i] = grp[j]; break;
    case 3: mc::tr("a%d is destroyed", i); delete p[i]; p[i] = new A; drop(i); break;
    case 4: { mc::tr("a%d is copied from a%d", i, j); A *q = new A(static_cast<const A &>(*p[j])); if (grp[j] >= 0) own[grp[j]]++; delete p[i]; drop(i); p[i] = q; grp[i] = grp[j]; break; }
    }
    int want = 0; for (size_t k = 0; k < size.size(); k++) if (own[k] > 0) want += size[k];
    if (El::live != want) mc::fail("%d array elements are alive, not %d", El::live, want);
    for (int k = 0; k < 2; k++) {
      if (p[k]->use_count() != (grp[k] < 0 ? 0 : own[grp[k]])) mc::fail("use_count of a%d is %ld", k, p[k]->use_count());
      if (bool(*p[k]) != (grp[k] >= 0)) mc::fail("the truth value of a%d is wrong", k);
      if ((*p[0] == *p[1]) != (grp[0] == grp[1]) || (*p[0] != *p[1]) != (grp[0] != grp[1])) mc::fail("comparing arrays is wrong");
      if (grp[k] >= 0) for (int e = 0; e < size[grp[k]]; e++) if ((*p[k])[e].v != grp[k] * 10 + e) mc::fail("a%d[%d] is %d", k, e, (*p[k])[e].v);
    }
  }
  uint64_t hh = 11; for (int k : grp) hh = hh * 31 + k + 1; for (int k : own) hh = hh * 5 + k; for (int k : size) hh = hh * 5 + k; mc::state(hh);
  delete p[0]; delete p[1]; if (El::live) mc::fail("%d array elements are never deleted", El::live); if (ran != calls) mc::fail("%d of %d array deleters ran", ran, calls);
}
// owners of a base, and owners of something else, side by side
MC_SCENARIO(parts, 5, 6, 2, 8) {
  using PI = cest::shared_ptr<int>; Obj::made = 0; auto *o = new SP; PI *q[2] = {new PI, new PI}; int obj = -1; std::vector<int> own;
  std::vector<int> grp(2, -1); std::vector<int *> want(2, nullptr); int other[4] = {1, 2, 3, 4};
  for (int s = 0; s < depth; s++) {
    mc::op(); int i = mc::choose(2);
    switch (mc::choose(4)) {
    case 0: { mc::tr("new whole"); *o = SP(new Der); if (obj >= 0) own[obj]--; obj = (int)own.size(); own.push_back(1); break; }
    case 1: { mc::tr("q%d = copy of other", i); *q[i] = *q[1 - i]; if (grp[1 - i] >= 0) own[grp[1 - i]]++; if (grp[i] >= 0) own[grp[i]]--; grp[i] = grp[1 - i]; want[i] = want[1 - i]; break; }
    case 2: { mc::tr("q%d becomes an alias of itself to another int", i); if (grp[i] < 0) break; PI *n = new PI(*q[i], &other[s % 4]); delete q[i]; q[i] = n; want[i] = &other[s % 4]; break; }
    case 3: { mc::tr("q%d owns a new int", i); int *x = new int(s); *q[i] = PI(x); if (grp[i] >= 0) own[grp[i]]--; want[i] = x; grp[i] = (int)own.size(); own.push_back(1); break; }
    }
    if (o->use_count() != (obj < 0 ? 0 : own[obj])) mc::fail("use_count of the whole is %ld", o->use_count());
    compare(static_cast<const PI &>(*q[0]), static_cast<const PI &>(*q[1]), want[0], want[1], 0, 1);
    for (int k = 0; k < 2; k++) { if (q[k]->get() != want[k]) mc::fail("q%d yields another pointer", k); if (q[k]->use_count() != (grp[k] < 0 ? 0 : own[grp[k]])) mc::fail("use_count of q%d is %ld", k, q[k]->use_count());
      if (want[k]) (void)mc::hash(want[k], sizeof(int)); }
  }
  uint64_t hh = 13; for (int k : grp) hh = hh * 31 + k + 1; for (int k : own) hh = hh * 5 + k; mc::state(hh);
  delete o; delete q[0]; delete q[1]; for (int k = 0; k < Obj::made; k++) if (Obj::alive[k]) mc::fail("object %d is never deleted", k);
}
// pointers to a base and to what derives from it, compared
MC_SCENARIO(related, 0, 0, 1, 1) {
  using SD = cest::shared_ptr<Der>; Obj::made = 0; int k = mc::choose(4), n = mc::choose(4); mc::op(); mc::state(k * 4 + n); mc::tr("ways %d, %d", k, n);
  { SD d[2]; d[0] = SD(new Der); if (k & 1) d[1] = SD(new Der); else d[1] = d[0]; if (k & 2) d[0] = SD(nullptr);
    SP b[2]; b[0] = SP(new Obj); b[1] = n & 1 ? b[0] : SP(); if (n & 2) b[0] = SP(nullptr);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { compare<SP, SD, Obj>(b[i], d[j], b[i].get(), d[j].get(), i, j); compare<SD, SP, Obj>(d[i], b[j], d[i].get(), b[j].get(), i, j); compare<SD, SD, Der>(d[i], d[j], d[i].get(), d[j].get(), i, j); } }
  for (int i = 0; i < Obj::made; i++) if (Obj::alive[i]) mc::fail("object %d is never deleted", i);
}
// if creating a shared_ptr fails, the object is deleted, once
MC_SCENARIO(failing, 0, 0, 1, 1) {
  int way = mc::choose(3), k = mc::choose_in(0, 4); mc::op(); mc::state(way * 10 + k); Obj::made = 0; memset(dcalls, 0, sizeof dcalls);
  Obj *o = way == 1 ? new Der : new Obj; bool threw = false; Del d(0); mc::tr("fault %d, way %d", k, way);
  trk::heap_ticks = true; trk::arm(k);
  try { if (way == 2) { SP p(o, Del2{}); trk::disarm(); if (p.use_count() != 1) mc::fail("use_count of a new pointer is wrong"); } else if (way == 1) { SP p(static_cast<Der *>(o)); trk::disarm(); } else { SP p(o); trk::disarm(); } }
  catch (trk::Fault &) { threw = true; }
  trk::disarm(); trk::heap_ticks = false;
  if (threw != trk::fault_hit) mc::fail("the failure does not reach the caller");
  if (Obj::alive[0]) mc::fail("the object leaks");
}
// more owners than 15 or 16 bits count
MC_SCENARIO(many, 0, 0, 1, 2) {
  int n = huge::size(), k = mc::choose(3), way = mc::choose(3); mc::tr("%d owners, %s, way %d", n, k ? "with a deleter" : "plain", way); mc::state(n * 9 + k * 3 + way); Obj::made = 0; dels = 0; memset(dcalls, 0, sizeof dcalls);
  { Obj *o = k == 2 ? new Der : new Obj; SP a = k == 1 ? SP(o, Del(dels++)) : SP(o), *v = new SP[n]; auto ok = [&](long w) { if (a.use_count() != w || a.get() != o || !a || !Obj::alive[0]) mc::fail("use_count is %ld, not %ld, or the object is gone", a.use_count(), w); };
    for (int i = 0; i < n; i++) { if (way == 1) { SP t(a); v[i] = static_cast<SP &&>(t); } else v[i] = i ? v[i - 1] : a; ok(i + 2); if (v[i].use_count() != i + 2) mc::fail("owner %d counts %ld", i, v[i].use_count()); }
    mc::op(); if (way == 2) { SP b; for (int i = 0; i < n; i++) v[i] = b; ok(1); delete[] v; }
    else if (way == 1) { a = SP(); for (int i = 0; i < n; i++) { if (v[n - 1].use_count() != n - i || !Obj::alive[0]) mc::fail("use_count is %ld, not %d", v[n - 1].use_count(), n - i); v[i] = SP(); } delete[] v; }
    else { delete[] v; ok(1); } }
  mc::op(); if (Obj::alive[0] || (k == 1 && dcalls[0] != 1)) mc::fail("the object is not deleted once, with its last owner");
}
MC_MAIN
