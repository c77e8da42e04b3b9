// Environment under the explorer's control: element types that account for
// every construction and destruction, allocators that account for every block,
// the global heap, and faults (exceptions) at the k-th point that can throw.
#ifndef VERIF_TRACK_HPP
#define VERIF_TRACK_HPP

#include "mc.hpp"
#include <new>
#include <type_traits>
#include <utility>

#if MC_MEM
extern "C" char __executable_start, etext;
#endif
namespace trk {

struct Fault : std::bad_alloc {        // so library code may see any base it likes
  const char *what() const noexcept override { return "injected fault"; }
};

// ---- faults ------------------------------------------------------------------
inline long fault_at = -1;             // throw at the fault_at-th point from now
inline long fault_points = 0;          // points passed while armed
inline bool fault_armed = false, fault_hit = false;
inline void arm(long k) { fault_at = k; fault_points = 0; fault_armed = true; fault_hit = false; }
inline void disarm() { fault_armed = false; }
// Or: whether each point fails is the explorer's choice, until `budget` failures.
inline bool choosing = false;
inline int  budget = 0;
inline void arm_choices() { while (mc::pos < 3) mc::choose(1); choosing = true; fault_points = 0; fault_hit = false; }
inline void disarm_choices() { choosing = false; }
inline void tick() {
  if (choosing && budget > 0) {
    fault_points++;
    if (mc::choose(2)) { budget--; fault_hit = true; throw Fault{}; }
  }
  if (!fault_armed) return;
  if (fault_points++ == fault_at) { fault_hit = true; throw Fault{}; }
}

// ---- elements ----------------------------------------------------------------
inline long tok_live = 0, tok_made = 0;

// Mode bits: what an element type can do and how it can fail
enum : unsigned { NOTHROW_MOVE = 1, NO_DEFAULT = 2 };

template <unsigned Mode>
struct BasicTok {
  const volatile void *volatile self;
  int v;
  static constexpr int moved_from = -7777;

  void live(const char *what) const {
    if (self != this) mc::fail("%s: an element that was never constructed, or was destroyed", what);
  }
  void born() {
    self = this; tok_live++; tok_made++;
  }
  BasicTok() : v(0) { tick(); born(); }
  BasicTok(int x) : v(x) { tick(); born(); }
  BasicTok(const BasicTok &o) : v(0) { o.live("copied from"); tick(); v = o.v; born(); }
  BasicTok(BasicTok &&o) noexcept((Mode & NOTHROW_MOVE) != 0) : v(0) {
    o.live("moved from");
    if constexpr (!(Mode & NOTHROW_MOVE)) tick();
    v = o.v; o.v = moved_from; born();
  }
  BasicTok &operator=(const BasicTok &o) {
    live("assigned to"); o.live("assigned from"); tick(); v = o.v; return *this;
  }
  BasicTok &operator=(BasicTok &&o) noexcept((Mode & NOTHROW_MOVE) != 0) {
    live("move-assigned to"); o.live("move-assigned from");
    if constexpr (!(Mode & NOTHROW_MOVE)) tick();
    if (this != &o) { v = o.v; o.v = moved_from; }
    return *this;
  }
  ~BasicTok() { live("destroyed"); self = nullptr; tok_live--; }
  int get() const { live("read"); return v; }
  friend bool operator==(const BasicTok &a, const BasicTok &b) {
    a.live("compared"); b.live("compared"); tick(); return a.v == b.v;
  }
  friend bool operator<(const BasicTok &a, const BasicTok &b) {
    a.live("compared"); b.live("compared"); tick(); return a.v < b.v;
  }
};
using Tok  = BasicTok<NOTHROW_MOVE>;   // like std::string: moves cannot fail
using TokC = BasicTok<0>;              // moves can fail, so is copied when relocated

inline int val(int x) { return x; }
inline int val(char x) { return x; }
template <unsigned M> int val(const BasicTok<M> &t) { return t.get(); }

// new storage holds a pattern; under MemorySanitizer it stays what it is there: never written
// (unless it is the compiled part of libstdc++ that asks: nobody watches what is written there)
inline void fresh([[maybe_unused]] void *p, [[maybe_unused]] size_t n, [[maybe_unused]] void *caller = nullptr) {
#if MC_MEM
  if (!caller || (caller >= &__executable_start && caller < &etext)) return;
#endif
  memset(p, 0xCD, n);
}
// ---- blocks ------------------------------------------------------------------
struct Block { void *p; size_t n; int id; };
inline std::vector<Block> &blocks() { 
  static std::vector<Block> *b = [] { auto *v = new std::vector<Block>; v->reserve(8192); return v; }();
  return *b;
}

template <class T> struct TAlloc {
  using value_type = T;
  int id = 0;
  TAlloc() noexcept = default;
  explicit TAlloc(int i) noexcept : id(i) {}
  template <class U> TAlloc(const TAlloc<U> &o) noexcept : id(o.id) {}
  T *allocate(size_t n) {
    tick();
    if (n > (size_t(1) << 28) / sizeof(T)) mc::fail("allocator asked for %zu objects", n);
    void *p = malloc(n * sizeof(T) + (n == 0));
    fresh(p, n * sizeof(T));
    blocks().push_back({p, n, id});
    if (blocks().size() > 200000) mc::fail("allocation without end: %zu blocks", blocks().size());
    return static_cast<T *>(p);
  }
  void deallocate(T *p, size_t n) {
    auto &b = blocks();
    for (size_t i = b.size(); i-- > 0;)
      if (b[i].p == p) {
        if (b[i].n != n)
          mc::fail("a block of %zu objects is returned as one of %zu", b[i].n, n);
        if (b[i].id != id)
          mc::fail("a block from allocator %d is returned to allocator %d", b[i].id, id);
        b[i] = b.back(); b.pop_back();
        if (!MC_MEM) memset((void *)p, 0xDD, n * sizeof(T));
        free(p);
        return;
      }
    mc::fail("a block that was not allocated, or was already returned, is deallocated");
  }
  friend bool operator==(const TAlloc &a, const TAlloc &b) { return a.id == b.id; }
};

// ---- global heap ---------------------------------------------------------------
inline long heap_live = 0;             // blocks from operator new
inline bool heap_ticks = false;        // operator new is a fault point

// ---- per-execution reset and balance -------------------------------------------
inline long heap_base = 0;
inline void before() {
  disarm(); choosing = false;
  tok_live = 0; tok_made = 0; blocks().clear(); heap_ticks = false; heap_base = heap_live;
}
inline void balance(const char *when) {
  if (tok_live != 0) mc::fail("%s: %ld element(s) constructed more often than destroyed", when, tok_live);
  if (!blocks().empty()) mc::fail("%s: %zu block(s) never returned", when, blocks().size());
  if (heap_live != heap_base) mc::fail("%s: %ld heap block(s) never freed", when, heap_live - heap_base);
}
inline void after() { disarm(); balance("after all objects are destroyed"); }
inline void skipped() { disarm(); }
inline bool install() {
  mc::before_exec = before; mc::after_exec = after; mc::on_skip = skipped; return true;
}
inline bool installed = install();

} // namespace trk

namespace trk {
// No history here needs anywhere near this many blocks: a loop that allocates for ever.
inline void more() {
  if (++heap_live - heap_base > 1000000) mc::fail("allocation without end: %ld blocks", heap_live - heap_base);
}
}
// A harness defines this once, to count the blocks of std::allocator and new.
#define TRK_HEAP                                                                \
  void *operator new(size_t n) {                                               \
    if (trk::heap_ticks) trk::tick();                                          \
    void *p = malloc(n ? n : 1); if (!p) abort();                              \
    trk::fresh(p, n, __builtin_return_address(0)); trk::more(); return p; }                          \
  void *operator new[](size_t n) {                                             \
    if (trk::heap_ticks) trk::tick();                                          \
    void *p = malloc(n ? n : 1); if (!p) abort();                              \
    trk::fresh(p, n, __builtin_return_address(0)); trk::more(); return p; }                          \
  void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return operator new(n); } catch (...) { return nullptr; } }     \
  void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return operator new[](n); } catch (...) { return nullptr; } } \
  void operator delete(void *p) noexcept { if (p) { trk::heap_live--; free(p); } }   \
  void operator delete[](void *p) noexcept { if (p) { trk::heap_live--; free(p); } } \
  void operator delete(void *p, size_t) noexcept { if (p) { trk::heap_live--; free(p); } } \
  void operator delete[](void *p, size_t) noexcept { if (p) { trk::heap_live--; free(p); } }

#endif
