// A stateless, exhaustive choice-point explorer.
//
// A scenario is a deterministic function that calls mc::choose(n) wherever the
// environment (the caller of the library, the allocator, an element type) has n
// ways to go on. The explorer runs it once for every possible sequence of
// answers: depth-first, by re-execution on the real code, in an odometer order
// over the choice vector. A scenario with an operation bound is explored for
// every length 1..depth separately, so a violation is found at its shortest
// length, and each history is observed in full and torn down at its own length.
//
// Nothing is sampled and no randomness is used.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace mc {

constexpr int MAXC = 4096;

struct Shared {            // survives a crash: in a MAP_SHARED file
  uint64_t magic;
  uint64_t execs, trans, states, ops;
  int32_t  depth, n;
  int32_t  lastn, lastdepth;
  uint64_t done;           // 1 when the shard was enumerated completely
  uint64_t other;          // executions ended by a failure that is not this check's
  char     msg[2048];
  int32_t  c[MAXC], a[MAXC];
  int32_t  lastc[MAXC];
};

struct Skip {};            // not a std::exception: library code must not see it

inline Shared  *S = nullptr;
inline int      pos = 0;           // next choice position in this execution
inline int      shard = 0, nshards = 1;
inline bool     tracing = false, replaying = false;
inline bool     thorough = false;
inline volatile uint64_t heartbeat = 0;
inline const char *scenario_name = "";
inline std::vector<int> *replay_choices = nullptr;

// ---- distinct state hashes --------------------------------------------------
inline std::vector<uint64_t> *htab = nullptr;
inline size_t hcount = 0;
constexpr size_t HMAX = 1u << 22;

inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x;
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ULL) {
  const unsigned char *b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; }
  return mix(h);
}
inline uint64_t hash_str(const char *s) { return hash(s, strlen(s)); }

inline void state(uint64_t h) {
  h = mix(h ^ hash_str(scenario_name)); if (!h) h = 1;
  if (hcount >= HMAX) return;
  if ((hcount + 1) * 2 > htab->size()) {
    std::vector<uint64_t> n(htab->size() * 2, 0);
    for (uint64_t x : *htab) if (x) {
      size_t i = x & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = x;
    }
    htab->swap(n);
  }
  size_t m = htab->size() - 1, i = h & m;
  while ((*htab)[i]) { if ((*htab)[i] == h) return; i = (i + 1) & m; }
  (*htab)[i] = h; hcount++; S->states = hcount;
}

// ---- reporting ---------------------------------------------------------------
// Under MemorySanitizer only what it (and UndefinedBehaviorSanitizer) reports counts: an execution in which anything
// else is found ends there, another check reports it.
#define MC_MEM __has_feature(memory_sanitizer)
[[noreturn]] inline void fail(const char *fmt, ...) {
#if MC_MEM
  S->other++;
  throw Skip{};
#endif
  va_list ap; va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  char buf[2400];
  int n = snprintf(buf, sizeof buf, "MC-FAIL %s\n", S->msg);
  if (n > (int)sizeof buf) n = sizeof buf;
  (void)!write(2, buf, n);
  _exit(2);
}
[[noreturn]] inline void internal_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char b[1024]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fprintf(stderr, "MC-INTERNAL %s\n", b); fflush(stderr);
  _exit(9);
}
inline void check(bool ok, const char *what) { if (!ok) fail("%s", what); }

inline void tr(const char *fmt, ...) {
  if (!tracing) return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n'); fflush(stdout);
}

// ---- choices -----------------------------------------------------------------
inline bool owned(int n) {             // which shard explores this prefix
  if (nshards == 1) return true;
  uint64_t h = 0x1234567;
  for (int i = 0; i < 3; i++) h = mix(h * 31 + (i < n ? S->c[i] + 1 : 0));
  return int(h % nshards) == shard;
}

inline int choose(int n) {
  if (n <= 0) internal_error("choose(%d)", n);
  heartbeat = heartbeat + 1;
  if (pos >= MAXC) internal_error("too many choices");
  if (replaying) {
    int v = pos < (int)replay_choices->size() ? (*replay_choices)[pos] : 0;
    if (v >= n) internal_error("replay diverged: choice %d of %d at %d", v, n, pos);
    S->c[pos] = v; S->a[pos] = n; pos++; S->n = pos;
    return v;
  }
  if (pos < S->n) {                    // prefix being replayed
    if (S->a[pos] != n)
      internal_error("non-deterministic scenario: arity %d then %d at %d", S->a[pos], n, pos);
  } else {
    S->c[pos] = 0; S->a[pos] = n; S->n = pos + 1;
  }
  int v = S->c[pos++];
  if (pos == 3 && !owned(3)) throw Skip{};
  return v;
}
// one of the values lo..hi
inline int choose_in(int lo, int hi) { return lo + choose(hi - lo + 1); }
inline bool flip() { return choose(2) != 0; }
template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[choose(N)]; }

inline void op() { S->ops++; heartbeat = heartbeat + 1; }

// ---- scenarios ---------------------------------------------------------------
struct Scenario {
  const char *name;
  void (*run)(int depth);
  int quick_depth, thorough_depth;     // 0: no operation bound (one iteration)
  int quick_shards, thorough_shards;
};
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(Scenario s) { scenarios().push_back(s); } };
#define MC_SCENARIO(NAME, QD, TD, QS, TS)                                       \
  static void NAME(int depth);                                                 \
  static mc::Reg mc_reg_##NAME({#NAME, NAME, QD, TD, QS, TS});                  \
  static void NAME([[maybe_unused]] int depth)

// called before and after each execution; set by track.hpp
inline void (*before_exec)() = nullptr;
inline void (*after_exec)()  = nullptr;
inline void (*on_skip)()     = nullptr;

inline uint64_t watch_last = 0; inline int watch_idle = 0; inline int watch_limit = 10;
inline void on_alarm(int) {
  if (heartbeat == watch_last) {
    if (++watch_idle >= watch_limit) {
      static const char m[] = "MC-HANG no progress: an operation does not terminate\n";
      if (MC_MEM) _exit(4);
      strcpy(S->msg, "an operation does not terminate");
      (void)!write(2, m, sizeof m - 1); _exit(3);
    }
  } else { watch_idle = 0; watch_last = heartbeat; }
}
[[noreturn]] inline void on_terminate() {
  if (MC_MEM) _exit(4);
  const char *w = "std::terminate was called (an exception escaped, or a noexcept function threw)";
  strcpy(S->msg, w);
  fprintf(stderr, "MC-FAIL %s\n", w);
  _exit(2);
}

inline void run_once(const Scenario &s, int depth) {
  pos = 0;
  if (before_exec) before_exec();
  try {
    s.run(depth);
  } catch (Skip &) {
    if (on_skip) on_skip();
    throw;
  } catch (std::exception &e) {
    fail("unexpected exception: %s", e.what());
  } catch (...) {
    fail("unexpected exception");
  }
  if (after_exec) after_exec();
}

inline bool advance() {                // next choice vector; false when all done
  while (S->n > 0 && S->c[S->n - 1] + 1 >= S->a[S->n - 1]) S->n--;
  if (S->n == 0) return false;
  S->c[S->n - 1]++;
  return true;
}

inline void explore(const Scenario &s, int depth) {
  S->depth = depth; S->n = 0;
  for (;;) {
    bool mine = true;
    try {
      run_once(s, depth);
      if (pos < S->n) internal_error("non-deterministic scenario: fewer choices than before");
      if (pos < 3) mine = owned(pos);
    } catch (Skip &) { mine = false; }
    if (mine) {
      S->execs++; S->trans++;
      if (S->n <= 64) {
        S->lastn = S->n; S->lastdepth = depth;
        memcpy(S->lastc, S->c, S->n * sizeof(int));
      }
    }
    if (!advance()) break;
  }
}

inline int main(int argc, char **argv) {
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer) && !__has_feature(memory_sanitizer)
  struct rlimit lim = {3ul << 30, 3ul << 30};        // AddressSanitizer has a limit of its own
  setrlimit(RLIMIT_AS, &lim);
#endif
  const char *name = nullptr, *shm = nullptr, *hashes = nullptr, *replay = nullptr;
  int depth = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> const char * { if (++i >= argc) exit(64); return argv[i]; };
    if (a == "--list") {
      for (auto &s : scenarios())
        printf("%s %d %d %d %d\n", s.name, s.quick_depth, s.thorough_depth,
               s.quick_shards, s.thorough_shards);
      return 0;
    }
    else if (a == "--scenario") name = next();
    else if (a == "--shard") { const char *x = next(); sscanf(x, "%d/%d", &shard, &nshards); }
    else if (a == "--shm") shm = next();
    else if (a == "--hashes") hashes = next();
    else if (a == "--depth") depth = atoi(next());
    else if (a == "--tier") thorough = !strcmp(next(), "thorough");
    else if (a == "--replay") replay = next();
    else if (a == "--trace") tracing = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 64; }
  }
  const Scenario *s = nullptr;
  for (auto &x : scenarios()) if (name && !strcmp(x.name, name)) s = &x;
  if (!s) { fprintf(stderr, "no such scenario\n"); return 64; }
  scenario_name = s->name;
  if (shm) {
    int fd = open(shm, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("shm"); return 64; }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else {
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  memset(S, 0, sizeof *S); S->magic = 0x4d43;
  htab = new std::vector<uint64_t>(1 << 12, 0);
  std::set_terminate(on_terminate);
  signal(SIGALRM, on_alarm);
  itimerval tv{{2, 0}, {2, 0}};
  setitimer(ITIMER_REAL, &tv, nullptr);
  if (depth < 0) depth = thorough ? s->thorough_depth : s->quick_depth;
  if (replay) {
    replaying = true; replay_choices = new std::vector<int>;
    for (const char *p = replay; *p;) {
      char *e; long v = strtol(p, &e, 10); if (e == p) break;
      replay_choices->push_back((int)v); p = *e == ',' ? e + 1 : e;
    }
    S->depth = depth;
    run_once(*s, depth);
    if (pos != (int)replay_choices->size())
      internal_error("replay diverged: %d choices used of %zu", pos, replay_choices->size());
    printf("MC-OK\n");
    return 0;
  }
  if (depth == 0) explore(*s, 0);
  else for (int d = 1; d <= depth; d++) explore(*s, d);
  S->done = 1;
  if (hashes) {
    FILE *f = fopen(hashes, "wb");
    for (uint64_t x : *htab) if (x) fwrite(&x, 8, 1, f);
    fclose(f);
  }
  _exit(0);
}

} // namespace mc

#define MC_MAIN int main(int argc, char **argv) { return mc::main(argc, argv); }

#endif
