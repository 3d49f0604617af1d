// Controlled scheduler, simulated kernel and exhaustive schedule enumeration.
//
// The library under test is compiled with thread-sanitizer instrumentation and
// linked against the __tsan_* functions below; its libc calls are renamed to
// mc_* at object level. Users are fibers of this process. One execution is a
// sequence of choices; explore() enumerates all choice sequences within the
// budgets of Config by depth-first re-execution, spread over worker processes.
#include "mc.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <unordered_map>
#include <unordered_set>

namespace mc {

bool g_verbose = false;
int g_workers = 0;
void (*g_after)() = nullptr;
static int g_untracked;
void untracked(bool b) { g_untracked += b ? 1 : -1; }

void die(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "CHECK-ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(stdout);
  _exit(3);
}

// ---------------------------------------------------------------------------
// fibers
// ---------------------------------------------------------------------------
static const int MAXF = 16;
static const size_t STACK = 512 * 1024;
static const size_t TLSSZ = 16 * 1024;
static const int MAXTLS = 96;

enum St { FREE, RUNNABLE, WAITING, DONE, DEAD };
enum Wk { W_NONE, W_FUTEX, W_PI, W_REQ, W_JOIN, W_PMTX, W_PCND, W_PRED, W_RUN, W_SLEEP };

struct Fiber {
  int id, proc, tid, flags;
  St st;
  Wk wk;
  uint64_t key, key2;   // futex keys
  uint32_t* uaddr2;     // requeue target in the waiter's mapping
  uint32_t* uaddr;
  uint64_t enq;         // queue order
  uint64_t deadline;    // 0: none
  long ret;             // syscall result when woken
  int err;
  int joinee;
  void* pobj;
  void* sp;
  uint8_t* stack;
  uint8_t* tls;
  size_t tls_used;
  void* tlsptr[MAXTLS];
  uint8_t* robust_head;
  std::function<void()> fn;
  std::function<bool()> pred;
  char name[32];
  bool started;
  int silent;
  int spin;       // consecutive unproductive sync operations
  uint32_t after; // fairness: having spun, runs only after these fibers ran (if they can)
  void* (*pfn)(void*);
  void* parg;
  void* pret;
  int saved_errno;
};

struct Entry {
  uint8_t n, c;
  uint8_t what;  // option taken: kind<<4 | fiber
  uint8_t pad;
  uint32_t sig;
};

enum Opt { O_CONT = 0, O_PREEMPT, O_KILL, O_TICK, O_SWITCH, O_FREE };

static struct {
  Fiber f[MAXF];
  int nf;
  int cur;
  bool active;
  Config cfg;
  int bp, bc, bt;  // remaining budgets
  long points;
  uint64_t clock_ns;
  uint64_t wall_off;
  std::vector<uint64_t> deadlines;
  uint64_t enq;
  uint64_t oc;
  uint64_t urandom;
  // choices
  const Entry* prefix;
  size_t plen;
  std::vector<Entry> trace;
  bool logging;
  void* main_sp;
  bool viol;
  bool pruned;
  std::string msg;
  bool killing_allowed;
  std::unordered_map<uint64_t, int>* pi_owner;
} G;

static void* g_tlskeys[MAXTLS];
static int g_ntlskeys;

extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

static void fiber_main();
static void* fresh_stack(Fiber& f) {
  uint64_t* sp = (uint64_t*)(f.stack + STACK - 64);
  // layout: r15 r14 r13 r12 rbx rbp ret
  *--sp = 0;
  *--sp = (uint64_t)&fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  return sp;
}

// ---------------------------------------------------------------------------
// memory
// ---------------------------------------------------------------------------
static const uint64_t SH_LO = 0x600000000000ull, SH_HI = 0x600100000000ull;
static const uint64_t HP_LO = 0x610000000000ull, HP_SZ = 64ull << 20;
struct Region {
  uint64_t lo, hi;
  int obj;
  bool handle;
  bool gone;  // unmapped in this execution
};
static std::vector<Region> g_regions;
static uint64_t g_sh_next = SH_LO;
static int g_nobj;
static uint8_t* g_heap;
static uint8_t* g_shadow;
static const int HP_AR = 16;
static const size_t HP_ARSZ = HP_SZ / HP_AR;
static size_t g_heap_used[HP_AR];
static std::vector<std::pair<uint64_t, size_t>> g_zero;

static const Region* find_region(uint64_t a) {
  // few regions; remember the last hit
  static thread_local size_t last = 0;
  if (last < g_regions.size() && a >= g_regions[last].lo && a < g_regions[last].hi) return &g_regions[last];
  for (size_t i = 0; i < g_regions.size(); i++)
    if (a >= g_regions[i].lo && a < g_regions[i].hi) {
      last = i;
      return &g_regions[i];
    }
  return nullptr;
}

// as the kernel sees it
static const Region* live_region(uint64_t a) {
  const Region* r = find_region(a);
  return r && !r->gone ? r : nullptr;
}
void unmap(void* at) {
  for (auto& r : g_regions)
    if (r.lo == (uint64_t)at) r.gone = true;
}

static uint64_t reserve(size_t size) {
  size_t ps = (size + 4095) & ~4095ull;
  uint64_t at = g_sh_next + 4096;
  g_sh_next = at + ps + 4096;
  if (g_sh_next > SH_HI) die("shared range exhausted");
  return at;
}

Shared make_shared(size_t size, int nproc) {
  Shared s;
  s.size = size;
  s.nproc = nproc;
  int fd = memfd_create("mc", 0);
  size_t ps = (size + 4095) & ~4095ull;
  if (fd < 0 || ftruncate(fd, ps)) die("memfd");
  int obj = g_nobj++;
  for (int i = 0; i < nproc; i++) {
    uint64_t at = reserve(size);
    void* p = mmap((void*)at, ps, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    if (p == MAP_FAILED) die("mmap");
    s.map.push_back((uint8_t*)p);
    g_regions.push_back({at, at + size, obj, false, false});
    if (i == 0) g_zero.push_back({at, size});
  }
  close(fd);
  return s;
}
void Shared::zero() const { memset(map[0], 0, size); }

void* make_handle(size_t size) {
  uint64_t at = reserve(size);
  size_t ps = (size + 4095) & ~4095ull;
  void* p = mmap((void*)at, ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) die("mmap");
  g_regions.push_back({at, at + size, g_nobj++, true, false});
  g_zero.push_back({at, size});
  return p;
}
// Gives this (worker) process its own copies of the shared objects.
static void privatize_memory() {
  std::map<int, int> fds;
  for (auto& r : g_regions) {
    if (r.handle) continue;
    size_t ps = (r.hi - r.lo + 4095) & ~4095ull;
    auto it = fds.find(r.obj);
    if (it == fds.end()) {
      int fd = memfd_create("mc", 0);
      if (fd < 0 || ftruncate(fd, ps)) die("memfd");
      it = fds.emplace(r.obj, fd).first;
    }
    if (mmap((void*)r.lo, ps, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, it->second, 0) == MAP_FAILED) die("mmap");
  }
  for (auto& kv : fds) close(kv.second);
}
void reset_memory() {
  for (auto& z : g_zero) memset((void*)z.first, 0, z.second);
  for (auto& r : g_regions) r.gone = false;
}

static void heap_init() {
  if (g_heap) return;
  g_heap = (uint8_t*)mmap((void*)HP_LO, HP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  g_shadow = (uint8_t*)mmap(nullptr, HP_SZ / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_heap == MAP_FAILED || g_shadow == MAP_FAILED) die("heap");
}
static void heap_reset() {
  for (int i = 0; i < HP_AR; i++)
    if (g_heap_used[i]) {
      memset(g_shadow + i * (HP_ARSZ / 16), 0, g_heap_used[i] / 16 + 1);
      g_heap_used[i] = 0;
    }
}
static void heap_mark(uint8_t* p, size_t n) {
  size_t g = (p - g_heap) / 16;
  while (n >= 16) {
    g_shadow[g++] = 16;
    n -= 16;
  }
  if (n) g_shadow[g] = n;
}
static inline bool in_heap(const void* p) { return (uint64_t)p - HP_LO < HP_SZ; }

// snapshot of the library's writable globals
extern "C" {
extern char __start_mcdata[] __attribute__((weak));
extern char __stop_mcdata[] __attribute__((weak));
extern char __start_mcbss[] __attribute__((weak));
extern char __stop_mcbss[] __attribute__((weak));
}
static std::vector<char> g_data0, g_bss0;
static void globals_save() {
  if (__start_mcdata) g_data0.assign(__start_mcdata, __stop_mcdata);
  if (__start_mcbss) g_bss0.assign(__start_mcbss, __stop_mcbss);
}
static void globals_restore() {
  if (!g_data0.empty()) memcpy(__start_mcdata, g_data0.data(), g_data0.size());
  if (!g_bss0.empty()) memcpy(__start_mcbss, g_bss0.data(), g_bss0.size());
}

// ---------------------------------------------------------------------------
// trace identity: per location, order of writes, with the set of reads between
// ---------------------------------------------------------------------------
static inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  a ^= a >> 33;
  return a;
}
struct Loc {
  uint64_t key, hw, racc;
};
static const int LTB = 16, LT = 1 << LTB;
static Loc g_loc[LT];
static std::vector<int> g_touched;
static uint64_t g_hb;  // identity of the happens-before trace so far
static inline uint64_t loc_id(const Loc& l) { return mix(mix(l.key, l.hw), l.racc); }
static inline void loc_access(uint64_t key, bool wr, uint64_t who) {
  uint64_t h = (key * 0x9e3779b97f4a7c15ull) >> (64 - LTB);
  while (g_loc[h].key && g_loc[h].key != key) h = (h + 1) & (LT - 1);
  Loc& l = g_loc[h];
  if (!l.key) {
    l.key = key;
    l.hw = l.racc = 0;
    g_touched.push_back(h);
    if (g_touched.size() > LT / 2) die("location table full");
  } else {
    g_hb -= loc_id(l);
  }
  if (wr) {
    l.hw = mix(mix(l.hw, l.racc), who + 1);
    l.racc = 0;
  } else {
    l.racc += mix(0x1234, who + 1);
  }
  g_hb += loc_id(l);
}
static uint64_t loc_finish() {
  uint64_t s = g_hb;
  for (int h : g_touched) g_loc[h].key = 0;
  g_touched.clear();
  g_hb = 0;
  return s;
}
// pseudo locations
enum : uint64_t { L_CLOCK = 0x7100000000000001ull, L_RANDOM = 0x7100000000000002ull, L_FIBER = 0x7200000000000000ull, L_CHOICE = 0x7300000000000000ull, L_STEP = 0x7500000000000000ull, L_THREADS = 0x7100000000000003ull, L_WAKE = 0x7600000000000000ull };

// Visited states (happens-before trace, who runs, remaining budgets), shared by the workers.
static uint64_t* g_vis;
static size_t g_vis_n;  // power of two
static bool vis_has(uint64_t k) {
  for (size_t i = k & (g_vis_n - 1), n = 0; n < 64; n++, i = (i + 1) & (g_vis_n - 1)) {
    uint64_t v = __atomic_load_n(&g_vis[i], __ATOMIC_RELAXED);
    if (v == k) return true;
    if (!v) return false;
  }
  return false;
}
static void vis_add(uint64_t k) {
  for (size_t i = k & (g_vis_n - 1), n = 0; n < 64; n++, i = (i + 1) & (g_vis_n - 1)) {
    uint64_t v = __atomic_load_n(&g_vis[i], __ATOMIC_RELAXED);
    if (v == k) return;
    if (!v) {
      uint64_t z = 0;
      if (__atomic_compare_exchange_n(&g_vis[i], &z, k, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || z == k) return;
    }
  }
}

// ---------------------------------------------------------------------------
// scheduling
// ---------------------------------------------------------------------------
static void logev(const char* fmt, ...) {
  if (!G.logging) return;
  va_list ap;
  va_start(ap, fmt);
  printf("  [%-10s] ", G.cur >= 0 ? G.f[G.cur].name : "-");
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
}
void note(const char* fmt, ...) {
  if (!G.logging) return;
  va_list ap;
  va_start(ap, fmt);
  printf("  [%-10s] -- ", G.cur >= 0 ? G.f[G.cur].name : "-");
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
}

[[noreturn]] static void abandon() {
  void* dummy;
  mc_switch(&dummy, G.main_sp);
  abort();
}

void fail(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (!G.active) die("failure outside an execution: %s", buf);
  G.viol = true;
  G.msg = buf;
  if (G.logging) printf("  [%-10s] VIOLATION: %s\n", G.f[G.cur].name, buf);
  abandon();
}

// Abandons the execution if this state was met before with at least these budgets.
static void prune_if_seen(uint64_t kind, int n) {
  uint64_t h = mix(g_hb, kind * 31 + n);
  h = mix(h, G.cur);
  h = mix(h, G.f[G.cur].spin);
  for (int i = 0; i < G.nf; i++) h = mix(h, ((uint64_t)G.f[i].st << 40) | ((uint64_t)G.f[i].wk << 32) | G.f[i].after);
  uint64_t mine = 0;
  for (int p = G.bp; p <= G.cfg.preempt; p++)
    for (int c = G.bc; c <= G.cfg.crash; c++)
      for (int t = G.bt; t <= G.cfg.ticks; t++) {
        uint64_t k = mix(mix(mix(h, p), c), t) | 1;
        if (p == G.bp && c == G.bc && t == G.bt) mine = k;
        if (vis_has(k)) {
          G.pruned = true;
          abandon();
        }
      }
  vis_add(mine);
}

static int pick(int n, uint32_t sig, int* what) {
  size_t pos = G.trace.size();
  int c = 0;
  if (pos >= G.plen && G.cfg.cache && (what[0] >> 4) != O_FREE) prune_if_seen(sig, n);
  if (pos < G.plen) {
    const Entry& e = G.prefix[pos];
    if (e.n != n || e.sig != sig)
      die("divergence at choice %zu: recorded n=%d sig=%08x, now n=%d sig=%08x", pos, e.n, e.sig, n, sig);
    c = e.c;
  }
  if (n > 255) die("too many options");
  G.trace.push_back({(uint8_t)n, (uint8_t)c, (uint8_t)what[c], 0, sig});
  return c;
}

int choose(int n) {
  if (n <= 1) return 0;
  int what[64];
  for (int i = 0; i < n && i < 64; i++) what[i] = O_FREE << 4;
  int c = pick(n, 0xC0000000u | (G.cur << 8) | n, what);
  loc_access(L_CHOICE + G.cur, true, 1000 + c);
  return c;
}

static inline bool enabled(Fiber& f) {
  if (f.st == RUNNABLE) return true;
  if (f.st == WAITING && f.wk == W_PRED) return f.pred();
  return false;
}

static void switch_to(int g) {
  if (g == G.cur) return;
  int me = G.cur;
  G.f[me].saved_errno = errno;
  G.cur = g;
  Fiber& t = G.f[g];
  if (t.st == WAITING && t.wk == W_PRED) {
    t.st = RUNNABLE;
    t.wk = W_NONE;
  }
  t.spin = 0;
  for (int i = 0; i < G.nf; i++) G.f[i].after &= ~(1u << g);
  if (G.logging) printf("  ---- %s -> %s\n", G.f[me].name, t.name);
  mc_switch(&G.f[me].sp, t.sp);
  errno = G.f[G.cur].saved_errno;
}

static void kill_fiber_proc(int fid);

static bool next_deadline(uint64_t* out) {
  uint64_t best = 0;
  for (uint64_t d : G.deadlines)
    if (d > G.clock_ns && (!best || d < best)) best = d;
  for (int i = 1; i < G.nf; i++)
    if (G.f[i].st == WAITING && G.f[i].deadline > G.clock_ns && (!best || G.f[i].deadline < best)) best = G.f[i].deadline;
  *out = best;
  return best != 0;
}

static void wake(Fiber& f, long ret, int err) {
  loc_access(L_WAKE + f.id, true, err ? 1000 + err : G.cur);
  f.st = RUNNABLE;
  f.wk = W_NONE;
  f.deadline = 0;
  f.ret = ret;
  f.err = err;
}

static void expire() {
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.st == WAITING && f.deadline && f.deadline <= G.clock_ns) {
      if (f.wk == W_SLEEP) wake(f, 0, 0);
      else wake(f, -1, ETIMEDOUT);
    }
  }
}

static void do_tick() {
  uint64_t d;
  if (!next_deadline(&d)) die("tick without deadline");
  G.clock_ns = d;
  loc_access(L_CLOCK, true, 99 + d);
  if (G.logging) printf("  ==== clock reaches %llu ns\n", (unsigned long long)d);
  expire();
}

// Called when the current fiber cannot continue (blocked, finished, dead, or
// yields by force). Chooses who runs next.
static void dispatch(bool exclude_cur = false) {
  while (true) {
    int what[MAXF + 4], tgt[MAXF + 4], n = 0;
    uint32_t en = 0;
    for (int i = 1; i < G.nf; i++)
      if (enabled(G.f[i])) en |= 1u << i;
    if (exclude_cur) G.f[G.cur].after = en & ~(1u << G.cur);
    for (int pass = 0; pass < 2 && !n; pass++)
      for (int k = 1; k <= G.nf; k++) {
        int i = (G.cur + k) % G.nf;
        if (i == 0) continue;
        if (exclude_cur && i == G.cur) continue;
        if ((en >> i & 1) && (pass || !(G.f[i].after & en))) {
          tgt[n] = i;
          what[n++] = O_SWITCH << 4 | i;
        }
      }
    if (n == 0 && exclude_cur && enabled(G.f[G.cur])) return;
    if (n == 0) {
      uint64_t d;
      bool have = false;
      for (int i = 1; i < G.nf; i++)
        if (G.f[i].st == WAITING && G.f[i].deadline) have = true;
      if (have && next_deadline(&d)) {
        do_tick();
        continue;
      }
      // nobody can run: back to fiber 0, which judges
      Fiber& z = G.f[0];
      if (z.st == WAITING && z.wk == W_RUN) {
        z.st = RUNNABLE;
        z.wk = W_NONE;
        switch_to(0);
        return;
      }
      die("no runnable fiber and fiber 0 not waiting");
    }
    int c = 0;
    if (n > 1 && (!G.cfg.delay || G.bp > 0)) {
      c = pick(n, 0x80000000u | (G.cur << 16) | n, what);
      if (c && G.cfg.delay) G.bp--;
    }
    switch_to(tgt[c]);
    return;
  }
}

static void block_cur() {
  Fiber& f = G.f[G.cur];
  f.spin = 0;
  dispatch();
  (void)f;
}

static const char* kindname(int k) { return k == 'r' ? "read" : k == 'w' ? "write" : k == 'l' ? "atomic load" : k == 'a' ? "atomic rmw" : k == 's' ? "syscall" : "point"; }

// kind: r w l a s p ; t = store to thread-private kernel-visible memory
static void sched_point(int kind, uint64_t loc) {
  Fiber& f = G.f[G.cur];
  if (G.cur == 0 || f.silent) return;
  if (++G.points > G.cfg.max_points) fail("no progress: %ld scheduling points without an end (last in %s)", G.points, f.name);
  loc_access(L_STEP + G.cur, true, 1);
  if (kind == 'l' || kind == 's') {
    if (++f.spin > 16) {
      f.spin = 0;
      // spinning: let the others go on (not a choice)
      bool other = false;
      for (int i = 1; i < G.nf; i++)
        if (i != G.cur && enabled(G.f[i])) other = true;
      if (other) {
        dispatch(true);
      } else {
        // only spinners left: let time pass if anything waits for it
        uint64_t d;
        bool have = false;
        for (int i = 1; i < G.nf; i++)
          if (G.f[i].st == WAITING && G.f[i].deadline) have = true;
        if (have && next_deadline(&d)) do_tick();
      }
    }
  }
  int what[2 * MAXF + 4], n = 1;
  what[0] = O_CONT << 4 | G.cur;
  if (kind != 't') {
    if (G.bp > 0) {
      for (int k = 1; k < G.nf; k++) {
        int i = (G.cur + k) % G.nf;
        if (i != 0 && i != G.cur && enabled(G.f[i]) && !(G.f[i].after >> G.cur & 1)) what[n++] = O_PREEMPT << 4 | i;
      }
    }
  }
  if (G.bc > 0) {
    if ((f.flags & KILLABLE) && kind != 'r' && kind != 'l') what[n++] = O_KILL << 4 | G.cur;
    if (kind == 's') {
      for (int i = 1; i < G.nf; i++)
        if (i != G.cur && G.f[i].proc != f.proc && G.f[i].st == WAITING && (G.f[i].flags & KILLABLE)) what[n++] = O_KILL << 4 | i;
    }
  }
  if (G.bt > 0 && (kind == 's' || kind == 'p')) {
    uint64_t d;
    if (next_deadline(&d)) what[n++] = O_TICK << 4;
  }
  if (n == 1) return;
  int c = pick(n, ((uint32_t)G.cur << 24) | ((uint32_t)kind << 16) | ((uint32_t)mix(loc, n) & 0xffff), what);
  int k = what[c] >> 4, t = what[c] & 15;
  switch (k) {
    case O_CONT:
      return;
    case O_PREEMPT:
      G.bp--;
      if (G.logging) printf("  [%-10s] preempted before %s\n", f.name, kindname(kind));
      switch_to(t);
      return;
    case O_KILL:
      G.bc--;
      if (G.logging) printf("  [%-10s] DIES (process %d) %s\n", G.f[t].name, G.f[t].proc, t == G.cur ? kindname(kind) : "while blocked");
      kill_fiber_proc(t);
      if (G.f[G.cur].st == DEAD) {
        dispatch();
        abort();
      }
      return;
    case O_TICK:
      G.bt--;
      do_tick();
      return;
  }
}

void perish() {
  if (G.cur == 0) die("perish outside a user");
  if (G.logging) printf("  [%-10s] DIES (process %d)\n", G.f[G.cur].name, G.f[G.cur].proc);
  kill_fiber_proc(G.cur);
  dispatch();
  abort();
}

static inline void productive() { G.f[G.cur].spin = 0; }

void point() {
  if (G.active && G.cur > 0) sched_point('p', 0);
}

void access(uint64_t loc, bool write) {
  if (G.active && G.cur > 0) loc_access(0x7400000000000000ull | (mix(loc, 5) >> 8), write, G.cur);
}

void await(std::function<bool()> pred) {
  if (G.cur == 0) die("await in fiber 0");
  if (pred()) return;
  Fiber& f = G.f[G.cur];
  f.st = WAITING;
  f.wk = W_PRED;
  f.pred = pred;
  block_cur();
}

static void fiber_main() {
  Fiber& f = G.f[G.cur];
  f.started = true;
  errno = 0;
  if (f.pfn) f.pret = f.pfn(f.parg);
  else f.fn();
  if (G.cur == 0) abandon();
  f.st = DONE;
  loc_access(L_FIBER + f.id, true, 50);
  if (G.logging) printf("  [%-10s] finished\n", f.name);
  for (int i = 1; i < G.nf; i++)
    if (G.f[i].st == WAITING && G.f[i].wk == W_JOIN && G.f[i].joinee == f.id) wake(G.f[i], 0, 0);
  dispatch();
  abort();
}

static void alloc_fiber(Fiber& f) {
  if (f.stack) return;
  f.stack = (uint8_t*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (f.stack == MAP_FAILED) die("stack");
  mprotect(f.stack, 4096, PROT_NONE);
  f.stack += 4096;
  if (!f.tls) f.tls = (uint8_t*)aligned_alloc(64, TLSSZ);
}

static Fiber& new_fiber(int proc, const char* name, int flags) {
  if (G.nf >= MAXF) die("too many fibers");
  Fiber& f = G.f[G.nf];
  f.id = G.nf;
  f.proc = proc;
  f.tid = 1000 + f.id;
  f.flags = flags;
  f.st = RUNNABLE;
  f.wk = W_NONE;
  f.deadline = 0;
  f.robust_head = nullptr;
  f.tls_used = 0;
  memset(f.tlsptr, 0, sizeof f.tlsptr);
  f.started = false;
  f.silent = 0;
  f.spin = 0;
  f.after = 0;
  f.pfn = nullptr;
  f.pret = nullptr;
  f.saved_errno = 0;
  snprintf(f.name, sizeof f.name, "%s", name);
  f.sp = fresh_stack(f);
  G.nf++;
  return f;
}

int spawn(int proc, const char* name, std::function<void()> fn, int flags) {
  Fiber& f = new_fiber(proc, name, flags);
  f.fn = std::move(fn);
  return f.id;
}

void run() {
  if (G.cur != 0) die("run outside fiber 0");
  if (G.nf == 1) return;
  Fiber& z = G.f[0];
  z.st = WAITING;
  z.wk = W_RUN;
  dispatch();
  // back: everybody is done, dead or stuck
  std::string stuck;
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.st == WAITING && !(f.flags & MAY_BLOCK)) {
      stuck += stuck.empty() ? "" : ", ";
      stuck += f.name;
      stuck += f.wk == W_FUTEX ? " (futex wait)" : f.wk == W_PI ? " (mutex lock)" : f.wk == W_REQ ? " (condition wait)" : f.wk == W_JOIN ? " (thread join)" : f.wk == W_PRED ? " (driver await)" : " (blocked)";
    }
  }
  if (!stuck.empty()) fail("blocked forever: %s", stuck.c_str());
}

static void see(int i) {
  if (G.cur > 0 && i != G.cur) loc_access(L_FIBER + i, false, G.cur);
}
bool finished(int i) { return see(i), G.f[i].st == DONE; }
bool died(int i) { return see(i), G.f[i].st == DEAD; }
bool asleep(int i) { return G.f[i].st == WAITING && G.f[i].wk != W_PRED; }
bool blocked(int i) { return G.f[i].st == WAITING; }
int self() { return G.cur; }
int tid_of(int i) { return G.f[i].tid; }
int cur_proc() { return G.f[G.cur].proc; }
void set_proc(int p) { G.f[G.cur].proc = p; }
void outcome(uint64_t v) { G.oc = mix(G.oc, v); }
uint64_t now_ns() {
  if (G.cur > 0) loc_access(L_CLOCK, false, G.cur);
  return G.clock_ns;
}
void set_now(uint64_t ns) { G.clock_ns = ns; }
void add_deadline(uint64_t ns) { G.deadlines.push_back(ns); }
bool in_exec() { return G.active; }
void silent(bool b) { G.f[G.cur].silent += b ? 1 : -1; }

// ---------------------------------------------------------------------------
// simulated futexes
// ---------------------------------------------------------------------------
static uint64_t fkey(const void* p) {
  uint64_t a = (uint64_t)p;
  if (a >= SH_LO && a < SH_HI) {
    const Region* r = find_region(a);
    if (!r || r->gone) fail("futex at an invalid address");
    if (r->handle) return a;
    return ((uint64_t)(r->obj + 1) << 32) | (a - r->lo);
  }
  // private memory: distinguish processes
  return a ^ ((uint64_t)G.f[G.cur].proc << 56);
}

// a system call touches this word
static void sysloc(const void* u) {
  if (!G.active || G.cur == 0) return;
  uint64_t a = (uint64_t)u;
  const Region* r = a >= SH_LO && a < SH_HI ? find_region(a) : nullptr;
  loc_access(r ? ((uint64_t)(r->obj + 1) << 32) | ((a - r->lo) >> 3) : a >> 3, true, G.cur);
}

static Fiber* by_tid(uint32_t tid) {
  for (int i = 0; i < G.nf; i++)
    if ((uint32_t)G.f[i].tid == tid && G.f[i].st != DEAD && G.f[i].st != DONE) return &G.f[i];
  return nullptr;
}
static Fiber* top_waiter(uint64_t key, Wk wk) {
  Fiber* best = nullptr;
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.st == WAITING && f.wk == wk && f.key == key && (!best || f.enq < best->enq)) best = &f;
  }
  return best;
}

// The kernel looks at the first waiter on the word, whatever it waits for.
static Fiber* first_waiter(uint64_t key) {
  Fiber* best = nullptr;
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.st == WAITING && (f.wk == W_FUTEX || f.wk == W_PI || f.wk == W_REQ) && f.key == key && (!best || f.enq < best->enq)) best = &f;
  }
  return best;
}
static bool mixed(uint64_t key) {
  Fiber* w = first_waiter(key);
  return w && w->wk != W_PI;
}

static int futex_wake(uint64_t key, int n) {
  int woken = 0;
  while (woken < n) {
    // oldest waiter of any kind on this key
    Fiber* best = nullptr;
    for (int i = 1; i < G.nf; i++) {
      Fiber& f = G.f[i];
      if (f.st == WAITING && (f.wk == W_FUTEX || f.wk == W_PI || f.wk == W_REQ) && f.key == key && (!best || f.enq < best->enq)) best = &f;
    }
    if (!best) break;
    if (best->wk != W_FUTEX) return -EINVAL;
    logev("kernel wakes %s", best->name);
    wake(*best, 0, 0);
    woken++;
  }
  return woken;
}

static void pi_handover(uint64_t key, uint32_t* word, bool died) {
  Fiber* t = top_waiter(key, W_PI);
  if (!t) return;
  uint32_t w = *word;
  *word = (w & (died ? FUTEX_OWNER_DIED : 0)) | (died ? FUTEX_OWNER_DIED : 0) | t->tid | FUTEX_WAITERS;
  (*G.pi_owner)[key] = t->id;
  logev("kernel hands mutex to %s", t->name);
  wake(*t, 0, 0);
}

static long k_futex(uint32_t* uaddr, int op, uint32_t val, uint64_t timeout_or_val2, uint32_t* uaddr2, uint32_t val3, int* err) {
  Fiber& f = G.f[G.cur];
  uint64_t key = fkey(uaddr);
  int cmd = op & FUTEX_CMD_MASK;
  uint64_t deadline = 0;
  auto abs_deadline = [&](bool realtime, bool rel) {
    if (!timeout_or_val2) return true;
    if (G.cur) loc_access(L_CLOCK, false, G.cur);
    struct timespec ts = *(struct timespec*)timeout_or_val2;
    if (ts.tv_sec < 0 || ts.tv_nsec < 0 || ts.tv_nsec >= 1000000000L) return false;
    unsigned __int128 ns = (unsigned __int128)ts.tv_sec * 1000000000u + ts.tv_nsec;
    if (ns > UINT64_MAX / 4) ns = UINT64_MAX / 4;
    uint64_t d = (uint64_t)ns;
    if (rel) d += G.clock_ns;
    if (realtime) d = d > G.wall_off ? d - G.wall_off : 0;
    deadline = d ? d : 1;
    return true;
  };
  if ((uint64_t)uaddr & 3) {
    *err = EINVAL;
    return -1;
  }
  bool rt = op & FUTEX_CLOCK_REALTIME;
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      if (cmd == FUTEX_WAIT_BITSET && !val3) { *err = EINVAL; return -1; }
      if (!abs_deadline(rt, cmd == FUTEX_WAIT)) { *err = EINVAL; return -1; }
      if (*uaddr != val) { *err = EAGAIN; return -1; }
      if (deadline && deadline <= G.clock_ns) { *err = ETIMEDOUT; return -1; }
      f.st = WAITING;
      f.wk = W_FUTEX;
      f.key = key;
      f.uaddr = uaddr;
      f.enq = ++G.enq;
      f.deadline = deadline;
      block_cur();
      *err = f.err;
      return f.ret;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
      if (cmd == FUTEX_WAKE_BITSET && !val3) { *err = EINVAL; return -1; }
      int n = futex_wake(key, (int)val);
      if (n > 0) productive();
      if (n < 0) { *err = -n; return -1; }
      return n;
    }
    case FUTEX_LOCK_PI:
    case FUTEX_LOCK_PI2: {
      if (!abs_deadline(cmd == FUTEX_LOCK_PI || rt, false)) { *err = EINVAL; return -1; }
      uint32_t w = *uaddr;
      if ((w & FUTEX_TID_MASK) == (uint32_t)f.tid) { *err = EDEADLK; return -1; }
      if (mixed(key)) { *err = EINVAL; return -1; }
      Fiber* tw = top_waiter(key, W_PI);
      if (!(w & FUTEX_TID_MASK) && !tw) {
        *uaddr = (w & FUTEX_OWNER_DIED) | f.tid;
        productive();
        return 0;
      }
      if (!tw) {
        Fiber* o = by_tid(w & FUTEX_TID_MASK);
        if (!o) { *err = ESRCH; return -1; }
        *uaddr = w | FUTEX_WAITERS;
        (*G.pi_owner)[key] = o->id;
      }
      if (deadline && deadline <= G.clock_ns) { *err = ETIMEDOUT; return -1; }
      f.st = WAITING;
      f.wk = W_PI;
      f.key = key;
      f.uaddr = uaddr;
      f.enq = ++G.enq;
      f.deadline = deadline;
      block_cur();
      *err = f.err;
      return f.ret;
    }
    case FUTEX_TRYLOCK_PI: {
      uint32_t w = *uaddr;
      if ((w & FUTEX_TID_MASK) == (uint32_t)f.tid) { *err = EDEADLK; return -1; }
      if (mixed(key)) { *err = EINVAL; return -1; }
      Fiber* tw = top_waiter(key, W_PI);
      if (!(w & FUTEX_TID_MASK) && !tw) {
        *uaddr = (w & FUTEX_OWNER_DIED) | f.tid;
        productive();
        return 0;
      }
      if (!tw) {
        Fiber* o = by_tid(w & FUTEX_TID_MASK);
        if (!o) { *err = ESRCH; return -1; }
        *uaddr = w | FUTEX_WAITERS;
      }
      *err = EAGAIN;
      return -1;
    }
    case FUTEX_UNLOCK_PI: {
      uint32_t w = *uaddr;
      if ((w & FUTEX_TID_MASK) != (uint32_t)f.tid) { *err = EPERM; return -1; }
      if (mixed(key)) { *err = EINVAL; return -1; }
      productive();
      if (top_waiter(key, W_PI)) pi_handover(key, uaddr, false);
      else *uaddr = 0;
      return 0;
    }
    case FUTEX_WAIT_REQUEUE_PI: {
      if (!abs_deadline(rt, false)) { *err = EINVAL; return -1; }
      if (uaddr == uaddr2) { *err = EINVAL; return -1; }
      if (*uaddr != val) { *err = EAGAIN; return -1; }
      if (deadline && deadline <= G.clock_ns) { *err = ETIMEDOUT; return -1; }
      f.st = WAITING;
      f.wk = W_REQ;
      f.key = key;
      f.key2 = fkey(uaddr2);
      f.uaddr = uaddr;
      f.uaddr2 = uaddr2;
      f.enq = ++G.enq;
      f.deadline = deadline;
      block_cur();
      *err = f.err;
      return f.ret;
    }
    case FUTEX_CMP_REQUEUE_PI: {
      if (val != 1 || uaddr == uaddr2) { *err = EINVAL; return -1; }
      int nr_requeue = (int)timeout_or_val2;
      if (nr_requeue < 0) { *err = EINVAL; return -1; }
      if (*uaddr != val3) { *err = EAGAIN; return -1; }
      uint64_t key2 = fkey(uaddr2);
      int count = 0;
      bool first = true;
      while (count - 1 < nr_requeue) {
        Fiber* w = first_waiter(key);
        if (!w) break;
        if (w->wk != W_REQ) { *err = EINVAL; return -1; }
        if (w->key2 != key2) { *err = EINVAL; return -1; }
        if (mixed(key2)) { *err = EINVAL; return -1; }
        uint32_t word = *uaddr2;
        if ((word & FUTEX_TID_MASK) == (uint32_t)w->tid) { *err = EDEADLK; return -1; }
        Fiber* tw = top_waiter(key2, W_PI);
        if (first && !(word & FUTEX_TID_MASK) && !tw) {
          *uaddr2 = (word & FUTEX_OWNER_DIED) | w->tid | (nr_requeue ? FUTEX_WAITERS : 0);
          (*G.pi_owner)[key2] = w->id;
          logev("kernel gives mutex to waiter %s", w->name);
          wake(*w, 0, 0);
        } else {
          if (!tw) {
            Fiber* o = by_tid(word & FUTEX_TID_MASK);
            if (!o) { *err = ESRCH; return -1; }
            *uaddr2 = word | FUTEX_WAITERS;
            (*G.pi_owner)[key2] = o->id;
          }
          logev("kernel requeues waiter %s onto the mutex", w->name);
          loc_access(L_WAKE + w->id, true, 2000 + G.cur);
          w->wk = W_PI;
          w->key = key2;
          w->uaddr = w->uaddr2;
          w->enq = ++G.enq;
        }
        first = false;
        count++;
        productive();
      }
      return count;
    }
    default:
      die("futex operation %d not modelled", cmd);
  }
}

static void kill_one(Fiber& f) {
  f.st = DEAD;
  f.wk = W_NONE;
  loc_access(L_FIBER + f.id, true, 51);
  // exit: robust list, then priority-inheritance state
  if (f.robust_head) {
    struct rl { rl* next; };
    uint8_t* head = f.robust_head;
    rl* e = *(rl**)head;
    long off = *(long*)(head + 8);
    rl* pend = *(rl**)(head + 16);
    int saved = G.cur;
    G.cur = f.id;  // keys in f's process
    auto death = [&](rl* en, bool pending) {
      uint32_t* u = (uint32_t*)((uint8_t*)((uint64_t)en & ~1ull) + off);
      bool pi = (uint64_t)en & 1;
      uint64_t a = (uint64_t)u;
      if (a >= SH_LO && a < SH_HI ? !live_region(a) : !in_heap(u)) return;  // EFAULT
      uint32_t w = *u;
      uint32_t owner = w & FUTEX_TID_MASK;
      if (pending && !pi && !owner) {
        sysloc(u);
        futex_wake(fkey(u), 1);
        return;
      }
      if (owner != (uint32_t)f.tid) return;
      sysloc(u);
      *u = (w & FUTEX_WAITERS) | FUTEX_OWNER_DIED;
      if (!pi && (w & FUTEX_WAITERS)) futex_wake(fkey(u), 1);
    };
    int limit = 2048;
    while ((uint8_t*)((uint64_t)e & ~1ull) != head && limit-- > 0) {
      uint64_t a = (uint64_t)e & ~1ull;
      bool ok = (a >= SH_LO && a < SH_HI) ? live_region(a) != nullptr : in_heap((void*)a) || (a >= (uint64_t)f.tls && a < (uint64_t)f.tls + TLSSZ);
      if (!ok) break;
      rl* next = *(rl**)a;
      if (e != pend) death(e, false);
      e = next;
    }
    if (pend) death(pend, true);
    G.cur = saved;
  }
  for (auto& kv : *G.pi_owner)
    if (kv.second == f.id) {
      Fiber* t = top_waiter(kv.first, W_PI);
      if (t) {
        uint32_t* word = t->uaddr;
        // only if the word still names the dead owner (or was marked)
        uint32_t tidw = *word & FUTEX_TID_MASK;
        if (tidw == (uint32_t)f.tid || tidw == 0) {
          sysloc(word);
          pi_handover(kv.first, word, true);
        }
      }
    }
}

static void kill_fiber_proc(int fid) {
  int p = G.f[fid].proc;
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.proc == p && f.st != DONE && f.st != DEAD) {
      f.st = DEAD;
    }
  }
  for (int i = 1; i < G.nf; i++) {
    Fiber& f = G.f[i];
    if (f.proc == p && f.st == DEAD && f.wk != (Wk)99) {
      kill_one(f);
      f.wk = (Wk)99;
    }
  }
}

// ---------------------------------------------------------------------------
// exploration driver
// ---------------------------------------------------------------------------
struct Job {
  uint32_t len;
  uint32_t pad;
};
static const size_t JOBMAX = 16384;
static const int NSLOT = 512;
struct ShQ {
  volatile int lock;
  volatile int count;       // queued jobs
  volatile int active;      // workers with work
  volatile int stop;
  volatile int viol;
  int head;
  uint64_t execs, points, choices, maxpoints, pruned;
  size_t vlen;
  char msg[2048];
  char errmsg[256];
};
static ShQ* Q;
static uint8_t* Qslots;  // NSLOT * (sizeof(Job)+JOBMAX*sizeof(Entry))
static const size_t SLOTSZ = sizeof(Job) + JOBMAX * sizeof(Entry);
static Entry* Vtrace;
static const size_t VMAX = 1 << 20;

static void qlock() {
  int spins = 0;
  while (__sync_lock_test_and_set(&Q->lock, 1))
    if (++spins > 100) {
      spins = 0;
      usleep(50);
    }
}
static void qunlock() { __sync_lock_release(&Q->lock); }

static const std::function<void()>* g_body;

static uint8_t* g_segv_stack;
static void on_segv(int sig, siginfo_t* si, void*) {
  char buf[200];
  snprintf(buf, sizeof buf, "memory fault (signal %d) at address %p in %s", sig, si->si_addr, G.cur >= 0 ? G.f[G.cur].name : "?");
  if (!G.active) {
    fprintf(stderr, "CHECK-ERROR: %s outside an execution\n", buf);
    _exit(3);
  }
  G.viol = true;
  G.msg = buf;
  // leave the handler by switching back to the main context
  sigset_t s;
  sigemptyset(&s);
  sigaddset(&s, SIGSEGV);
  sigaddset(&s, SIGBUS);
  sigaddset(&s, SIGABRT);
  sigaddset(&s, SIGFPE);
  sigaddset(&s, SIGILL);
  sigprocmask(SIG_UNBLOCK, &s, nullptr);
  abandon();
}
static void install_handlers() {
  static bool done = false;
  if (!done) {
    g_segv_stack = (uint8_t*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    done = true;
  }
  stack_t ss = {};
  ss.ss_sp = g_segv_stack;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_segv;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

// one execution; returns trace hash
static uint64_t execute(const Config& cfg, const Entry* prefix, size_t plen, bool logging) {
  static std::unordered_map<uint64_t, int> pio;
  pio.clear();
  G.pi_owner = &pio;
  G.cfg = cfg;
  G.bp = cfg.preempt;
  G.bc = cfg.crash;
  G.bt = cfg.ticks;
  G.points = 0;
  G.clock_ns = 1000000000000ull;           // boot clock: 1000 s
  G.wall_off = 1600000000ull * 1000000000ull;  // wall = boot + 1.6e9 s
  G.deadlines.clear();
  G.enq = 0;
  G.oc = 0;
  G.urandom = 0;
  G.prefix = prefix;
  G.plen = plen;
  G.trace.clear();
  G.logging = logging;
  G.viol = false;
  G.pruned = false;
  G.nf = 0;
  globals_restore();
  heap_reset();
  reset_memory();
  Fiber& z = new_fiber(0, "main", 0);
  z.fn = *g_body;
  G.cur = 0;
  G.active = true;
  mc_switch(&G.main_sp, z.sp);
  G.active = false;
  g_untracked = 0;
  if (g_after) g_after();
  if (G.trace.size() < plen && !G.viol && !G.pruned) die("divergence: execution ended before its prefix (%zu < %zu)", G.trace.size(), plen);
  return loc_finish();
}

static std::string describe(const std::vector<Entry>& t) {
  std::string s;
  char b[64];
  for (size_t i = 0; i < t.size(); i++)
    if (t[i].c) {
      int k = t[i].what >> 4, f = t[i].what & 15;
      const char* n = f < G.nf ? G.f[f].name : "?";
      if (k == O_PREEMPT) snprintf(b, sizeof b, "@%zu preempt->%s; ", i, n);
      else if (k == O_KILL) snprintf(b, sizeof b, "@%zu %s dies; ", i, n);
      else if (k == O_TICK) snprintf(b, sizeof b, "@%zu deadline passes; ", i);
      else if (k == O_SWITCH) snprintf(b, sizeof b, "@%zu next->%s; ", i, n);
      else snprintf(b, sizeof b, "@%zu choice %d; ", i, t[i].c);
      s += b;
      if (s.size() > 400) break;
    }
  return s.empty() ? "default schedule" : s;
}

static bool push_job(const Entry* e, size_t len) {
  if (len > JOBMAX) return false;
  qlock();
  if (Q->count >= NSLOT) {
    qunlock();
    return false;
  }
  int slot = Q->count++;
  uint8_t* p = Qslots + slot * SLOTSZ;
  ((Job*)p)->len = len;
  memcpy(p + sizeof(Job), e, len * sizeof(Entry));
  qunlock();
  return true;
}
static bool pop_job(std::vector<Entry>* out) {
  while (true) {
    qlock();
    if (Q->stop) {
      qunlock();
      return false;
    }
    if (Q->count > 0) {
      int slot = --Q->count;
      uint8_t* p = Qslots + slot * SLOTSZ;
      Job* j = (Job*)p;
      out->assign((Entry*)(p + sizeof(Job)), (Entry*)(p + sizeof(Job)) + j->len);
      Q->active++;
      qunlock();
      return true;
    }
    if (Q->active == 0) {
      qunlock();
      return false;
    }
    qunlock();
    usleep(200);
  }
}

static void worker(const Config& cfg, int w, const std::string& tmp) {
  std::unordered_set<uint64_t> traces, outcomes;
  traces.reserve(1 << 16);
  std::vector<std::string> samples;
  uint64_t execs = 0, points = 0, choices = 0, maxp = 0, pruned = 0;
  std::vector<Entry> job;
  privatize_memory();
  install_handlers();
  while (pop_job(&job)) {
    size_t base = job.size();
    std::vector<Entry> prefix = job;
    while (true) {
      if (Q->stop) break;
      uint64_t h = execute(cfg, prefix.data(), prefix.size(), false);
      execs++;
      points += G.points;
      choices += G.trace.size();
      if ((uint64_t)G.points > maxp) maxp = G.points;
      if (G.pruned) {
        pruned++;
      } else {
        traces.insert(h);
        outcomes.insert(G.oc);
      }
      if (samples.size() < 2 && (execs == 1 || execs == 50)) samples.push_back(describe(G.trace));
      if (G.viol) {
        qlock();
        if (!Q->viol) {
          Q->viol = 1;
          Q->stop = 1;
          snprintf(Q->msg, sizeof Q->msg, "%s", G.msg.c_str());
          Q->vlen = std::min(G.trace.size(), VMAX);
          memcpy(Vtrace, G.trace.data(), Q->vlen * sizeof(Entry));
        }
        qunlock();
        break;
      }
      std::vector<Entry>& t = G.trace;
      // donate work if others are hungry
      if (Q->count < g_workers) {
        size_t i = base;
        while (i < t.size() && t[i].c + 1 >= t[i].n) i++;
        if (i < t.size() && i + 1 <= JOBMAX) {
          std::vector<Entry> p(t.begin(), t.begin() + i + 1);
          bool all = true;
          int c0 = t[i].c;
          for (int c = c0 + 1; c < t[i].n; c++) {
            p[i].c = c;
            if (!push_job(p.data(), p.size())) {
              all = false;
              // keep the rest for ourselves
              t[i].c = c - 1;
              break;
            }
          }
          if (all) {
            base = i + 1;
          } else {
            // continue from alternative t[i].c+1 after finishing the subtree of c0:
            // simplest is to finish it now by not moving base; restore c0 and
            // remember the skipped ones.
            // (only happens when the queue is full)
            int given = t[i].c;
            t[i].c = c0;
            if (given > c0) {
              // some were given away: push cannot be undone, so explore the
              // subtree of c0 first with base i+1, then the rest as own jobs
              // -> spin until the queue has room.
              for (int c = given + 1; c < t[i].n; c++) {
                p[i].c = c;
                while (!push_job(p.data(), p.size()) && !Q->stop) usleep(500);
              }
              base = i + 1;
            }
          }
        }
      }
      // backtrack
      size_t i = t.size();
      while (i > base && t[i - 1].c + 1 >= t[i - 1].n) i--;
      if (i == base) break;
      prefix.assign(t.begin(), t.begin() + i);
      prefix[i - 1].c++;
    }
    qlock();
    Q->active--;
    qunlock();
  }
  qlock();
  Q->execs += execs;
  Q->points += points;
  Q->choices += choices;
  Q->pruned += pruned;
  if (maxp > Q->maxpoints) Q->maxpoints = maxp;
  qunlock();
  std::string fn = tmp + "." + std::to_string(w);
  FILE* fo = fopen(fn.c_str(), "wb");
  if (!fo) die("cannot write %s", fn.c_str());
  uint64_t n = traces.size(), m = outcomes.size();
  fwrite(&n, 8, 1, fo);
  for (uint64_t x : traces) fwrite(&x, 8, 1, fo);
  fwrite(&m, 8, 1, fo);
  for (uint64_t x : outcomes) fwrite(&x, 8, 1, fo);
  for (auto& s : samples) fprintf(fo, "%s\n", s.c_str());
  fclose(fo);
  fflush(stdout);
  _exit(0);
}

static void global_init() {
  static bool done = false;
  if (done) return;
  done = true;
  heap_init();
  globals_save();
  install_handlers();
  Q = (ShQ*)mmap(nullptr, sizeof(ShQ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Qslots = (uint8_t*)mmap(nullptr, NSLOT * SLOTSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Vtrace = (Entry*)mmap(nullptr, VMAX * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_vis_n = 1ull << 27;
  g_vis = (uint64_t*)mmap(nullptr, g_vis_n * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_vis == MAP_FAILED) die("state table");
  for (int i = 0; i < MAXF; i++) alloc_fiber(G.f[i]);
  if (!g_workers) {
    g_workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (const char* e = getenv("MC_WORKERS")) g_workers = atoi(e);
    if (g_workers < 1) g_workers = 1;
    if (g_workers > 16) g_workers = 16;
  }
}

static std::string out_dir() {
  const char* e = getenv("VERIF_OUT");
  std::string d = e ? e : "/verif/out";
  mkdir(d.c_str(), 0755);
  return d;
}

Stats explore(const std::string& scenario, const Config& cfg, const std::function<void()>& body) {
  global_init();
  g_body = &body;
  Stats s;
  memset((void*)Q, 0, sizeof *Q);
  if (cfg.cache) {
    madvise(g_vis, g_vis_n * 8, MADV_REMOVE);
    g_vis[0] = 0;
  }
  push_job(nullptr, 0);
  std::string tmp = out_dir() + "/w." + std::to_string(getpid());
  std::vector<pid_t> pids;
  fflush(stdout);
  fflush(stderr);
  for (int w = 0; w < g_workers; w++) {
    pid_t p = fork();
    if (p == 0) worker(cfg, w, tmp);
    if (p < 0) die("fork");
    pids.push_back(p);
  }
  bool bad = false;
  for (size_t i = 0; i < pids.size(); i++) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    (void)p;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      bad = true;
      Q->stop = 1;
      qunlock();
    }
  }
  if (bad) {
    s.error = true;
    s.message = "a worker process failed";
  }
  std::unordered_set<uint64_t> tr, oc;
  for (int w = 0; w < g_workers; w++) {
    std::string fn = tmp + "." + std::to_string(w);
    FILE* fi = fopen(fn.c_str(), "rb");
    if (!fi) continue;
    uint64_t n = 0, x;
    if (fread(&n, 8, 1, fi) == 1)
      for (uint64_t i = 0; i < n; i++)
        if (fread(&x, 8, 1, fi) == 1) tr.insert(x);
    if (fread(&n, 8, 1, fi) == 1)
      for (uint64_t i = 0; i < n; i++)
        if (fread(&x, 8, 1, fi) == 1) oc.insert(x);
    char line[1024];
    while (fgets(line, sizeof line, fi)) {
      line[strcspn(line, "\n")] = 0;
      if (s.samples.size() < 4) s.samples.push_back(line);
    }
    fclose(fi);
    unlink(fn.c_str());
  }
  s.execs = Q->execs;
  s.points = Q->points;
  s.choices = Q->choices;
  s.pruned = Q->pruned;
  s.maxpoints = Q->maxpoints;
  s.traces = tr.size();
  s.outcomes = oc.size();
  if (Q->viol) {
    s.violated = true;
    s.message = Q->msg;
    std::vector<Entry> vt(Vtrace, Vtrace + Q->vlen);
    // replay twice in fresh processes before believing it
    for (int k = 0; k < 2; k++) {
      memset(Q->errmsg, 0, sizeof Q->errmsg);
      pid_t p = fork();
      if (p == 0) {
        install_handlers();
        execute(cfg, vt.data(), vt.size(), false);
        if (!G.viol) _exit(9);
        if (G.msg != s.message) {
          fprintf(stderr, "replay message differs: %s / %s\n", G.msg.c_str(), s.message.c_str());
          _exit(8);
        }
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        s.error = true;
        s.message = "violation did not replay: " + s.message;
      }
    }
    std::string rp = out_dir() + "/replay-" + scenario + ".txt";
    FILE* fo = fopen(rp.c_str(), "w");
    if (fo) {
      fprintf(fo, "scenario %s\nmessage %s\nchoices %zu\n", scenario.c_str(), s.message.c_str(), vt.size());
      for (auto& e : vt) fprintf(fo, "%d %d %d %08x\n", e.n, e.c, e.what, e.sig);
      fclose(fo);
    }
    s.replay = rp;
  }
  return s;
}

int replay(const std::string& file, const std::string& scenario, const Config& cfg, const std::function<void()>& body) {
  global_init();
  g_body = &body;
  FILE* f = fopen(file.c_str(), "r");
  if (!f) die("cannot open %s", file.c_str());
  char line[4096];
  std::vector<Entry> vt;
  std::string scen;
  while (fgets(line, sizeof line, f)) {
    int n, c, w;
    unsigned sig;
    char nm[256];
    if (sscanf(line, "scenario %255s", nm) == 1) scen = nm;
    else if (sscanf(line, "%d %d %d %x", &n, &c, &w, &sig) == 4) vt.push_back({(uint8_t)n, (uint8_t)c, (uint8_t)w, 0, sig});
  }
  fclose(f);
  if (scen != scenario) return -1;
  execute(cfg, vt.data(), vt.size(), true);
  if (G.viol) {
    printf("%s\n", G.msg.c_str());
    return 1;
  }
  printf("no violation on this schedule\n");
  return 0;
}

// ---------------------------------------------------------------------------
// instrumentation entry points
// ---------------------------------------------------------------------------
static inline bool several_threads() {
  int n = 0, pr = G.f[G.cur].proc;
  for (int i = 1; i < G.nf; i++) n += G.f[i].proc == pr && G.f[i].st != DONE;
  return n > 1;
}
static inline void acc(const void* p, size_t sz, bool wr, int kind) {
  uint64_t a = (uint64_t)p;
  if (!G.active || g_untracked) return;
  if (a >= SH_LO && a < SH_HI) {
    const Region* r = find_region(a);
    if (!r || a + sz > r->hi) fail("access of %zu bytes outside any object (%s, %ld bytes past the start of the last one) in %s", sz, wr ? "write" : "read", r ? (long)(a - r->lo) : -1L, G.f[G.cur].name);
    if (r->gone) fail("%s of a file that has been closed in %s", wr ? "write" : "read", G.f[G.cur].name);
    if (G.cur == 0) return;
    uint64_t loc = ((uint64_t)(r->obj + 1) << 32) | ((a - r->lo) >> 3);
    bool pt = true;
    if (r->handle) {
      // used by one process only: private while that process has one thread
      pt = several_threads();
    }
    if (pt) {
      if ((G.cfg.plain && (G.cfg.shared || r->handle)) || kind == 'a' || kind == 'l') sched_point(kind, loc);
      else if (wr && G.bc > 0) sched_point('t', loc);
      if (r->gone) fail("%s of a file that has been closed in %s", wr ? "write" : "read", G.f[G.cur].name);
    }
    if (G.logging && !G.f[G.cur].silent) logev("%s%zu object %d + %lu", kindname(kind), sz, r->obj, a - r->lo);
    loc_access(loc, wr, G.cur);
    if (sz > 8)
      for (uint64_t k = 8; k < sz; k += 8) loc_access(loc + k / 8, wr, G.cur);
    if (wr) productive();
    return;
  }
  if (in_heap(p)) {
    size_t off = a - HP_LO;
    size_t e = off + sz - 1;
    size_t g0 = off / 16, g1 = e / 16;
    bool ok = g_shadow[g1] > (e & 15) && g_shadow[g0] != 0;
    if (!ok) fail("%s of %zu bytes of heap memory that is not allocated (overflow or use after free) in %s", wr ? "write" : "read", sz, G.f[G.cur].name);
  }
  if (G.cur == 0) return;
  if (wr && G.bc > 0) {
    Fiber& f = G.f[G.cur];
    if (a >= (uint64_t)f.tls && a < (uint64_t)f.tls + TLSSZ) sched_point('t', a - (uint64_t)f.tls);
  }
  if (G.cfg.heap && (in_heap(p) || (a >= (uint64_t)__start_mcdata && a < (uint64_t)__stop_mcdata) || (a >= (uint64_t)__start_mcbss && a < (uint64_t)__stop_mcbss)) && several_threads()) {
    sched_point(kind, a >> 3);
    if (G.logging && !G.f[G.cur].silent) logev("%s%zu %s + %lu", kindname(kind), sz, in_heap(p) ? "heap" : "globals", a & 0xffffff);
    if (in_heap(p)) {
      // freed meanwhile?
      size_t e = a - HP_LO + sz - 1;
      if (!(g_shadow[e / 16] > (e & 15))) fail("%s of %zu bytes of heap memory that is not allocated (use after free) in %s", wr ? "write" : "read", sz, G.f[G.cur].name);
    }
  }
  // other memory: part of the trace
  loc_access(a >> 3, wr, G.cur);
  for (uint64_t k = 8; k < sz; k += 8) loc_access((a + k) >> 3, wr, G.cur);
}
}  // namespace mc

using namespace mc;

#define EX extern "C" __attribute__((visibility("default"), used))

EX void __tsan_init() {}
EX void __tsan_func_entry(void*) {}
EX void __tsan_func_exit() {}
#define RW(N) \
  EX void __tsan_read##N(void* p) { acc(p, N, false, 'r'); } \
  EX void __tsan_write##N(void* p) { acc(p, N, true, 'w'); } \
  EX void __tsan_unaligned_read##N(void* p) { acc(p, N, false, 'r'); } \
  EX void __tsan_unaligned_write##N(void* p) { acc(p, N, true, 'w'); } \
  EX void __tsan_read_write##N(void* p) { acc(p, N, false, 'r'); acc(p, N, true, 'w'); } \
  EX void __tsan_unaligned_read_write##N(void* p) { acc(p, N, false, 'r'); acc(p, N, true, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, 'w'); }
EX void __tsan_vptr_read(void** p) { acc(p, 8, false, 'r'); }
EX void __tsan_read_range(void* p, long n) { if (n) acc(p, n, false, 'r'); }
EX void __tsan_write_range(void* p, long n) { if (n) acc(p, n, true, 'w'); }

static inline bool is_special(const void* p) {
  uint64_t a = (uint64_t)p;
  return (a >= SH_LO && a < SH_HI) || in_heap(p);
}
static inline bool is_shared(const void* p) {
  uint64_t a = (uint64_t)p;
  return (a >= SH_LO && a < SH_HI);
}
// Copies touch shared memory in pieces: the destination (crash points) and the
// source are visited 8 bytes at a time.
EX void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (!n) return d;
  if (G.active && (is_special(d) || is_special(s))) {
    if (is_special(d) && !is_shared(d)) acc(d, n, true, 'w');
    if (is_special(s) && !is_shared(s)) acc(s, n, false, 'r');
    if (is_shared(d) || is_shared(s)) {
      for (size_t i = 0; i < n;) {
        size_t c = 8 - (((uint64_t)d + i) & 7);
        if (c > n - i) c = n - i;
        if (is_shared(s)) acc((char*)s + i, c, false, 'r');
        if (is_shared(d)) acc((char*)d + i, c, true, 'w');
        memcpy((char*)d + i, (char*)s + i, c);
        i += c;
      }
      return d;
    }
  }
  return memcpy(d, s, n);
}
EX void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (!n) return d;
  if (G.active && (is_shared(d) || is_shared(s))) {
    if (!((char*)d < (char*)s + n && (char*)s < (char*)d + n)) return __tsan_memcpy(d, s, n);
  }
  if (G.active) {
    if (is_special(s)) acc(s, n, false, 'r');
    if (is_special(d)) acc(d, n, true, 'w');
  }
  return memmove(d, s, n);
}
EX void* __tsan_memset(void* d, int v, size_t n) {
  if (!n) return d;
  if (G.active && is_shared(d)) {
    for (size_t i = 0; i < n;) {
      size_t c = 8 - (((uint64_t)d + i) & 7);
      if (c > n - i) c = n - i;
      acc((char*)d + i, c, true, 'w');
      memset((char*)d + i, v, c);
      i += c;
    }
    return d;
  }
  if (G.active && is_special(d)) acc(d, n, true, 'w');
  return memset(d, v, n);
}

#define ATOM(B, T) \
  EX T __tsan_atomic##B##_load(const volatile T* p, int) { acc((void*)p, sizeof(T), false, 'l'); return *p; } \
  EX void __tsan_atomic##B##_store(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); *p = v; } \
  EX T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = v; return o; } \
  EX T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = o + v; return o; } \
  EX T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = o - v; return o; } \
  EX T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = o & v; return o; } \
  EX T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = o | v; return o; } \
  EX T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = o ^ v; return o; } \
  EX T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { acc((void*)p, sizeof(T), true, 'a'); T o = *p; *p = ~(o & v); return o; } \
  EX int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { \
    acc((void*)p, sizeof(T), true, 'a'); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  EX int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
  EX T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { \
    acc((void*)p, sizeof(T), true, 'a'); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EX void __tsan_atomic_thread_fence(int) {}
EX void __tsan_atomic_signal_fence(int) {}
EX void AnnotateHappensBefore(const char*, int, void*) {}
EX void AnnotateHappensAfter(const char*, int, void*) {}
EX void __tsan_mutex_create(void*, unsigned) {}
EX void __tsan_mutex_destroy(void*, unsigned) {}
EX void __tsan_mutex_pre_lock(void*, unsigned) {}
EX void __tsan_mutex_post_lock(void*, unsigned, int) {}
EX int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
EX void __tsan_mutex_post_unlock(void*, unsigned) {}
EX void __tsan_mutex_pre_signal(void*, unsigned) {}
EX void __tsan_mutex_post_signal(void*, unsigned) {}
EX void __tsan_mutex_pre_divert(void*, unsigned) {}
EX void __tsan_mutex_post_divert(void*, unsigned) {}

// per-fiber thread-local storage
struct emutls_object {
  size_t size, align;
  void* loc;
  void* templ;
};
EX void* __emutls_get_address(emutls_object* o) {
  int k = 0;
  while (k < g_ntlskeys && g_tlskeys[k] != o) k++;
  if (k == g_ntlskeys) {
    if (k == MAXTLS) die("too many thread-local variables");
    g_tlskeys[g_ntlskeys++] = o;
  }
  Fiber& f = G.f[G.active ? G.cur : 0];
  if (!f.tlsptr[k]) {
    if (!f.tls) f.tls = (uint8_t*)aligned_alloc(64, TLSSZ);
    size_t al = o->align < 16 ? 16 : o->align;
    f.tls_used = (f.tls_used + al - 1) / al * al;
    if (f.tls_used + o->size > TLSSZ) die("thread-local storage exhausted");
    f.tlsptr[k] = f.tls + f.tls_used;
    f.tls_used += o->size;
    if (o->templ) memcpy(f.tlsptr[k], o->templ, o->size);
    else memset(f.tlsptr[k], 0, o->size);
  }
  return f.tlsptr[k];
}

// ---------------------------------------------------------------------------
// redirected libc calls
// ---------------------------------------------------------------------------
static const int URFD = 1000000;
EX long mc_read(int fd, void* b, size_t n);
EX long mc_syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (!G.active) die("library system call outside an execution");
  switch (n) {
    case SYS_gettid:
      return G.f[G.cur].tid;
    case SYS_getpid:
      return 5000 + G.f[G.cur].proc;
    case SYS_set_robust_list:
      G.f[G.cur].robust_head = (uint8_t*)a;
      return 0;
    case SYS_get_robust_list:
      *(void**)b = G.f[G.cur].robust_head;
      *(size_t*)c = 24;
      return 0;
    case SYS_getrandom:
      mc_read(URFD, (void*)a, (size_t)b);
      return b;
    case SYS_sched_yield:
      if (G.cur) { sched_point('s', 0); dispatch(true); }
      return 0;
    case SYS_futex: {
      sched_point('s', 0);
      sysloc((void*)a);
      static const char* nm[] = {"WAIT", "WAKE", "FD", "REQUEUE", "CMP_REQUEUE", "WAKE_OP", "LOCK_PI", "UNLOCK_PI", "TRYLOCK_PI", "WAIT_BITSET", "WAKE_BITSET", "WAIT_REQUEUE_PI", "CMP_REQUEUE_PI", "LOCK_PI2"};
      int cmd = (int)b & FUTEX_CMD_MASK;
      logev("futex %s val=%ld word=%08x", cmd < 14 ? nm[cmd] : "?", c, *(uint32_t*)a);
      if (cmd == FUTEX_CMP_REQUEUE_PI || cmd == FUTEX_WAIT_REQUEUE_PI) sysloc((void*)e);
      int err = 0;
      int me = G.cur;
      long r = k_futex((uint32_t*)a, (int)b, (uint32_t)c, (uint64_t)d, (uint32_t*)e, (uint32_t)f, &err);
      if (G.cur != me) die("internal: fiber mismatch");
      if (r == -1) errno = err;
      logev("futex -> %ld%s%s", r, r == -1 ? " " : "", r == -1 ? strerror(err) : "");
      return r;
    }
    default:
      die("system call %ld not modelled", n);
  }
}
EX int mc_gettid() { return (int)mc_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0); }
EX int mc_getpid() { return (int)mc_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EX int mc_clock_gettime(clockid_t clk, struct timespec* ts) {
  if (!G.active) return clock_gettime(clk, ts);
  if (G.cfg.clock_step) {
    if (G.cur) sched_point('s', 0);
    G.clock_ns += G.cfg.clock_step;
    expire();
  }
  if (G.cur) loc_access(L_CLOCK, G.cfg.clock_step != 0, G.cur);
  uint64_t ns = G.clock_ns;
  if (clk == CLOCK_REALTIME) ns += G.wall_off;
  if (clk == CLOCK_MONOTONIC) ns -= 0;  // no suspend: same as boot time
  ts->tv_sec = ns / 1000000000ull;
  ts->tv_nsec = ns % 1000000000ull;
  return 0;
}
EX int mc_sched_yield() { return (int)mc_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static int sleep_ns(uint64_t ns) {
  if (G.cur == 0) return 0;
  sched_point('s', 0);
  loc_access(L_CLOCK, false, G.cur);
  Fiber& f = G.f[G.cur];
  f.st = WAITING;
  f.wk = W_SLEEP;
  f.deadline = G.clock_ns + (ns ? ns : 1);
  block_cur();
  return 0;
}
EX int mc_nanosleep(const struct timespec* t, struct timespec*) { return sleep_ns(t->tv_sec * 1000000000ull + t->tv_nsec); }
EX int mc_usleep(unsigned us) { return sleep_ns(us * 1000ull); }

EX int mc_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (G.cur) sched_point('s', 0);
  char nm[32];
  snprintf(nm, sizeof nm, "%.20s/thr%d", G.f[G.cur].name, G.nf);
  Fiber& f = new_fiber(G.f[G.cur].proc, nm, G.f[G.cur].flags & KILLABLE);
  if (G.cur) loc_access(L_THREADS, true, G.cur);
  f.pfn = fn;
  f.parg = arg;
  *t = (pthread_t)f.id;
  logev("creates thread %s", nm);
  return 0;
}
EX int mc_pthread_join(pthread_t t, void** r) {
  int id = (int)t;
  if (id <= 0 || id >= G.nf) return ESRCH;
  if (id == G.cur) return EDEADLK;
  if (G.cur == 0) {
    if (G.f[id].st != DONE && G.f[id].st != DEAD) {
      // fiber 0 may close things after run(): let the others go on
      run();
      if (G.f[id].st != DONE) fail("blocked forever: main (thread join)");
    }
  } else {
    sched_point('s', 0);
    see(id);
    Fiber& f = G.f[G.cur];
    if (G.f[id].st != DONE) {
      f.st = WAITING;
      f.wk = W_JOIN;
      f.joinee = id;
      block_cur();
    }
  }
  if (r) *r = G.f[id].pret;
  return 0;
}
EX int mc_pthread_detach(pthread_t) { return 0; }
EX pthread_t mc_pthread_self() { return (pthread_t)G.cur; }
EX int mc_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
EX int mc_pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!*o) {
    *o = 1;
    fn();
  }
  return 0;
}
EX int mc_pthread_atfork(void (*)(), void (*)(), void (*)()) { return 0; }

// plain pthread mutexes and condition variables: state kept in the object
struct PM { int owner_p1; };
struct PC { int seq; };
EX int mc_pthread_mutex_init(pthread_mutex_t* m, const void*) { memset(m, 0, sizeof *m); return 0; }
EX int mc_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static void pm_take(PM* m) {
  if (m->owner_p1 && G.cur == 0) {
    run();
    if (m->owner_p1) fail("blocked forever: main (pthread mutex)");
  }
  while (m->owner_p1) {
    Fiber& f = G.f[G.cur];
    f.st = WAITING;
    f.wk = W_PMTX;
    f.pobj = m;
    block_cur();
  }
  m->owner_p1 = G.cur + 1;
}
EX int mc_pthread_mutex_lock(pthread_mutex_t* mm) {
  sched_point('s', 0);
  sysloc(mm);
  pm_take((PM*)mm);
  return 0;
}
EX int mc_pthread_mutex_trylock(pthread_mutex_t* mm) {
  sched_point('s', 0);
  sysloc(mm);
  PM* m = (PM*)mm;
  if (m->owner_p1) return EBUSY;
  m->owner_p1 = G.cur + 1;
  return 0;
}
EX int mc_pthread_mutex_unlock(pthread_mutex_t* mm) {
  sched_point('s', 0);
  sysloc(mm);
  ((PM*)mm)->owner_p1 = 0;
  productive();
  for (int i = 1; i < G.nf; i++)
    if (G.f[i].st == WAITING && G.f[i].wk == W_PMTX && G.f[i].pobj == mm) wake(G.f[i], 0, 0);
  return 0;
}
EX int mc_pthread_cond_init(pthread_cond_t* c, const void*) { memset(c, 0, sizeof *c); return 0; }
EX int mc_pthread_cond_destroy(pthread_cond_t*) { return 0; }
EX int mc_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  mc_pthread_mutex_unlock(m);
  sysloc(c);
  Fiber& f = G.f[G.cur];
  if (G.cur == 0) die("cond wait in fiber 0");
  f.st = WAITING;
  f.wk = W_PCND;
  f.pobj = c;
  f.enq = ++G.enq;
  block_cur();
  pm_take((PM*)m);
  return 0;
}
static int pc_wake(void* c, bool all) {
  sched_point('s', 0);
  sysloc(c);
  while (true) {
    Fiber* b = nullptr;
    for (int i = 1; i < G.nf; i++)
      if (G.f[i].st == WAITING && G.f[i].wk == W_PCND && G.f[i].pobj == c && (!b || G.f[i].enq < b->enq)) b = &G.f[i];
    if (!b) break;
    wake(*b, 0, 0);
    if (!all) break;
  }
  return 0;
}
EX int mc_pthread_cond_signal(pthread_cond_t* c) { return pc_wake(c, false); }
EX int mc_pthread_cond_broadcast(pthread_cond_t* c) { return pc_wake(c, true); }

// heap with exact bounds; memory is never reused within an execution
EX void* mc_malloc(size_t n) {
  if (!G.active) return malloc(n);
  size_t sz = ((n + 15) & ~15ull) + 32;
  size_t& used = g_heap_used[G.cur];
  if (n > HP_ARSZ || used + sz + 32 > HP_ARSZ) return nullptr;
  uint8_t* p = g_heap + G.cur * HP_ARSZ + used + 16;
  *(size_t*)(p - 16) = n;
  used += sz;
  memset(p, 0xA5, n);
  heap_mark(p, n);
  return p;
}
EX void mc_free(void* q) {
  if (!q) return;
  if (!in_heap(q)) {
    if (G.active && is_shared(q)) fail("free of memory that was not allocated");
    free(q);
    return;
  }
  uint8_t* p = (uint8_t*)q;
  size_t n = *(size_t*)(p - 16);
  size_t g = (p - g_heap) / 16;
  if (n && !g_shadow[g]) fail("double free in %s", G.f[G.cur].name);
  memset(g_shadow + g, 0, (n + 15) / 16);
  memset(p, 0xDD, n);
}
EX void* mc_calloc(size_t a, size_t b) {
  void* p = mc_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
EX void* mc_realloc(void* q, size_t n) {
  if (q && !in_heap(q)) return realloc(q, n);
  void* p = mc_malloc(n);
  if (!p) return nullptr;
  if (q) {
    size_t o = *(size_t*)((uint8_t*)q - 16);
    memcpy(p, q, o < n ? o : n);
    mc_free(q);
  }
  return p;
}
EX char* mc_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)mc_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

// /dev/urandom stand-in: a counter, so every read is different
EX int mc_open(const char* path, int flags, int mode) {
  if (G.active && !strcmp(path, "/dev/urandom")) return URFD;
  return open(path, flags, mode);
}
EX long mc_read(int fd, void* b, size_t n) {
  if (fd != URFD) return read(fd, b, n);
  if (G.cur) loc_access(L_RANDOM, true, G.cur);
  for (size_t i = 0; i < n; i++) {
    if (i % 6 == 0) G.urandom++;
    ((uint8_t*)b)[i] = (uint8_t)(mix(G.urandom, 77) >> (8 * (i % 6)));
  }
  return n;
}
EX int mc_close(int fd) { return fd == URFD ? 0 : close(fd); }
EX long mc_getrandom(void* b, size_t n, unsigned) { return mc_read(URFD, b, n); }
EX int mc_getentropy(void* b, size_t n) { mc_read(URFD, b, n); return 0; }

// the libc generators: plain accesses to the caller's state
static long gen48(unsigned short x[3], int bits) {
  acc(x, 6, false, 'r');
  unsigned short y[3] = {x[0], x[1], x[2]};
  long v = bits == 32 ? jrand48(y) : nrand48(y);
  acc(x, 6, true, 'w');
  memcpy(x, y, 6);
  return v;
}
EX long mc_jrand48(unsigned short x[3]) { return gen48(x, 32); }
EX long mc_nrand48(unsigned short x[3]) { return gen48(x, 31); }
static unsigned short g_48[3];
EX long mc_mrand48() { return gen48(g_48, 32); }
EX long mc_lrand48() { return gen48(g_48, 31); }
EX void mc_srand48(long s) {
  g_48[0] = 0x330e;
  g_48[1] = s;
  g_48[2] = s >> 16;
}
EX int mc_rand() { return (int)gen48(g_48, 31); }
EX long mc_random() { return gen48(g_48, 31); }
EX void mc_srand(unsigned s) { mc_srand48(s); }
EX void mc_srandom(unsigned s) { mc_srand48(s); }
EX int mc_rand_r(unsigned* s) {
  acc(s, 4, false, 'r');
  unsigned v = *s;
  int r = rand_r(&v);
  acc(s, 4, true, 'w');
  *s = v;
  return r;
}
EX time_t mc_time(time_t* t) {
  struct timespec ts;
  mc_clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
