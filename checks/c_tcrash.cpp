// Transport: death after every single instruction of every operation, as compiled for production.
#include "tmodel.h"

#include <sys/syscall.h>
#include <ucontext.h>
using namespace tmod;

static const size_t H = 144;  // only to pick interesting arena sizes

// ---- single stepping ----------------------------------------------------------------
struct Snap {
  int phase;
  bool torn;
  std::vector<uint8_t> a;
};
static uint8_t* g_arena;
static size_t g_n;
static uint8_t g_last[8192];
static volatile int g_phase;
static uint64_t g_steps;
static const size_t MAXSNAP = 4000;
static uint8_t* g_pool;  // MAXSNAP snapshots: the arena after each changing instruction
static int g_pphase[MAXSNAP];
static volatile size_t g_snaps;

static void on_trap(int, siginfo_t*, void*) {
  g_steps++;
  if (!memcmp(g_arena, g_last, g_n)) return;
  if (g_snaps < MAXSNAP) {
    memcpy(g_pool + g_snaps * 8192, g_arena, g_n);
    g_pphase[g_snaps++] = g_phase;
  }
  memcpy(g_last, g_arena, g_n);
}
static inline __attribute__((always_inline)) void tf_on() { asm volatile("sub $128, %%rsp; pushfq; orq $0x100, (%%rsp); popfq; add $128, %%rsp" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void tf_off() { asm volatile("sub $128, %%rsp; pushfq; andq $~0x100, (%%rsp); popfq; add $128, %%rsp" ::: "memory", "cc"); }

static void step_begin(Arena& ar) {
  static bool init = false;
  if (!init) {
    init = true;
    struct sigaction sa = {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
    g_pool = (uint8_t*)mmap(nullptr, MAXSNAP * 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  if (ar.size > 8192) die("arena too large to step");
  g_arena = ar.data;
  g_n = ar.size;
  memcpy(g_last, ar.data, ar.size);
  g_snaps = 0;
}
static void point(int phase) {  // a state in between calls
  memcpy(g_pool + g_snaps * 8192, g_arena, g_n);
  g_pphase[g_snaps++] = phase;
  memcpy(g_last, g_arena, g_n);
}

// The places in the arena that hold the owner's thread id while it is locked.
static std::vector<size_t> g_owner;
static int mytid() { return (int)syscall(SYS_gettid); }
static void calibrate() {
  Arena a(4096);
  a0_transport_t t;
  if (a0_transport_init(&t, a.a0(A0_ARENA_MODE_SHARED))) die("calibrate");
  std::vector<uint8_t> free_(a.data, a.data + a.size);
  a0_transport_locked_t lk;
  if (a0_transport_lock(&t, &lk)) die("calibrate");
  for (size_t o = 0; o + 4 <= a.size; o += 4) {
    uint32_t was, is;
    memcpy(&was, &free_[o], 4);
    memcpy(&is, a.data + o, 4);
    if (was != is && (int)(is & 0x3fffffff) == mytid()) g_owner.push_back(o);
  }
  a0_transport_unlock(lk);
  if (g_owner.empty()) die("cannot find the lock word");
}
// what the kernel does to the locks of a dead process
static void bury(uint8_t* a) {
  for (size_t o : g_owner) {
    uint32_t w;
    memcpy(&w, a + o, 4);
    if ((int)(w & 0x3fffffff) != mytid()) continue;
    w = (w & 0x80000000u) | 0x40000000u;
    memcpy(a + o, &w, 4);
  }
}

// ---- one operation, stepped -----------------------------------------------------------
enum { LOCK, WORK, COMMIT, DONE };
static void stepped(Sys& s, Op o) {
  step_begin(s.ar);
  a0_transport_locked_t lk;
  a0_transport_frame_t* p = nullptr;
  a0_transport_t* t = &s.w;
  g_phase = LOCK;
  tf_on();
  a0_transport_lock(t, &lk);
  tf_off();
  g_phase = WORK;
  auto one = [&](size_t size, uint64_t seq) {
    tf_on();
    a0_transport_alloc(lk, size, &p);
    tf_off();
    for (size_t k = 0; k < size; k++) {
      p->data[k] = byte_of(seq, k);
      if (k == 0 || k == size / 2) point(WORK);
    }
    point(WORK);
  };
  switch (o.k) {
    case 'W':
    case 'A':
      one(o.a, s.m.high + 1);
      break;
    case 'D':
      one(o.a, s.m.high + 1);
      one(o.b, s.m.high + 2);
      break;
    case 'C':
      g_phase = COMMIT;
      tf_on();
      a0_transport_clear(lk);
      tf_off();
      break;
    case 'Z':
      tf_on();
      a0_transport_resize(lk, o.a);
      tf_off();
      break;
  }
  if (o.k == 'W' || o.k == 'D') {
    g_phase = COMMIT;
    tf_on();
    a0_transport_commit(lk);
    tf_off();
  }
  g_phase = DONE;
  point(DONE);
  tf_on();
  a0_transport_unlock(lk);
  tf_off();
  point(DONE);
}

// ---- what the next user sees ------------------------------------------------------------
struct Seen {
  bool empty = true;
  uint64_t lo = 0, hi = 0;
  std::vector<Fr> fr;
  bool same(const Model& m) const {
    if (hi != m.high || empty != m.live.empty() || fr.size() != m.live.size()) return false;
    for (size_t i = 0; i < fr.size(); i++)
      if (fr[i].seq != m.live[i].seq || fr[i].size != m.live[i].size || fr[i].off != m.live[i].off) return false;
    return true;
  }
  std::string str() const {
    std::string s = fmt("newest %lu, frames", (unsigned long)hi);
    for (auto& f : fr) s += fmt(" %lu", (unsigned long)f.seq);
    return s;
  }
};
static Seen look(Sys& q, a0_transport_t* t, unsigned g) {
  Seen s;
  a0_transport_locked_t lk;
  a0_err_t e = a0_transport_lock(t, &lk);
  CK(g, !e, "the next user cannot lock (%d/%d)", e, sys(e));
  CK(g, !a0_transport_empty(lk, &s.empty) && !a0_transport_seq_low(lk, &s.lo) && !a0_transport_seq_high(lk, &s.hi), "query failed");
  if (!s.empty) {
    e = a0_transport_jump_head(lk);
    for (; !e; e = a0_transport_step_next(lk)) {
      a0_transport_frame_t* p = nullptr;
      e = a0_transport_frame(lk, &p);
      CK(g, !e, "the next user cannot read a frame (%d/%d)", e, sys(e));
      size_t off = (uint8_t*)p - q.ar.data;
      CK(g, (uint8_t*)p >= q.ar.data && off + sizeof(a0_transport_frame_hdr_t) <= q.ar.size && p->hdr.data_size <= q.ar.size - off - sizeof(a0_transport_frame_hdr_t), "the next user is given a frame outside the arena");
      for (size_t k = 0; k < p->hdr.data_size; k++) CK(g, p->data[k] == byte_of(p->hdr.seq, k), "frame %lu is seen with a damaged payload", (unsigned long)p->hdr.seq);
      s.fr.push_back({p->hdr.seq, p->hdr.data_size, off});
      CK(g, s.fr.size() < 100, "the frames form a cycle");
    }
  }
  e = a0_transport_unlock(lk);
  CK(g, !e, "the next user cannot unlock (%d/%d)", e, sys(e));
  return s;
}

static const char* phase_name(int p) { return p == LOCK ? "while locking" : p == WORK ? "while allocating or writing" : p == COMMIT ? "while committing" : "after committing"; }

struct Modes {
  bool open_shared, handle_shared, readonly, exclusive;
};
static void recover(Run& r, Sys& s, Arena& c, const uint8_t* snap, const uint8_t* before, const std::vector<Model>& ok, int phase, Modes md, unsigned g) {
  for (int how = 0; how < 4; how++) {
    if (how == 0 && !md.open_shared) continue;
    if (how == 1 && !md.handle_shared) continue;
    if (how == 2 && !md.readonly) continue;
    if (how == 3 && !md.exclusive) continue;
    static const char* hn[] = {"opened anew", "through an open handle", "opened read-only", "opened exclusively"};
    Sys q(c);
    q.use_reader = false;
    q.empty_used = s.empty_used;
    a0_transport_t t;
    if (how == 1) {
      memcpy(c.data, before, c.size);
      a0_err_t e = a0_transport_init(&t, c.a0(A0_ARENA_MODE_SHARED));
      CK(ALL, !e, "open failed");
    }
    memcpy(c.data, snap, c.size);
    bury(c.data);
    if (how != 1) {
      if (how == 2) c.readonly(true);
      a0_err_t e = a0_transport_init(&t, c.a0(how == 0 ? A0_ARENA_MODE_SHARED : how == 2 ? A0_ARENA_MODE_READONLY : A0_ARENA_MODE_EXCLUSIVE));
      CK(g, !e, "death %s, then %s: open failed (%d/%d)", phase_name(phase), hn[how], e, sys(e));
    }
    Seen see = look(q, &t, g);
    const Model* hit = nullptr;
    for (auto& m : ok)
      if (see.same(m)) hit = &m;
    std::string want;
    for (auto& m : ok) {
      want += fmt(" or newest %lu, frames", (unsigned long)m.high);
      for (auto& f : m.live) want += fmt(" %lu", (unsigned long)f.seq);
    }
    CK(g, hit, "death %s, then %s: seen: %s; expected:%s", phase_name(phase), hn[how], see.str().c_str(), want.c_str() + 3);
    q.m = *hit;
    bool resized = !q.m.asize;
    if (resized) q.m.asize = c.size;
    q.w = q.v = q.r = t;
    std::string o = fmt("%d%d%zu", phase, how, (size_t)(hit - ok.data()));
    r.outcomes.insert(hash(o.data(), o.size()));
    r.execs++;
    if (how == 2) {
      q.view(&t, g);
      c.readonly(false);
      continue;
    }
    // still fully usable
    q.view(&t, g);
    if (resized) {  // died while resizing: either size
      a0_transport_locked_t lk = q.lock(&t);
      CK(g, !a0_transport_resize(lk, c.size), "cannot resize after a death while resizing");
      q.unlock(lk);
      q.m.asize = c.size;
    }
    uint32_t tl = trace_len();
    trace_add(" (death %s, %s), then a write", phase_name(phase), hn[how]);
    for (Op o : {Op{'A', 1}, Op{'W', 1}, Op{'W', 0}, Op{'C'}, Op{'W', 1}}) {
      if ((o.k == 'W' || o.k == 'A') && !q.fits(o.a)) continue;
      q.exec(o);
      q.view(&q.v, g);
    }
    trace_cut(tl);
  }
}

static std::vector<Model> prefixes(const Model& m, size_t n) {
  std::vector<Model> v;
  for (size_t j = 0; j <= n; j++) {
    Model x = m;
    x.live.erase(x.live.begin(), x.live.begin() + j);
    v.push_back(x);
  }
  return v;
}

static void crash_op(Run& r, Sys& s, Arena& c, const Saved& st, Op o, Modes md, unsigned g) {
  load(s, st);
  Model before = s.m;
  s.exec(o);
  Model after = s.m;
  // how many of the old frames went
  size_t n = 0;
  while (n < before.live.size() && !after.has(before.live[n].seq)) n++;
  if (o.k == 'C') n = 0;
  load(s, st);
  stepped(s, o);
  r.transitions++;
  size_t cnt = g_snaps;
  if (cnt >= MAXSNAP) die("too many snapshots");
  std::vector<Model> pre = prefixes(before, n), acc;
  std::vector<uint8_t> prev(st.arena);
  std::unordered_set<uint64_t> done;
  auto judge = [&](const uint8_t* a, int phase) {
    acc.clear();
    if (phase == LOCK) acc.push_back(before);
    else if (phase == WORK) acc = pre;
    else if (phase == COMMIT) {
      acc = pre;
      acc.push_back(after);
    } else {
      if (o.k == 'A' || o.k == 'Z' || o.k == 'U') acc = pre;
      else acc.push_back(after);
    }
    if (o.k == 'Z')
      for (auto& m : acc) m.asize = 0;  // either
    uint64_t h = mix(hash(a, s.ar.size), phase);
    if (!done.insert(h).second) return;
    r.distinct.insert(h);
    recover(r, s, c, a, st.arena.data(), acc, phase, md, g);
    r.crash_points++;
  };
  for (size_t i = 0; i < cnt; i++) {
    const uint8_t* a = g_pool + i * 8192;
    // an instruction that changed several words: any part of them may have been written
    std::vector<size_t> ch;
    for (size_t w = 0; w + 8 <= s.ar.size; w += 8)
      if (memcmp(a + w, prev.data() + w, 8)) ch.push_back(w);
    if (g_pphase[i] != DONE && ch.size() >= 2 && ch.size() <= 4)
      for (unsigned mask = 1; mask + 1 < (1u << ch.size()); mask++) {
        std::vector<uint8_t> x(prev);
        for (size_t k = 0; k < ch.size(); k++)
          if (mask >> k & 1) memcpy(x.data() + ch[k], a + ch[k], 8);
        judge(x.data(), g_pphase[i]);
      }
    judge(a, g_pphase[i]);
    prev.assign(a, a + s.ar.size);
  }
}

static void crashes(const char* prop, unsigned g, const char* nm, Alpha al, Modes md, std::function<bool(Sys&, const Saved&, Op)> keep = nullptr, size_t maxq = 100000, bool thorough_only = false) {
  scenario(prop, nm, [=](Run& r) {
    active = ALL;
    if (g == T10) active = T10 | T01;
    calibrate();
    Arena ar(al.asize), c(al.asize);
    Sys s(ar);
    Run inner;
    Space sp = bfs(inner, ar, s, al, ALL, maxq, false);
    r.bounds = fmt("arena %zu bytes; %s death after every instruction of every operation that changes the arena, and every partial store", al.asize, inner.bounds.c_str());
    r.states = sp.st.size();
    for (size_t i = 0; i < sp.st.size(); i++) {
      load(s, sp.st[i]);
      std::vector<Op> ops = enabled(s, al);
      ops.push_back({'U'});
      for (Op o : ops) {
        if (o.k == 'L') continue;
        if (keep && !keep(s, sp.st[i], o)) continue;
        trace_set(sp.path(i) + "death during: " + str(o));
        crash_op(r, s, c, sp.st[i], o, md, g);
      }
    }
    r.sample(sp.path(sp.st.size() - 1) + "death after each instruction of each operation");
  }, thorough_only);
}

// first and later opens
static void open_crash(const char* prop, unsigned g, Modes md) {
  scenario(prop, "open", [=](Run& r) {
    active = ALL;
    calibrate();
    size_t n = H + 160;
    Arena ar(n), c(n);
    Sys s(ar);
    Alpha al;
    al.asize = n;
    al.sizes = {8, 40};
    al.reader = false;
    al.too_large = false;
    Run inner;
    Space sp = bfs(inner, ar, s, al, ALL, 1000, false);
    r.bounds = "death after every instruction of opening a zeroed arena or one in any reachable state";
    for (int z = -1; z < (int)sp.st.size(); z++) {
      Model want;
      want.asize = n;
      if (z < 0) {
        memset(ar.data, 0, n);
        trace_set("death while opening a zeroed arena");
      } else {
        load(s, sp.st[z]);
        want = s.m;
        trace_set(sp.path(z) + "death while opening");
      }
      std::vector<uint8_t> before(ar.data, ar.data + n);
      a0_transport_t t;
      step_begin(ar);
      g_phase = WORK;
      a0_arena_t aa = ar.a0(A0_ARENA_MODE_SHARED);
      tf_on();
      a0_transport_init(&t, aa);
      tf_off();
      point(DONE);
      size_t cnt = g_snaps;
      std::vector<uint8_t> prev(before);
      for (size_t i = 0; i < cnt; i++) {
        Modes m2 = md;
        m2.handle_shared = z >= 0 && md.handle_shared;
        m2.readonly = m2.readonly && z >= 0;
        const uint8_t* a = g_pool + i * 8192;
        std::vector<size_t> ch;
        for (size_t w = 0; w + 8 <= n; w += 8)
          if (memcmp(a + w, prev.data() + w, 8)) ch.push_back(w);
        if (ch.size() >= 2 && ch.size() <= 4)
          for (unsigned mask = 1; mask + 1 < (1u << ch.size()); mask++) {
            std::vector<uint8_t> x(prev);
            for (size_t k = 0; k < ch.size(); k++)
              if (mask >> k & 1) memcpy(x.data() + ch[k], a + ch[k], 8);
            recover(r, s, c, x.data(), before.data(), {want}, WORK, m2, g);
            r.crash_points++;
          }
        recover(r, s, c, a, before.data(), {want}, WORK, m2, g);
        r.crash_points++;
        r.distinct.insert(hash(a, n));
        prev.assign(a, a + n);
      }
      r.states++;
    }
  });
}

static Alpha mk(size_t n, std::vector<size_t> sizes, std::vector<std::pair<size_t, size_t>> d = {}) {
  Alpha a;
  a.asize = n;
  a.sizes = sizes;
  a.doubles = d;
  a.reader = false;
  a.too_large = false;
  return a;
}
// the first frame of the pair is still uncommitted when the second one needs the space of others
static bool second_evicts(Sys& s, const Saved& st, Op o) {
  if (o.k != 'D') return false;
  load(s, st);
  Model b = s.m;
  s.exec({'A', o.a});
  size_t n1 = b.live.size() - s.m.live.size();
  load(s, st);
  s.exec(o);
  size_t kept = 0;
  for (auto& f : b.live) kept += s.m.has(f.seq);
  size_t n = b.live.size() - kept + (s.m.live.size() - kept < 2 ? 1 : 0);
  load(s, st);
  return n > n1;
}

void define_scenarios() {
  Modes sh = {true, true, false, false}, ro = {false, false, true, true};
  auto notknown = [](Sys& s, const Saved& st, Op o) { return !second_evicts(s, st, o); };
  for (int k = 0; k < 2; k++) {
    const char* p = k ? "T10" : "T01";
    unsigned g = k ? T10 : T01;
    Modes md = k ? ro : sh;
    crashes(p, g, k ? "crash_small" : "small", mk(H + 160, {0, 8, 40, 72}, {{0, 8}, {8, 40}}), md, notknown);
    crashes(p, g, k ? "crash_odd" : "odd", mk(H + 201, {0, 25, 88}), md);
    crashes(p, g, k ? "crash_tiny" : "tiny", mk(H + 41, {0, 1}, {{0, 0}}), md, notknown);
    crashes(p, g, k ? "crash_mid" : "mid", mk(H + 240, {1, 24, 100}, {{1, 1}}), md, notknown);
    Alpha z = mk(H + 160, {0, 40, 72});
    z.resize = {H + 160};
    z.resize_used = true;
    crashes(p, g, k ? "crash_resize" : "resize", z, md);
    if (!k) crashes(p, g, "pair_second_evicts", mk(H + 160, {8, 40}, {{0, 8}, {8, 40}, {40, 40}}), md, second_evicts);
  }
  crashes("T01", T01, "many", mk(H + 48 * 5 + 8, {1, 24, 56}), sh, nullptr, 1000000, true);
  open_crash("T01", T01, sh);
}
