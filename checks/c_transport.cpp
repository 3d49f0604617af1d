// Several users of one transport under the controlled scheduler.
#include "harness.h"

#include <a0/arena.h>
#include <a0/callback.h>
#include <a0/mtx.h>
#include <a0/transport.h>

#include <cerrno>
using namespace mc;

static Shared sh;  // the arena; users use the first `asize` bytes
static size_t asize;
static const int NP = 6;
static a0_transport_t* hnd[NP];  // one handle per process (shared by its threads)

static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
static a0_time_mono_t at(uint64_t ns) {
  a0_time_mono_t t;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}
static a0_arena_t arena(int p) {
  a0_arena_t a;
  a.buf.data = sh.at(p);
  a.buf.size = asize;
  a.mode = A0_ARENA_MODE_SHARED;
  return a;
}

// ---- the log: what was committed, in order ---------------------------------------
struct Rec {
  uint8_t id;
  size_t size;
};
static Rec log_[64];
static int nlog;
static int low;           // frames [low, nlog) are live
static int inlock;        // user in its locked section
static uint64_t dl;
// a call that changes the live frames and whose user may die inside
static struct {
  int user;      // 0: none
  int kind;      // 'c' commit, 'a' alloc, 'z' clear
  Rec add[4];
  int nadd;
} going;
static int next_id;
static bool died_in_commit;

static void reset(size_t size, int nproc = NP) {
  asize = size;
  nlog = low = inlock = 0;
  going = {};
  next_id = 1;
  died_in_commit = false;
  dl = now_ns() + 1000000;
  Atomic quiet;
  for (int p = 0; p < nproc; p++) MC_CHECK(!a0_transport_init(hnd[p], arena(p)), "init failed");
}
static void fill(uint8_t* d, Rec r) {
  for (size_t i = 0; i < r.size; i++) d[i] = r.id + i;
}
static a0_transport_frame_t* cur(a0_transport_locked_t lk) {
  a0_transport_frame_t* f = nullptr;
  a0_err_t e = a0_transport_frame(lk, &f);
  MC_CHECK(!e, "frame at a valid position failed (%d/%d)", e, sys(e));
  return f;
}
// Compares what the transport shows with the log. Moves the handle's position to the newest.
static void view(a0_transport_locked_t lk, const char* when) {
  Atomic quiet;
  bool empty = true;
  uint64_t lo = 0, hi = 0;
  MC_CHECK(!a0_transport_empty(lk, &empty) && !a0_transport_seq_low(lk, &lo) && !a0_transport_seq_high(lk, &hi), "query failed");
  if (going.user && going.user != self() && died(going.user)) {
    // the user died inside its call: it took effect or it did not (an eviction may be part done)
    if (going.kind == 'c') {
      died_in_commit = true;
      if ((int)hi == nlog + going.nadd)
        for (int i = 0; i < going.nadd; i++) log_[nlog++] = going.add[i];
    } else if (going.kind == 'z') {
      died_in_commit = true;
      if (empty) low = nlog;
    } else if ((int)lo > low + 1 || (empty && hi)) {
      low = empty ? nlog : (int)lo - 1;
      MC_CHECK(low <= nlog, "impossible lowest sequence number %d", (int)lo);
    }
    going.user = 0;
  }
  MC_CHECK((int)hi == nlog, "%s: the newest sequence number is %d but %d frames were committed", when, (int)hi, nlog);
  MC_CHECK(empty == (low == nlog), "%s: empty=%d but %d frames are live", when, empty, nlog - low);
  if (!empty) MC_CHECK((int)lo == low + 1, "%s: the lowest sequence number is %d, expected %d", when, (int)lo, low + 1);
  if (empty) return;
  MC_CHECK(!a0_transport_jump_head(lk), "%s: cannot go to the oldest frame", when);
  for (int i = low; i < nlog; i++) {
    a0_transport_frame_t* f = cur(lk);
    MC_CHECK((int)f->hdr.seq == i + 1, "%s: frame %d has sequence number %d", when, i + 1, (int)f->hdr.seq);
    MC_CHECK(f->hdr.data_size == log_[i].size, "%s: frame %d has size %zu, written with %zu", when, i + 1, f->hdr.data_size, log_[i].size);
    for (size_t k = 0; k < log_[i].size; k++) MC_CHECK(f->data[k] == (uint8_t)(log_[i].id + k), "%s: byte %zu of frame %d is damaged", when, k, i + 1);
    bool nx = false;
    MC_CHECK(!a0_transport_has_next(lk, &nx) && nx == (i + 1 < nlog), "%s: after frame %d of %d more=%d", when, i + 1, nlog, nx);
    if (nx) MC_CHECK(!a0_transport_step_next(lk), "%s: step failed", when);
  }
}

static a0_transport_locked_t lock(a0_transport_t* t) {
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(t, &lk), "lock failed");
  MC_CHECK(!inlock || died(inlock), "two users have the transport locked");
  inlock = self();
  return lk;
}
static void unlock(a0_transport_locked_t lk) {
  MC_CHECK(inlock == self(), "somebody else locked the transport meanwhile");
  inlock = 0;
  MC_CHECK(!a0_transport_unlock(lk), "unlock failed");
}
static Rec alloc(a0_transport_locked_t lk, size_t size) {
  Rec r = {(uint8_t)(next_id++ * 16), size};
  a0_transport_frame_t* f = nullptr;
  going.kind = 'a';
  going.user = self();
  a0_err_t e = a0_transport_alloc(lk, size, &f);
  MC_CHECK(!e, "alloc failed (%d/%d)", e, sys(e));
  {
    Atomic quiet;
    uint64_t lo = 0, hi = 0;
    a0_transport_seq_low(lk, &lo);
    a0_transport_seq_high(lk, &hi);
    // frames evicted for this one are gone for good
    if (nlog && (int)lo - 1 > low) low = (int)lo - 1 > nlog ? nlog : lo - 1;
  }
  going.user = 0;
  for (size_t i = 0; i < size; i++) f->data[i] = r.id + i;  // scheduling points
  return r;
}
static void commit(a0_transport_locked_t lk, std::initializer_list<Rec> rs) {
  going.nadd = 0;
  for (auto& r : rs) going.add[going.nadd++] = r;
  going.kind = 'c';
  going.user = self();
  a0_err_t e = a0_transport_commit(lk);
  MC_CHECK(!e, "commit failed (%d/%d)", e, sys(e));
  for (auto& r : rs) log_[nlog++] = r;
  going.user = 0;
}
static void op(a0_transport_t* t, char o) {
  a0_transport_locked_t lk = lock(t);
  view(lk, "on locking");
  size_t small = 1, big = 24;
  switch (o) {
    case 'W': case 'B': {
      Rec r = alloc(lk, o == 'W' ? small : big);
      commit(lk, {r});
      view(lk, "after own commit");
      break;
    }
    case 'D': {  // two frames, one commit
      Rec a = alloc(lk, small), b = alloc(lk, small);
      commit(lk, {a, b});
      view(lk, "after own commit of two");
      break;
    }
    case 'A': case 'a':  // never committed
      alloc(lk, o == 'A' ? small : big);
      break;
    case 'X':  // two allocations that are never committed; the second may need room
      alloc(lk, small);
      alloc(lk, big);
      break;
    case 'P': {  // one committed, one not
      Rec a = alloc(lk, small);
      commit(lk, {a});
      alloc(lk, small);
      break;
    }
    case 'R':
      point();
      view(lk, "still locked");
      break;
    case 'C':
      going.kind = 'z';
      going.user = self();
      MC_CHECK(!a0_transport_clear(lk), "clear failed");
      low = nlog;
      going.user = 0;
      view(lk, "after own clear");
      break;
  }
  unlock(lk);
}
static void prog(a0_transport_t* t, const char* p) {
  for (; *p; p++) op(t, *p);
}
static void final_view() {
  set_proc(0);
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(hnd[0], &lk), "lock failed at the end");
  view(lk, "at the end");
  a0_transport_frame_t* f;
  MC_CHECK(!a0_transport_alloc(lk, 1, &f), "alloc failed at the end");
  MC_CHECK(!a0_transport_commit(lk), "commit failed at the end");
  uint64_t hi;
  a0_transport_seq_high(lk, &hi);
  MC_CHECK((int)hi == nlog + 1, "the next frame after %d got sequence number %d", nlog, (int)hi);
  MC_CHECK(!a0_transport_unlock(lk), "unlock failed at the end");
  outcome(nlog);
  for (int i = low; i < nlog; i++) outcome(log_[i].id);
}

static const char* NM[] = {"A", "B", "C", "D", "E"};
static void group(size_t size, std::vector<const char*> users, int kill, const char* before = "") {
  reset(size, users.size() + 1);
  {
    Atomic quiet;
    prog(hnd[0], before);
  }
  for (size_t i = 0; i < users.size(); i++) {
    const char* u = users[i];
    int p = i + 1;
    spawn(p, NM[i], [=] { prog(hnd[p], u); }, kill >> i & 1 ? KILLABLE : 0);
  }
  run();
  final_view();
}

// ---- T06 ---------------------------------------------------------------------------
struct PredCtx {
  a0_transport_locked_t* lk;
  int evals, fail_at;
  uint64_t want;
};
static a0_err_t pred_high(void* u, bool* out) {
  PredCtx* c = (PredCtx*)u;
  c->evals++;
  MC_CHECK(inlock == 0 || inlock == self() || died(inlock), "the condition is evaluated while another user has the lock");
  if (c->fail_at && c->evals >= c->fail_at) return A0_ERR_BAD_PATH;
  uint64_t hi;
  a0_err_t e = a0_transport_seq_high(*c->lk, &hi);
  *out = hi >= c->want;
  return e;
}
static int began[16];  // newest frame when the wait began
// kinds: n nonempty, h next after the newest at start, e empty, f failing condition, 2/3: at least that many committed
// upper case or suffix 't': with deadline
static void waiter(a0_transport_t* t, const char* w) {
  a0_transport_locked_t lk = lock(t);
  view(lk, "before waiting");
  a0_time_mono_t d = at(dl);
  a0_time_mono_t* to = strchr(w, 't') ? &d : nullptr;
  PredCtx c = {&lk, 0, 0, 0};
  a0_predicate_t p;
  if (*w == 'n') p = a0_transport_nonempty_pred(&lk);
  else if (*w == 'h') p = a0_transport_has_next_pred(&lk);
  else if (*w == 'e') p = a0_transport_empty_pred(&lk);
  else {
    if (*w == 'f') c.fail_at = w[1] - '0', c.want = 1000;
    else c.want = *w - '0';
    p = {&c, pred_high};
  }
  int newest = nlog;
  began[self()] = nlog;
  inlock = 0;
  a0_err_t e = to ? a0_transport_timedwait(lk, p, to) : a0_transport_wait(lk, p);
  int s = sys(e);
  outcome(e * 1000 + s);
  MC_CHECK(!inlock || died(inlock), "wait returned while another user has the lock");
  inlock = self();
  view(lk, "after waiting");
  point();
  if (*w == 'f') {
    MC_CHECK(e == A0_ERR_BAD_PATH || (to && s == ETIMEDOUT && now_ns() >= dl), "a failing condition ended the wait with %d/%d", e, s);
  } else if (e) {
    MC_CHECK(to && s == ETIMEDOUT, "wait failed with %d/%d", e, s);
    MC_CHECK(now_ns() >= dl, "wait timed out early");
  } else {
    bool ok = *w == 'n' ? low < nlog : *w == 'e' ? low == nlog : *w == 'h' ? nlog > newest : nlog >= *w - '0';
    MC_CHECK(ok, "wait for '%c' succeeded although the condition does not hold", *w);
  }
  view(lk, "after waiting, still locked");
  unlock(lk);
}
static bool waiting_for(const char* w, int newest) {
  return *w == 'n' ? low < nlog : *w == 'e' ? low == nlog : *w == 'h' || *w == 'f' ? nlog > newest : nlog >= *w - '0';
}
static void waits(size_t size, std::vector<const char*> ws, std::vector<const char*> cs, int killw, int killc, const char* before = "") {
  reset(size, ws.size() + cs.size() + 1);
  {
    Atomic quiet;
    prog(hnd[0], before);
  }
  for (auto& b : began) b = 1000;
  bool timed = false;
  for (auto w : ws) timed |= strchr(w, 't') != nullptr;
  if (timed) add_deadline(dl);
  int k = 0;
  for (size_t i = 0; i < ws.size(); i++) {
    const char* w = ws[i];
    int p = ++k;
    spawn(p, i ? "W2" : "W1", [=] { waiter(hnd[p], w); }, MAY_BLOCK | (killw >> i & 1 ? KILLABLE : 0));
  }
  for (size_t i = 0; i < cs.size(); i++) {
    const char* c = cs[i];
    int p = ++k;
    spawn(p, NM[i], [=] { prog(hnd[p], c); }, killc >> i & 1 ? KILLABLE : 0);
  }
  run();
  bool incommit = died_in_commit || (going.user && died(going.user) && going.kind != 'a');
  for (size_t i = 0; i < ws.size(); i++)
    if (blocked(i + 1)) {
      outcome(900 + i);
      MC_CHECK(!strchr(ws[i], 't'), "a wait with a deadline never returned");
      if (!incommit) MC_CHECK(!waiting_for(ws[i], began[i + 1]), "a waiter sleeps on although its condition holds");
    }
  final_view();
}

// ---- T07 ---------------------------------------------------------------------------
static bool sd_called, sd_returned;
static int in_wait;
static void sd_waiter(a0_transport_t* t, const char* w, bool again) {
  for (int round = 0; round < (again ? 2 : 1); round++) {
    a0_transport_locked_t lk = lock(t);
    uint64_t hi0;
    a0_transport_seq_high(lk, &hi0);
    a0_time_mono_t d = at(dl);
    a0_time_mono_t* to = strchr(w, 't') ? &d : nullptr;
    PredCtx c = {&lk, 0, 0, (uint64_t)(*w - '0')};
    a0_predicate_t p = {&c, pred_high};
    bool before = sd_returned;
    in_wait++;
    inlock = 0;
    a0_err_t e = a0_transport_timedwait(lk, p, to);
    int s = sys(e);
    MC_CHECK(!inlock || died(inlock), "wait returned while another user has the lock");
    inlock = self();
    in_wait--;
    outcome(e * 1000 + s);
    if (before) MC_CHECK(s == ESHUTDOWN, "a wait begun after shutdown returned %d/%d", e, s);
    if (s == ESHUTDOWN) MC_CHECK(sd_called, "shutdown reported before it was requested");
    else if (s == ETIMEDOUT) MC_CHECK(to && now_ns() >= dl, "timed out early");
    else MC_CHECK(!e && nlog >= (int)c.want, "wait returned %d/%d", e, s);
    view(lk, "after waiting");
    unlock(lk);
    if (s != ESHUTDOWN) break;
  }
}
static void shutdown_case(size_t size, std::vector<const char*> same, std::vector<const char*> other, std::vector<const char*> cs, bool again) {
  reset(size, 5);
  sd_called = sd_returned = false;
  in_wait = 0;
  add_deadline(dl);
  int n = 0;
  for (auto w : same) {
    n++;
    spawn(1, n == 1 ? "W1" : "W2", [=] { sd_waiter(hnd[1], w, again); });
  }
  spawn(1, "S", [=] {
    a0_transport_locked_t lk = lock(hnd[1]);
    sd_called = true;
    inlock = 0;
    MC_CHECK(!a0_transport_shutdown(lk), "shutdown failed");
    MC_CHECK(!inlock || died(inlock), "shutdown returned while another user has the lock");
    inlock = self();
    MC_CHECK(!in_wait, "shutdown returned while a wait on the handle is still in progress");
    bool rq = false;
    a0_transport_shutdown_requested(lk, &rq);
    MC_CHECK(rq, "shutdown not reported as requested");
    sd_returned = true;
    view(lk, "after shutdown");
    unlock(lk);
  });
  n++;
  int o0 = n;
  for (auto w : other) {
    n++;
    spawn(2, "O", [=] { waiter(hnd[2], w); }, MAY_BLOCK);
  }
  for (auto c : cs) {
    n++;
    spawn(3, "A", [=] { prog(hnd[3], c); });
  }
  run();
  for (size_t i = 0; i < other.size(); i++)
    if (blocked(o0 + 1 + i)) MC_CHECK(!waiting_for(other[i], 0), "a waiter on another handle sleeps on although its condition holds");
  final_view();
}

// ---- T09 ---------------------------------------------------------------------------
static void openers(int n, const char* pr, int kill, bool threads) {
  asize = 144 + 64 * 6;
  nlog = low = inlock = 0;
  going = {};
  next_id = 1;
  died_in_commit = false;
  for (int i = 0; i < n; i++)
    spawn(i + 1, NM[i], [=] {
      a0_err_t e = a0_transport_init(hnd[i + 1], arena(i + 1));
      MC_CHECK(!e, "open failed (%d/%d)", e, sys(e));
      prog(hnd[i + 1], pr);
    }, kill >> i & 1 ? KILLABLE : 0);
  run();
  set_proc(0);
  MC_CHECK(!a0_transport_init(hnd[0], arena(0)), "open at the end failed");
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(hnd[0], &lk), "lock at the end failed");
  size_t used = 0;
  MC_CHECK(!a0_transport_used_space(lk, &used), "used space");
  MC_CHECK(used <= asize && used >= 100, "the used space of a fresh transport is %zu", used);
  a0_transport_frame_t* f;
  MC_CHECK(a0_transport_alloc(lk, asize, &f) == A0_ERR_FRAME_LARGE, "a too large request is not refused");
  MC_CHECK(!a0_transport_unlock(lk), "unlock at the end failed");
  final_view();
}

void define_scenarios() {
  sh = make_shared(144 + 64 * 6, NP);
  for (int i = 0; i < NP; i++) hnd[i] = (a0_transport_t*)make_handle(sizeof(a0_transport_t));
  static const size_t ROOMY = 144 + 64 * 6, TWO = 144 + 48 * 2 + 1, THREE = 144 + 48 * 3 + 1;
  // ---- T05
  struct G {
    const char* nm;
    size_t size;
    std::vector<const char*> u;
    int pq, pt;
    const char* before;
  };
  static const G gs[] = {
      {"W_W", ROOMY, {"W", "W"}, 6, 8, ""},
      {"WW_W", ROOMY, {"WW", "W"}, 5, 7, ""},
      {"W_R", ROOMY, {"W", "RR"}, 6, 8, ""},
      {"A_WR", ROOMY, {"A", "WR"}, 5, 7, ""},
      {"AW_RA", ROOMY, {"AW", "RA"}, 5, 7, ""},
      {"D_WR", ROOMY, {"D", "WR"}, 5, 7, ""},
      {"P_WR", ROOMY, {"P", "WR"}, 5, 7, ""},
      {"evict_W_W", TWO, {"W", "W"}, 5, 7, "WW"},
      {"evict_B_W", THREE, {"B", "W"}, 5, 7, "WWW"},
      {"evict_A_WR", TWO, {"A", "WR"}, 5, 7, "WW"},
      {"evict_X_WR", THREE, {"X", "WR"}, 5, 7, "WW"},
      {"evict_D_R", TWO, {"D", "R"}, 5, 7, "WW"},
      {"clear_C_W", ROOMY, {"C", "W"}, 5, 7, "WW"},
      {"clear_CW_WR", ROOMY, {"CW", "WR"}, 4, 6, "W"},
      {"W_W_R", ROOMY, {"W", "W", "R"}, 4, 6, ""},
      {"A_W_R", ROOMY, {"A", "W", "R"}, 4, 6, ""},
      {"evict_W_A_R", TWO, {"W", "A", "R"}, 4, 6, "WW"},
  };
  for (auto& g : gs) {
    int all = (1 << g.u.size()) - 1;
    scenario("T05", g.nm, cfg(g.pq), cfg(g.pt), [=] { group(g.size, g.u, 0, g.before); });
    scenario("T05", std::string(g.nm) + "_death", cfg(g.u.size() > 2 ? 2 : 4, 1), cfg(g.u.size() > 2 ? 3 : 4, 2), [=] { group(g.size, g.u, all, g.before); });
  }
  // one thread, two handles: the second lock must be refused, not granted a second time
  scenario("T05", "relock", cfg(3), cfg(4), [=] {
    reset(ROOMY);
    for (int u = 0; u < 2; u++)
      spawn(u, "user", [=] {
        a0_transport_t other;
        MC_CHECK(!a0_transport_init(&other, arena(u)), "init failed");
        a0_transport_locked_t lk, lk2;
        MC_CHECK(!a0_transport_lock(hnd[u], &lk), "lock failed");
        a0_transport_frame_t* f = nullptr;
        MC_CHECK(!a0_transport_alloc(lk, 32, &f), "alloc failed");
        Rec r;
        {
          Atomic q;
          r = {(uint8_t)(10 + u), 32};
          fill(f->data, r);
        }
        MC_CHECK(a0_transport_lock(&other, &lk2), "a lock held by the caller is granted again");
        MC_CHECK(!a0_transport_commit(lk), "commit failed");
        {
          Atomic q;
          log_[nlog++] = r;
        }
        view(lk, "after a refused lock");
        MC_CHECK(!a0_transport_unlock(lk), "unlock failed");
      });
    run();
    a0_transport_locked_t lk;
    MC_CHECK(!a0_transport_lock(hnd[2], &lk), "lock failed");
    view(lk, "at the end");
  });
  // ---- T06
  struct Wt {
    const char* nm;
    size_t size;
    std::vector<const char*> w, c;
    int pq, pt;
    int kw, kc;
    const char* before;
  };
  static const Wt ws[] = {
      {"nonempty", ROOMY, {"n"}, {"W"}, 6, 8, 0, 0, ""},
      {"next", ROOMY, {"h"}, {"W"}, 6, 8, 0, 0, "W"},
      {"next_2commits", ROOMY, {"h"}, {"WW"}, 5, 7, 0, 0, ""},
      {"count_2committers", ROOMY, {"2"}, {"W", "W"}, 4, 6, 0, 0, ""},
      {"double", ROOMY, {"2"}, {"D"}, 6, 8, 0, 0, ""},
      {"empty", ROOMY, {"e"}, {"C"}, 6, 8, 0, 0, "WW"},
      {"abandoned", ROOMY, {"n"}, {"AW"}, 5, 7, 0, 0, ""},
      {"2waiters", ROOMY, {"n", "n"}, {"W"}, 4, 6, 0, 0, ""},
      {"2waiters_differ", ROOMY, {"1", "2"}, {"WW"}, 4, 6, 0, 0, ""},
      {"2waiters_2committers", ROOMY, {"2", "1"}, {"W", "W"}, 3, 5, 0, 0, ""},
      {"3waiters_one_served", ROOMY, {"9", "9", "n"}, {"W"}, 2, 4, 0, 0, ""},
      {"3waiters_one_served_clear", ROOMY, {"9", "9", "e"}, {"C"}, 2, 4, 0, 0, "W"},
      {"failing", ROOMY, {"f2"}, {"W"}, 5, 7, 0, 0, ""},
      {"failing_first", ROOMY, {"f1"}, {"W"}, 5, 7, 0, 0, ""},
      {"evicting", TWO, {"3"}, {"W"}, 5, 7, 0, 0, "WW"},
      {"timed", ROOMY, {"nt"}, {"W"}, 5, 7, 0, 0, ""},
      {"timed_nothing", ROOMY, {"nt"}, {"R"}, 5, 7, 0, 0, ""},
      {"timed_abandoned", ROOMY, {"nt"}, {"A"}, 5, 7, 0, 0, ""},
      {"timed_count", ROOMY, {"2t"}, {"WW"}, 4, 6, 0, 0, ""},
      {"timed_2waiters", ROOMY, {"nt", "n"}, {"W"}, 4, 5, 0, 0, ""},
      {"committer_dies", ROOMY, {"n"}, {"W"}, 5, 7, 0, 1, ""},
      {"committer_dies_other_commits", ROOMY, {"2"}, {"W", "WW"}, 3, 4, 0, 1, ""},
      {"abandoner_dies", ROOMY, {"n"}, {"A", "W"}, 4, 6, 0, 1, ""},
      {"evictor_dies", TWO, {"3"}, {"B", "W"}, 3, 4, 0, 1, "WW"},
      {"clearer_dies", ROOMY, {"e"}, {"C"}, 5, 7, 0, 1, "W"},
      {"waiter_dies", ROOMY, {"n", "n"}, {"W"}, 4, 5, 1, 0, ""},
      {"timed_committer_dies", ROOMY, {"nt"}, {"W"}, 4, 6, 0, 1, ""},
      {"timed_abandoner_dies", ROOMY, {"nt"}, {"A"}, 5, 7, 0, 1, ""},
  };
  for (auto& g : ws) {
    int t = 0;
    for (auto w : g.w) t |= strchr(w, 't') != nullptr;
    int c = g.kw || g.kc;
    scenario("T06", g.nm, cfg(g.pq, c, t), cfg(g.pt, c, t), [=] { waits(g.size, g.w, g.c, g.kw, g.kc, g.before); });
  }
  // ---- T07
  scenario("T07", "one", cfg(5), cfg(7), [] { shutdown_case(ROOMY, {"1"}, {}, {}, false); });
  scenario("T07", "one_again", cfg(5), cfg(7), [] { shutdown_case(ROOMY, {"1"}, {}, {}, true); });
  scenario("T07", "none", cfg(4), cfg(6), [] { shutdown_case(ROOMY, {}, {"1"}, {"W"}, true); });
  scenario("T07", "one_commit", cfg(4), cfg(6), [] { shutdown_case(ROOMY, {"1"}, {}, {"W"}, true); });
  scenario("T07", "two", cfg(4), cfg(6), [] { shutdown_case(ROOMY, {"1", "1"}, {}, {}, false); });
  scenario("T07", "two_commit", cfg(3), cfg(5), [] { shutdown_case(ROOMY, {"1", "2"}, {}, {"W"}, false); });
  scenario("T07", "one_other", cfg(4), cfg(6), [] { shutdown_case(ROOMY, {"1"}, {"1"}, {}, false); });
  scenario("T07", "one_other_commit", cfg(3), cfg(5), [] { shutdown_case(ROOMY, {"1"}, {"1"}, {"W"}, false); });
  scenario("T07", "one_other_later_commit", cfg(2), cfg(3), [] { shutdown_case(ROOMY, {"2"}, {"2"}, {"WW"}, false); });
  scenario("T07", "one_2others", cfg(2), cfg(4), [] { shutdown_case(ROOMY, {"1"}, {"2", "2"}, {}, false); });
  scenario("T07", "two_2others_commit", cfg(0), cfg(1), [] { shutdown_case(ROOMY, {"3", "3"}, {"2", "2"}, {"W"}, false); });
  scenario("T07", "timed", cfg(4, 0, 1), cfg(6, 0, 1), [] { shutdown_case(ROOMY, {"1t"}, {}, {}, true); });
  scenario("T07", "timed_commit", cfg(3, 0, 1), cfg(5, 0, 1), [] { shutdown_case(ROOMY, {"1t"}, {}, {"W"}, false); });
  // ---- T09
  scenario("T09", "two_W", cfg(5), cfg(7), [] { openers(2, "W", 0, false); });
  scenario("T09", "two_WR", cfg(4), cfg(6), [] { openers(2, "WR", 0, false); });
  scenario("T09", "three_W", cfg(3), cfg(5), [] { openers(3, "W", 0, false); });
  scenario("T09", "three_open", cfg(4), cfg(6), [] { openers(3, "", 0, false); });
  scenario("T09", "one_W_death", cfg(1, 1), cfg(2, 1), [] { openers(1, "W", 1, false); });
  scenario("T09", "two_W_death", cfg(3, 1), cfg(5, 2), [] { openers(2, "W", 3, false); });
  scenario("T09", "three_W_death", cfg(2, 1), cfg(4, 2), [] { openers(3, "W", 7, false); });
}
