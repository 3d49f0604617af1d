// Mutexes, condition variables, events and latches under the controlled scheduler.
#include "harness.h"

#include <a0/event.h>
#include <a0/latch.h>
#include <a0/mtx.h>

#include <cerrno>
using namespace mc;

static Shared sh;
static const int NP = 7;
static const int NM = 4;

struct Block {
  a0_mtx_t mtx[NM];
  a0_cnd_t cnd[2];
  a0_event_t event;
  a0_latch_t latch;
  uint64_t value;  // guarded by mtx[0]; driver accesses only
};
static Block* B(int p = -1) { return (Block*)sh.at(p < 0 ? cur_proc() : p); }

// What the users themselves know. A user is "inside" mutex m from the start of its
// acquiring call until its releasing call has returned; it is the holder from the
// return of the acquiring call to the start of the releasing one.
static int holder[NM];
static bool inside[NM][16];
static bool accounted[NM][16];  // this dead user's death has been reported
static int enters[NM];         // number of times somebody went inside
static int entries;

static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
static bool took(a0_err_t e) { return a0_mtx_lock_successful(e); }
static bool said_dead(a0_err_t e) { return a0_mtx_previous_owner_died(e); }

static void reset() {
  memset(holder, 0, sizeof holder);
  memset(inside, 0, sizeof inside);
  memset(accounted, 0, sizeof accounted);
  memset(enters, 0, sizeof enters);
  entries = 0;
}
static void going(int m) {
  inside[m][self()] = true;
  enters[m]++;
}
static void gone(int m) { inside[m][self()] = false; }

// The caller got mutex m with result e. quiet: the result cannot carry the death report.
static void enter(int m, a0_err_t e, bool quiet = false) {
  int h = holder[m];
  MC_CHECK(h == 0 || died(h) || h == self(), "two users hold the mutex: user %d got it while user %d holds it", self(), h);
  bool must = h && died(h) && !accounted[m][h];
  int candidate = 0;
  for (int i = 1; i < 16; i++)
    if (i != self() && inside[m][i] && !accounted[m][i] && died(i)) candidate = candidate ? candidate : i;
  if (said_dead(e)) {
    MC_CHECK(candidate, "owner death reported although no user died in the mutex");
    // one death accounts for one report; with several dead the definite holder first
    accounted[m][must ? h : candidate] = true;
  } else if (must && !quiet) {
    fail("the previous owner died holding the mutex, but the acquirer was not told");
  }
  holder[m] = self();
  entries++;
}
static void unlock_ok(int m) {
  MC_CHECK(holder[m] == self(), "driver: unlock by non-holder");
  holder[m] = 0;
  a0_err_t e = a0_mtx_unlock(&B()->mtx[m]);
  MC_CHECK(!e, "unlock by the holder failed (%d/%d)", e, sys(e));
  gone(m);
}
static a0_time_mono_t at(uint64_t ns) {
  a0_time_mono_t t;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}
static void bump() {  // a read-modify-write in two steps
  volatile uint64_t* v = &B()->value;
  uint64_t x = *v;
  point();
  *v = x + 1;
}

// ---- M01 / M02 / M03: programs of lock operations --------------------------------
// 'L' lock, 'T' trylock, 'D' timed lock; each followed by a section and an unlock.
// 'l' 't' 'd': the same, but the user does not unlock before its next operation (holds
// several only for different mutexes; digits choose the mutex).
static void user(const char* prog, uint64_t dl) {
  int m = 0;
  for (const char* p = prog; *p; p++) {
    if (*p >= '0' && *p <= '2') {
      m = *p - '0';
      continue;
    }
    if (*p == 'u') {
      if (holder[m] == self()) unlock_ok(m);  // (a try-lock may have failed)
      continue;
    }
    a0_mtx_t* mtx = &B()->mtx[m];
    a0_err_t e;
    int before = enters[m];
    bool other = false, other_dead_free = true;
    for (int i = 1; i < 16; i++)
      if (i != self() && inside[m][i]) {
        if (!died(i)) other = true;
        other_dead_free = false;
      }
    (void)other_dead_free;
    going(m);
    char op = *p & ~32;
    if (op == 'L') {
      e = a0_mtx_lock(mtx);
      MC_CHECK(took(e), "lock failed with error %d/%d", e, sys(e));
    } else if (op == 'T') {
      e = a0_mtx_trylock(mtx);
      if (!took(e)) {
        MC_CHECK(sys(e) == EBUSY, "trylock failed with error %d/%d instead of busy", e, sys(e));
        MC_CHECK(other || enters[m] != before + 1, "trylock reported busy although nobody held or wanted the mutex");
      }
    } else {
      a0_time_mono_t t = at(dl);
      e = a0_mtx_timedlock(mtx, &t);
      if (!took(e)) {
        MC_CHECK(sys(e) == ETIMEDOUT, "timed lock failed with error %d/%d", e, sys(e));
        MC_CHECK(now_ns() >= dl, "timed lock timed out before its deadline");
        MC_CHECK(other || enters[m] != before + 1, "timed lock timed out although nobody held or wanted the mutex");
      }
    }
    outcome(e * 1000 + sys(e));
    if (took(e)) {
      enter(m, e);
      if (m == 0) bump();
      if (*p == op) unlock_ok(m);
    } else {
      gone(m);
      MC_CHECK(sys(a0_mtx_unlock(mtx)) == EPERM, "unlock was not refused after a failed lock");
    }
  }
}

// afterwards a newcomer can take every mutex, is told of a death exactly if there was one,
// and the mutex is clean after that
static void final_usable(int n) {
  set_proc(0);
  for (int m = 0; m < n; m++) {
    a0_err_t e = a0_mtx_trylock(&B(0)->mtx[m]);
    MC_CHECK(took(e), "mutex %d cannot be taken although no live user holds it (error %d/%d)", m, e, sys(e));
    bool must = holder[m] && died(holder[m]) && !accounted[m][holder[m]];
    bool may = false;
    for (int i = 1; i < 16; i++) may |= inside[m][i] && !accounted[m][i] && died(i);
    if (must) MC_CHECK(said_dead(e), "mutex %d: its holder died, but the next acquirer was not told", m);
    if (!may) MC_CHECK(!said_dead(e), "mutex %d reports a dead owner although nobody died in it", m);
    outcome(said_dead(e));
    MC_CHECK(!a0_mtx_unlock(&B(0)->mtx[m]), "mutex %d: newcomer cannot unlock", m);
    e = a0_mtx_lock(&B(0)->mtx[m]);
    MC_CHECK(e == A0_OK, "mutex %d not clean after recovery (error %d/%d)", m, e, sys(e));
    MC_CHECK(!a0_mtx_unlock(&B(0)->mtx[m]), "mutex %d: newcomer cannot unlock", m);
  }
}

static void programs(std::vector<const char*> progs, int kill_flags, bool same_process = false) {
  reset();
  uint64_t dl = now_ns() + 1000000;
  for (auto p : progs)
    if (strpbrk(p, "Dd")) {
      add_deadline(dl);
      break;
    }
  static const char* names[] = {"A", "B", "C", "D"};
  for (size_t i = 0; i < progs.size(); i++) {
    const char* p = progs[i];
    spawn(same_process ? 1 : i + 1, names[i], [=] { user(p, dl); }, (kill_flags >> i & 1) ? KILLABLE : 0);
  }
  run();
  bool any_dead = false;
  for (size_t i = 0; i < progs.size(); i++) any_dead |= died(i + 1);
  bool multi = false;
  for (auto p : progs) multi |= strpbrk(p, "12") != nullptr;
  if (!any_dead && !multi) MC_CHECK(B(0)->value == (uint64_t)entries, "lost update under the mutex: %lu of %d", (unsigned long)B(0)->value, entries);
  outcome(entries);
  final_usable(3);
}

// ---- M02: every order of locking and unlocking several mutexes, then death ---------
// The other process takes what is free: all of it just before the death, or (eager) each
// mutex as soon as it is released, giving it back when the first one wants it again.
static void orders(int depth, bool eager) {
  reset();
  static int plan[12], want;
  static bool done, full;
  for (int i = 0; i < depth; i++) plan[i] = i ? choose(NM) : 0;  // mutexes are alike
  want = -1;
  done = full = false;
  spawn(1, "A", [=] {
    for (int i = 0; i < depth; i++) {
      int m = plan[i];
      if (holder[m] == self()) {
        unlock_ok(m);
        continue;
      }
      want = m;
      await([=] { return holder[m] == 0; });
      going(m);
      a0_err_t e = a0_mtx_lock(&B()->mtx[m]);
      MC_CHECK(took(e), "lock failed with error %d/%d", e, sys(e));
      enter(m, e);
      want = -1;
    }
    done = true;
    await([] { return full; });
    perish();
  });
  spawn(2, "B", [=] {
    while (true) {
      await([=] {
        if (want >= 0 && holder[want] == 2) return true;
        if (!eager && !done) return false;
        for (int m = 0; m < NM; m++)
          if (!holder[m] && m != want) return true;
        return done;
      });
      if (want >= 0 && holder[want] == 2) {
        unlock_ok(want);
        continue;
      }
      bool any = false;
      for (int m = 0; m < NM; m++)
        if (!holder[m] && m != want) {
          going(m);
          a0_err_t e = a0_mtx_trylock(&B()->mtx[m]);
          MC_CHECK(e == A0_OK, "trylock of a free mutex: error %d/%d", e, sys(e));
          enter(m, e);
          any = true;
        }
      if (done && !any) break;
    }
    full = true;
    await([] { return died(1); });
    for (int m = 0; m < NM; m++)
      if (holder[m] == 2) {
        MC_CHECK(sys(a0_mtx_lock(&B()->mtx[m])) == EDEADLK, "mutex %d: its live holder no longer has it after another process died", m);
        unlock_ok(m);
      }
  });
  run();
  final_usable(NM);
}

// ---- M03: contract, every operation sequence of a depth -----------------------------
static void contract(int depth, int nusers, int nmtx) {
  reset();
  struct Step { int u, op, m; };
  static Step plan[10];
  static int pos;
  static int own[3];
  pos = 0;
  memset(own, 0, sizeof own);
  for (int i = 0; i < depth; i++) {
    plan[i].u = i == 0 ? 1 : choose(nusers) + 1;  // users are alike
    plan[i].op = choose(4);
    plan[i].m = nmtx > 1 ? choose(nmtx) : 0;
  }
  for (int u = 1; u <= nusers; u++)
    spawn(u, u == 1 ? "A" : u == 2 ? "B" : "C", [=] {
      while (true) {
        await([=] { return pos >= depth || plan[pos].u == u; });
        if (pos >= depth) return;
        Step s = plan[pos];
        a0_mtx_t* m = &B()->mtx[s.m];
        int& o = own[s.m];
        a0_err_t e = A0_OK;
        auto timed = [&](uint64_t ns) {
          a0_time_mono_t t = at(ns);
          e = a0_mtx_timedlock(m, &t);
          if (!o) { MC_CHECK(e == A0_OK, "timed lock of a free mutex: error %d/%d", e, sys(e)); o = u; }
          else if (o == u) MC_CHECK(sys(e) == EDEADLK, "timed lock by the holder: error %d/%d instead of deadlock", e, sys(e));
          else {
            MC_CHECK(sys(e) == ETIMEDOUT, "timed lock of a held mutex: error %d/%d instead of timeout", e, sys(e));
            MC_CHECK(now_ns() >= ns, "timed lock gave up before its deadline");
            MC_CHECK(now_ns() == ns, "timed lock returned %lu ns after its deadline", (unsigned long)(now_ns() - ns));
          }
        };
        Atomic quiet;
        switch (s.op) {
          case 0:
            if (o && o != u) { timed(now_ns()); break; }  // would block for good
            e = a0_mtx_lock(m);
            if (o == u) MC_CHECK(sys(e) == EDEADLK, "lock by the holder: error %d/%d instead of deadlock", e, sys(e));
            else { MC_CHECK(e == A0_OK, "lock of a free mutex: error %d/%d", e, sys(e)); o = u; }
            break;
          case 1:
            e = a0_mtx_trylock(m);
            if (!o) { MC_CHECK(e == A0_OK, "trylock of a free mutex: error %d/%d", e, sys(e)); o = u; }
            else if (o != u) MC_CHECK(sys(e) == EBUSY, "trylock of a held mutex: error %d/%d instead of busy", e, sys(e));
            else MC_CHECK(!took(e), "trylock by the holder succeeded");
            break;
          case 2:
            e = a0_mtx_unlock(m);
            if (o == u) { MC_CHECK(e == A0_OK, "unlock by the holder: error %d/%d", e, sys(e)); o = 0; }
            else MC_CHECK(sys(e) == EPERM, "unlock by a non-holder: error %d/%d instead of refused", e, sys(e));
            break;
          case 3:
            timed(now_ns() + 1000);
            break;
        }
        outcome(e * 1000 + sys(e) + 7 * s.op);
        pos++;
      }
    });
  run();
  // release what is still held, then everything must be free
  for (int m = 0; m < nmtx; m++)
    if (own[m]) {
      a0_err_t e = a0_mtx_trylock(&B(0)->mtx[m]);
      MC_CHECK(!took(e) && sys(e) == EBUSY, "a held mutex could be taken (error %d/%d)", e, sys(e));
    } else {
      MC_CHECK(a0_mtx_trylock(&B(0)->mtx[m]) == A0_OK, "a free mutex could not be taken");
      MC_CHECK(a0_mtx_unlock(&B(0)->mtx[m]) == A0_OK, "unlock failed");
    }
}

// ---- M04: condition variables ------------------------------------------------------
static int nreturned, nsig;
static bool ready[16];
static void lock0() {
  going(0);
  a0_err_t e = a0_mtx_lock(&B()->mtx[0]);
  MC_CHECK(took(e), "lock failed %d/%d", e, sys(e));
  enter(0, e);
}
// One wait on cnd; caller holds mtx[0]. Returns true if woken, false on timeout.
static bool one_wait(bool timed, uint64_t dl) {
  a0_time_mono_t t = at(dl);
  Block* b = B();
  holder[0] = 0;
  a0_err_t e = timed ? a0_cnd_timedwait(&b->cnd[0], &b->mtx[0], &t) : a0_cnd_wait(&b->cnd[0], &b->mtx[0]);
  bool to = sys(e) == ETIMEDOUT;
  MC_CHECK(to || took(e), "condition wait failed with %d/%d", e, sys(e));
  enter(0, e, to);
  if (to) {
    MC_CHECK(timed, "untimed wait timed out");
    MC_CHECK(now_ns() >= dl, "condition wait timed out before its deadline");
  }
  // the caller really holds it
  MC_CHECK(sys(a0_mtx_lock(&b->mtx[0])) == EDEADLK, "condition wait returned without holding the mutex");
  outcome(to);
  return !to;
}
// waits once, no predicate: it is a "current waiter" from the moment it has unlocked
static void pure_waiter(bool timed, uint64_t dl) {
  lock0();
  ready[self()] = true;
  one_wait(timed, dl);
  nreturned++;
  bump();
  unlock_ok(0);
}
// consumes one token
static void token_waiter(bool timed, uint64_t dl) {
  lock0();
  Block* b = B();
  int n = 0;
  bool ok = true;
  while (!b->value && ok) {
    MC_CHECK(++n < 40, "condition wait keeps returning without cause");
    ok = one_wait(timed, dl);
  }
  if (b->value) {
    b->value--;
    nreturned++;
  }
  unlock_ok(0);
}
static void do_signal(bool bcast) {
  Block* b = B();
  a0_err_t e = bcast ? a0_cnd_broadcast(&b->cnd[0], &b->mtx[0]) : a0_cnd_signal(&b->cnd[0], &b->mtx[0]);
  MC_CHECK(!e, "signalling failed (%d/%d)", e, sys(e));
  nsig++;
}
struct CndCase {
  int nwait;
  bool pure, timed, bcast, under_lock;
  int nsignallers;
  int kill;  // 1 waiters, 2 signallers
  bool mixed = false;  // the second one signals while the first one broadcasts
};
static void cnd_case(CndCase c) {
  reset();
  nreturned = nsig = 0;
  memset(ready, 0, sizeof ready);
  uint64_t dl = now_ns() + 1000000;
  if (c.timed) add_deadline(dl);
  static const char* wn[] = {"W1", "W2", "W3", "W4"};
  for (int i = 0; i < c.nwait; i++)
    spawn(i + 1, wn[i], [=] { c.pure ? pure_waiter(c.timed, dl) : token_waiter(c.timed, dl); }, MAY_BLOCK | (c.kill & 1 ? KILLABLE : 0));
  for (int i = 0; i < c.nsignallers; i++)
    spawn(5, i ? "S2" : "S1", [=] {
      if (c.pure) {
        // all waiters have unlocked inside their wait (or died)
        await([=] {
          for (int k = 1; k <= c.nwait; k++)
            if (!ready[k] && !died(k)) return false;
          return true;
        });
      }
      lock0();
      bool bc = c.bcast && !(c.mixed && i);
      if (!c.pure) B()->value += bc ? c.nwait : c.mixed ? 0 : 1;
      if (c.under_lock) {
        do_signal(bc);
        unlock_ok(0);
      } else {
        unlock_ok(0);
        do_signal(bc);
      }
    }, MAY_BLOCK | (c.kill & 2 ? KILLABLE : 0));
  run();
  int nw_dead = 0, nw_stuck = 0, s_dead = 0;
  for (int i = 1; i <= c.nwait; i++) {
    nw_dead += died(i);
    nw_stuck += blocked(i);
  }
  for (int i = c.nwait + 1; i <= c.nwait + c.nsignallers; i++) {
    s_dead += died(i);
    MC_CHECK(!blocked(i), "signaller blocked forever");
  }
  outcome(nw_dead * 100 + nw_stuck * 10 + nreturned);
  if (!s_dead) {
    MC_CHECK(nsig == c.nsignallers, "driver: signals");
    if (c.bcast) MC_CHECK(nw_stuck == 0, "%d of %d waiters sleep on after a broadcast", nw_stuck, c.nwait);
    if (!c.bcast && nw_dead == 0) {
      // every signal wakes at least one waiter, if there is one
      int want = c.nwait < c.nsignallers ? c.nwait : c.nsignallers;
      MC_CHECK(c.nwait - nw_stuck >= want, "%d signals woke only %d of %d waiters", c.nsignallers, c.nwait - nw_stuck, c.nwait);
    }
    if (!c.bcast && c.pure && c.timed) MC_CHECK(nw_stuck == 0, "a timed wait never returned");
  }
  if (c.timed) MC_CHECK(nw_stuck == 0, "a timed wait never returned");
  for (int i = 1; i <= c.nwait; i++)
    if (blocked(i)) inside[0][i] = false;
  final_usable(1);
}

// ---- M05 ---------------------------------------------------------------------------
static bool set_called, set_done;
static uint64_t set_time;
static void event_case(int nwait, int timed_mask, int nset, int kill) {
  reset();
  set_called = set_done = false;
  set_time = ~0ull;
  uint64_t dl = now_ns() + 1000000;
  if (timed_mask) add_deadline(dl);
  static const char* wn[] = {"W1", "W2", "W3"};
  memset(&B(0)->event, 0, sizeof(a0_event_t));
  for (int i = 0; i < nwait; i++) {
    bool timed = timed_mask >> i & 1;
    spawn(i + 1, wn[i], [=] {
      a0_time_mono_t t = at(dl);
      bool before = set_done;
      a0_err_t e = timed ? a0_event_timedwait(&B()->event, &t) : a0_event_wait(&B()->event);
      if (!e) MC_CHECK(set_called, "event wait returned although the event was never set");
      else {
        MC_CHECK(timed && sys(e) == ETIMEDOUT, "event wait failed with error %d/%d", e, sys(e));
        MC_CHECK(now_ns() >= dl, "event wait timed out before its deadline");
        MC_CHECK(!before && set_time >= dl, "event wait timed out although the event was set in time");
      }
      bool is = false;
      e = a0_event_is_set(&B()->event, &is);
      MC_CHECK(!e, "is_set failed %d", e);
      if (set_done) MC_CHECK(is, "a set event reads as not set");
      if (is) MC_CHECK(set_called, "event reads as set although it never was");
      outcome(is);
      if (set_done) MC_CHECK(!a0_event_wait(&B()->event), "wait on a set event failed");
    }, (kill & 1) ? KILLABLE : 0);
  }
  for (int i = 0; i < nset; i++)
    spawn(4, i ? "S2" : "S1", [=] {
      set_called = true;
      MC_CHECK(!a0_event_set(&B()->event), "event set failed");
      set_done = true;
      if (set_time == ~0ull) set_time = now_ns();
    });
  run();
}
static int latch_left, latch_pending;
static void latch_case(int init, std::vector<int> ops, int kill) {
  // op >= 0: arrive_and_wait(op) (0 = wait); op < 0: count_down(-op); 100: try_wait only
  reset();
  a0_latch_init(&B(0)->latch, init);
  latch_left = init;     // counting every started decrement
  latch_pending = init;  // counting only finished ones
  static const char* wn[] = {"A", "B", "C", "D", "E"};
  int total = init;
  for (int o : ops)
    if (o != 100) total -= o < 0 ? -o : o;
  for (size_t i = 0; i < ops.size(); i++) {
    int o = ops[i];
    spawn(i + 1, wn[i], [=] {
      a0_latch_t* l = &B()->latch;
      a0_err_t e;
      if (o == 100) {
        bool r = false, done = latch_pending <= 0;
        e = a0_latch_try_wait(l, &r);
        MC_CHECK(!e, "try_wait failed");
        if (r) MC_CHECK(latch_left <= 0, "latch reads as released while its count is %d", latch_left);
        if (done) MC_CHECK(r, "latch reads as not released after its count reached zero");
        outcome(r);
      } else if (o < 0) {
        latch_left += o;
        e = a0_latch_count_down(l, -o);
        MC_CHECK(!e, "count_down failed");
        latch_pending += o;
      } else {
        latch_left -= o;
        e = o ? a0_latch_arrive_and_wait(l, o) : a0_latch_wait(l);
        MC_CHECK(!e, "arrive_and_wait failed");
        MC_CHECK(latch_left <= 0, "latch released a waiter while its count was %d", latch_left);
      }
    }, total > 0 ? MAY_BLOCK : 0);
  }
  run();
  if (total > 0)
    for (size_t i = 0; i < ops.size(); i++)
      if (ops[i] >= 0 && ops[i] != 100) MC_CHECK(blocked(i + 1), "latch released although its count never reached zero");
}

void define_scenarios() {
  sh = make_shared(sizeof(Block), NP);
  // ---- M01
  static const char* two[][2] = {{"L", "L"}, {"L", "T"}, {"LL", "L"}, {"LL", "LL"}, {"T", "T"}, {"LT", "TL"}, {"D", "L"}, {"D", "D"}, {"DL", "LT"}};
  for (auto& q : two) {
    std::vector<const char*> v = {q[0], q[1]};
    std::string nm = std::string(q[0]) + "_" + q[1];
    int t = strchr(q[0], 'D') || strchr(q[1], 'D');
    scenario("M01", "two_" + nm, cfg(4, 0, t), cfg(6, 0, t), [=] { programs(v, 0); });
    scenario("M01", "two_" + nm + "_death", cfg(3, 1, t), cfg(4, 2, t), [=] { programs(v, 3); });
  }
  scenario("M01", "threads_LL_L", cfg(4), cfg(6), [] { programs({"LL", "L"}, 0, true); });
  scenario("M01", "three_L_L_L", cfg(4), cfg(5), [] { programs({"L", "L", "L"}, 0); });
  scenario("M01", "three_L_L_T", cfg(4), cfg(5), [] { programs({"L", "L", "T"}, 0); });
  scenario("M01", "three_L_D_L", cfg(3, 0, 1), cfg(4, 0, 1), [] { programs({"L", "D", "L"}, 0); });
  scenario("M01", "three_L_L_T_death", cfg(2, 1), cfg(3, 2), [] { programs({"L", "L", "T"}, 7); });
  scenario("M01", "three_L_D_L_death", cfg(2, 1, 1), cfg(3, 1, 1), [] { programs({"L", "D", "L"}, 7); });
  scenario("M01", "four_L_L_L_T", cfg(2), cfg(3), [] { programs({"L", "L", "L", "T"}, 0); });
  // ---- M02: deaths with several mutexes
  static const char* multi[] = {"0l1l2l0u1u2u", "0l1l2l2u1u0u", "0l1t2l1u0u2u", "0l1l0u0l1u0u", "2l0l2u1l0u1u", "0l0u0l0u", "0t1t1u0u"};
  for (auto p : multi) {
    std::string nm = p;
    scenario("M02", "alone_" + nm, cfg(0, 1), cfg(0, 2), [=] { programs({p}, 1); });
    scenario("M02", "with_waiter_" + nm, cfg(1, 1), cfg(3, 1), [=] { programs({p, "0L1L2L"}, 1); });
  }
  scenario("M02", "two_deaths_0l1l", cfg(2, 2), cfg(3, 2), [] { programs({"0l1l1u0u", "0l1l1u0u"}, 3); });
  scenario("M02", "three_L_deaths", cfg(2, 2), cfg(3, 2), [] { programs({"L", "L", "L"}, 7); });
  scenario("M02", "timed_deaths", cfg(2, 2, 1), cfg(3, 2, 1), [] { programs({"D", "L", "D"}, 7); });
  scenario("M02", "try_deaths", cfg(2, 2), cfg(3, 2), [] { programs({"T", "T", "L"}, 7); });
  scenario("M02", "cnd_waiter_death", cfg(2, 1), cfg(3, 2), [] { cnd_case({2, true, false, true, true, 1, 1}); });
  scenario("M02", "cnd_timed_waiter_death", cfg(1, 1, 1), cfg(2, 1, 1), [] { cnd_case({2, true, true, true, true, 1, 1}); });
  scenario("M02", "cnd_timed_1waiter_death", cfg(3, 1, 1), cfg(4, 1, 1), [] { cnd_case({1, true, true, true, true, 1, 1}); });
  scenario("M02", "orders", cfg(0), cfg(0), [] { orders(8, false); });
  scenario("M02", "orders_eager", cfg(0), cfg(0), [] { orders(8, true); });
  scenario("M02", "orders_deep", cfg(0), cfg(0), [] { orders(10, false); }, true);
  scenario("M02", "cnd_signaller_death", cfg(2, 1), cfg(3, 2), [] { cnd_case({2, true, false, true, true, 1, 3}); });
  // ---- M03
  scenario("M03", "contract_2users_1mutex", cfg(0), cfg(0), [] { contract(5, 2, 1); });
  scenario("M03", "contract_2users_2mutexes", cfg(0), cfg(0), [] { contract(4, 2, 2); });
  scenario("M03", "contract_3users_1mutex", cfg(0), cfg(0), [] { contract(5, 3, 1); });
  scenario("M03", "contract_deep", cfg(0), cfg(0), [] { contract(7, 2, 1); }, true);
  static const char* three[][2] = {{"T", "L"}, {"T", "D"}, {"D", "LL"}, {"TT", "LL"}, {"DD", "LT"}};
  for (auto& q : three) {
    std::vector<const char*> v = {q[0], q[1]};
    std::string nm = std::string(q[0]) + "_" + q[1];
    int t = strchr(q[0], 'D') || strchr(q[1], 'D');
    scenario("M03", "race_" + nm, cfg(4, 0, t), cfg(6, 0, t), [=] { programs(v, 0); });
    scenario("M03", "race_" + nm + "_death", cfg(2, 1, t), cfg(4, 1, t), [=] { programs(v, 3); });
  }
  scenario("M03", "race_T_T_L_death", cfg(2, 1), cfg(3, 1), [] { programs({"T", "T", "L"}, 7); });
  // ---- M04
  for (int pure = 0; pure < 2; pure++)
    for (int bc = 0; bc < 2; bc++)
      for (int ul = 0; ul < 2; ul++) {
        std::string nm = std::string(pure ? "pure" : "token") + (bc ? "_broadcast" : "_signal") + (ul ? "_locked" : "_unlocked");
        scenario("M04", nm + "_1w", cfg(4), cfg(6), [=] { cnd_case({1, !!pure, false, !!bc, !!ul, 1, 0}); });
        scenario("M04", nm + "_2w", cfg(2), cfg(4), [=] { cnd_case({2, !!pure, false, !!bc, !!ul, 1, 0}); });
        scenario("M04", nm + "_2w_2s", cfg(2), cfg(3), [=] { cnd_case({2, !!pure, false, !!bc, !!ul, 2, 0}); });
        scenario("M04", nm + "_3w", cfg(1), cfg(2), [=] { cnd_case({3, !!pure, false, !!bc, !!ul, 1, 0}); });
        scenario("M04", nm + "_2w_timed", cfg(2, 0, 1), cfg(3, 0, 1), [=] { cnd_case({2, !!pure, true, !!bc, !!ul, 1, 0}); });
        if (bc && pure) scenario("M04", nm + "_4w", cfg(1), cfg(2), [=] { cnd_case({4, true, false, true, !!ul, 1, 0}); });
        if (bc) scenario("M04", nm + "_3w_mixed", cfg(1), cfg(2), [=] { cnd_case({3, !!pure, false, !!bc, !!ul, 2, 0, true}); });
        if (bc) scenario("M04", nm + "_2w_death", cfg(1, 1), cfg(2, 2), [=] { cnd_case({2, !!pure, false, !!bc, !!ul, 1, 1}); });
      }
  // ---- M05
  scenario("M05", "event_1w_1s", cfg(4), cfg(6), [] { event_case(1, 0, 1, 0); });
  scenario("M05", "event_2w_1s", cfg(3), cfg(4), [] { event_case(2, 0, 1, 0); });
  scenario("M05", "event_2w_2s", cfg(2), cfg(3), [] { event_case(2, 0, 2, 0); });
  scenario("M05", "event_3w_1s", cfg(2), cfg(3), [] { event_case(3, 0, 1, 0); });
  scenario("M05", "event_timed_1w_1s", cfg(3, 0, 1), cfg(4, 0, 1), [] { event_case(1, 1, 1, 0); });
  scenario("M05", "event_timed_2w_1s", cfg(2, 0, 1), cfg(3, 0, 1), [] { event_case(2, 1, 1, 0); });
  scenario("M05", "event_timed_2w_0s", cfg(2, 0, 1), cfg(3, 0, 1), [] { event_case(2, 3, 0, 0); });
  scenario("M05", "event_2w_1s_waiter_dies", cfg(2, 1), cfg(3, 1), [] { event_case(2, 0, 1, 1); });
  scenario("M05", "latch_4waiters_arrive", cfg(1), cfg(2), [] { latch_case(1, {0, 0, 0, 0, 1}, 0); });
  scenario("M05", "latch_4waiters_count", cfg(1), cfg(2), [] { latch_case(1, {0, 0, 0, 0, -1}, 0); });
  struct L { int init; std::vector<int> ops; };
  static std::vector<L> ls = {{1, {0, -1}}, {2, {1, 1}}, {2, {0, -1, -1}}, {3, {1, 1, 1}}, {2, {0, 0, -2}}, {3, {2, -1, 100}}, {1, {0, 100, -2}}, {0, {0, 0}}, {2, {0, -1}}, {3, {1, 1}}, {2, {1, -1, 0}}, {-1, {0, 100}}};
  for (size_t i = 0; i < ls.size(); i++) {
    bool small = ls[i].ops.size() == 2;
    scenario("M05", "latch_" + std::to_string(i), cfg(small ? 4 : 3), cfg(small ? 6 : 4), [=] { latch_case(ls[i].init, ls[i].ops, 0); });
  }
}
