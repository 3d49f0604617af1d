// Deadman switches under the controlled scheduler.
#include "simtopic.h"

#include <a0/deadman.h>
#include <a0/deadman_mtx.h>
#include <a0/mtx.h>

#include <cerrno>
using namespace mc;

typedef a0_deadman_mtx_t DM;
static Shared sh;
static const int NP = 6;
static DM* hnd[6];  // one handle per process (shared by its threads)

static a0_deadman_mtx_shared_token_t* ST(int p) { return (a0_deadman_mtx_shared_token_t*)sh.at(p); }
static DM* H() { return hnd[cur_proc()]; }
static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
static bool took(a0_err_t e) { return !e || sys(e) == EOWNERDEAD; }
static a0_time_mono_t at(uint64_t ns) {
  a0_time_mono_t t;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}

static int ev;  // driver event counter
struct Taking {
  int user;
  uint64_t tkn;
  int rel_started, rel_done;  // event numbers, 0: not yet
};
static std::vector<Taking> takings;
static int holder;
static bool inside[16], accounted[16];
static int going[16];
struct Seen {
  uint64_t tkn;
  int start;
  int tid;  // 0: not told
};
static std::vector<Seen> seen;  // what wait-for-taken observers were told
static uint64_t dl;

static void reset(int nproc = NP) {
  ev = 0;
  takings.clear();
  seen.clear();
  holder = 0;
  memset(inside, 0, sizeof inside);
  memset(accounted, 0, sizeof accounted);
  memset(going, 0, sizeof going);
  for (int p = 0; p < nproc; p++) MC_CHECK(!a0_deadman_mtx_init(hnd[p], ST(p)), "init failed");
  dl = now_ns() + 1000000;
}
static bool dead_inside() {
  for (int i = 1; i < 16; i++)
    if (inside[i] && died(i)) return true;
  return false;
}

// The calling user got the switch with result e.
static void got(a0_err_t e) {
  int h = holder;
  MC_CHECK(!h || died(h), "two users hold the switch: user %d took it while user %d holds it", self(), h);
  bool must = h && died(h) && !accounted[h];
  int cand = 0;
  for (int i = 1; i < 16; i++)
    if (i != self() && inside[i] && died(i) && !accounted[i]) cand = i;
  if (sys(e) == EOWNERDEAD) {
    MC_CHECK(cand, "told of a dead holder although nobody died");
    accounted[must ? h : cand] = true;
  } else {
    MC_CHECK(!must, "the previous holder died, but the new holder was not told");
  }
  holder = self();
  a0_deadman_mtx_state_t s;
  MC_CHECK(!a0_deadman_mtx_state(H(), &s), "state failed");
  MC_CHECK(s.is_locked && s.is_owner && (int)s.owner_tid == tid_of(self()), "the holder's state does not say it holds the switch (locked %d owner %d tid %d)", s.is_locked, s.is_owner, (int)s.owner_tid);
  for (auto& t : takings) MC_CHECK(t.tkn != s.tkn, "token %lu given to two takings", (unsigned long)s.tkn);
  takings.push_back({self(), s.tkn, 0, 0});
  // re-taking is harmless
  MC_CHECK(!a0_deadman_mtx_trylock(H()), "re-taking by the holder failed");
  a0_deadman_mtx_state_t s2;
  a0_deadman_mtx_state(H(), &s2);
  MC_CHECK(s2.tkn == s.tkn && s2.is_locked && s2.is_owner, "re-taking by the holder changed the state");
  ev++;
}
static bool take(char op) {
  int other = 0;
  for (int i = 1; i < 16; i++) other |= i != self() && inside[i] && !died(i);
  int before = going[0];
  inside[self()] = true;
  going[0]++;
  a0_err_t e;
  a0_time_mono_t t = at(dl);
  if (op == 'L') {
    e = a0_deadman_mtx_lock(H());
    MC_CHECK(took(e), "lock failed with error %d/%d", e, sys(e));
  } else if (op == 'T') {
    e = a0_deadman_mtx_trylock(H());
    if (!took(e)) {
      MC_CHECK(sys(e) == EBUSY, "trylock failed with %d/%d instead of busy", e, sys(e));
      MC_CHECK(other || going[0] != before + 1, "trylock reported busy although nobody had or wanted the switch");
    }
  } else {
    e = a0_deadman_mtx_timedlock(H(), &t);
    if (!took(e)) {
      MC_CHECK(sys(e) == ETIMEDOUT, "timed lock failed with %d/%d", e, sys(e));
      MC_CHECK(now_ns() >= dl, "timed lock timed out early");
    }
  }
  outcome(e * 1000 + sys(e));
  if (took(e)) {
    got(e);
    return true;
  }
  inside[self()] = false;
  MC_CHECK(sys(a0_deadman_mtx_unlock(H())) == EPERM, "release by a non-holder was not refused");
  return false;
}
static void release() {
  for (auto& t : takings)
    if (t.user == self() && !t.rel_started) t.rel_started = ++ev;
  holder = 0;
  a0_err_t e = a0_deadman_mtx_unlock(H());
  MC_CHECK(!e, "release by the holder failed (%d/%d)", e, sys(e));
  inside[self()] = false;
  for (auto& t : takings)
    if (t.user == self() && !t.rel_done) t.rel_done = ++ev;
}
static void taker(const char* prog) {
  bool have = false;
  for (const char* p = prog; *p; p++) {
    if (*p == 'u') {
      if (have) release();
      have = false;
    } else if (*p == '.') {
      point();
    } else {
      have = take(*p);
    }
  }
}
static bool wait_taken(bool timed, uint64_t* t) {
  int start = ++ev;
  *t = ~0ull;
  a0_time_mono_t d = at(dl);
  a0_err_t e = timed ? a0_deadman_mtx_timedwait_locked(H(), &d, t) : a0_deadman_mtx_wait_locked(H(), t);
  if (e) {
    MC_CHECK(timed && sys(e) == ETIMEDOUT, "wait for taking failed with %d/%d", e, sys(e));
    MC_CHECK(now_ns() >= dl, "wait for taking timed out early");
    return false;
  }
  seen.push_back({*t, start, 0});
  return true;
}
static bool wait_released(bool timed, uint64_t t) {
  a0_time_mono_t d = at(dl);
  a0_err_t e = timed ? a0_deadman_mtx_timedwait_unlocked(H(), &d, t) : a0_deadman_mtx_wait_unlocked(H(), t);
  if (e) {
    MC_CHECK(timed && sys(e) == ETIMEDOUT, "wait for release failed with %d/%d", e, sys(e));
    MC_CHECK(now_ns() >= dl, "wait for release timed out early");
    return false;
  }
  const Taking* k = nullptr;
  for (auto& x : takings)
    if (x.tkn == t) k = &x;
  if (k) MC_CHECK(k->rel_started || died(k->user), "told that the taking with token %lu ended while its holder still holds", (unsigned long)t);
  else MC_CHECK(dead_inside(), "told that the taking with token %lu ended before its holder had finished taking", (unsigned long)t);
  return true;
}
static void observer(int rounds, bool timed) {
  for (int i = 0; i < rounds; i++) {
    uint64_t t;
    if (!wait_taken(timed, &t)) return;
    outcome(100 + t);
    if (!wait_released(timed, t)) return;
    outcome(200 + t);
  }
}
// asks for the state, again and again
static void watcher(int rounds) {
  for (int i = 0; i < rounds; i++) {
    int start = ++ev, h = holder;
    size_t n = takings.size();
    a0_deadman_mtx_state_t s;
    MC_CHECK(!a0_deadman_mtx_state(H(), &s), "state failed");
    MC_CHECK(!s.is_owner, "the state says that a user who never took the switch holds it");
    outcome(s.is_locked);
    if (s.is_locked) seen.push_back({s.tkn, start, (int)s.owner_tid});
    else MC_CHECK(!h || h != holder || takings.size() != n || died(h), "a held switch reads as free");
  }
}
// at the end: every token an observer was told belongs to a taking that was not over
// when the observer began to wait
static void judge_seen() {
  bool unknown = false;  // a user died inside its taking call: its token is unknown
  for (int i = 1; i < 16; i++)
    if (inside[i] && died(i)) {
      bool rec = false;
      for (auto& t : takings) rec |= t.user == i && !t.rel_started;
      unknown |= !rec;
    }
  for (auto& s : seen) {
    bool ok = false;
    for (auto& t : takings)
      if (t.tkn == s.tkn && (!s.tid || s.tid == tid_of(t.user)) && (!t.rel_done || t.rel_done > s.start)) ok = true;
    MC_CHECK(ok || unknown, "an observer was told token %lu, which is not a taking of that time", (unsigned long)s.tkn);
  }
}
static void final_free() {
  // the switch is free now (or its holder dead): a newcomer can take it
  if (holder && !died(holder)) return;
  set_proc(0);
  bool must = holder && died(holder) && !accounted[holder];
  a0_err_t e = a0_deadman_mtx_trylock(hnd[0]);
  MC_CHECK(took(e), "a free switch cannot be taken (%d/%d)", e, sys(e));
  if (must) MC_CHECK(sys(e) == EOWNERDEAD, "the newcomer was not told of the holder's death");
  a0_deadman_mtx_state_t s;
  a0_deadman_mtx_state(hnd[0], &s);
  for (auto& t : takings) MC_CHECK(t.tkn != s.tkn, "token %lu given to two takings", (unsigned long)s.tkn);
  MC_CHECK(!a0_deadman_mtx_unlock(hnd[0]), "newcomer cannot release");
  a0_deadman_mtx_state(hnd[0], &s);
  MC_CHECK(!s.is_locked && !s.is_owner && !s.owner_tid, "a free switch reads as held");
}

// users: takers' programs, then observers "o" (taken, released), "oo" two rounds, "O" timed,
// "w": would-be takers are ordinary programs.
static void group(std::vector<const char*> users, int kill, int may_block = 0) {
  reset();
  static const char* nm[] = {"A", "B", "C", "D", "E"};
  bool timed = false;
  for (auto u : users) timed |= strpbrk(u, "DO") != nullptr;
  if (timed) add_deadline(dl);
  for (size_t i = 0; i < users.size(); i++) {
    const char* u = users[i];
    spawn(i + 1, nm[i], [=] {
      if (*u == 'o') observer(strlen(u), false);
      else if (*u == 'O') observer(strlen(u), true);
      else if (*u == 's') watcher(strlen(u));
      else taker(u);
    }, (kill >> i & 1 ? KILLABLE : 0) | (may_block >> i & 1 ? MAY_BLOCK : 0));
  }
  run();
  judge_seen();
  // observers that are allowed to block: right only if the switch is not held by a live user
  // (waiting for a taking), i.e. everything they wait for has not happened
  for (size_t i = 0; i < users.size(); i++)
    if (blocked(i + 1)) {
      bool is_obs = *users[i] == 'o' || *users[i] == 'O';
      bool live = holder && !died(holder);
      outcome(500 + i);
      if (is_obs) {
        int told = 0;
        // an observer blocks either for a taking (fine if nobody holds) or for a release
        // (fine if the holder it was told about still holds)
        (void)told;
        uint64_t last = 0;
        bool in_release = false;
        (void)last;
        (void)in_release;
        if (live) {
          bool knows = false;
          for (auto& t : takings)
            if (t.user == holder && !t.rel_started)
              for (auto& s : seen) knows |= s.tkn == t.tkn;
          MC_CHECK(knows, "%s sleeps although the switch is held", nm[i]);
        }
      } else {
        MC_CHECK(live, "%s waits for a switch that is free", nm[i]);
      }
    }
  final_free();
}

// An observer that knows a token already waits for its release; many of them.
static void release_watch(int n, int kill_holder, int taker_after, int kill_obs, bool keep = false) {
  reset();
  static bool held;
  held = false;
  static uint64_t tok;
  static const char* nm[] = {"O1", "O2", "O3"};
  spawn(1, "H", [=] {
    taker("L");
    tok = takings.back().tkn;
    held = true;
    point();
    if (!(kill_holder & 2)) release();
    else await([] { return false; });
  }, (kill_holder & 1 ? KILLABLE : 0) | MAY_BLOCK);
  for (int i = 0; i < n; i++)
    spawn(i + 2, nm[i], [=] {
      await([=] { return held || died(1); });
      if (!held) return;
      wait_released(false, tok);
    }, MAY_BLOCK | (kill_obs ? KILLABLE : 0));
  for (int i = 0; i < taker_after; i++)
    spawn(n + 2 + i, i ? "T2" : "T1", [=] { taker(keep ? "L" : "Lu"); }, MAY_BLOCK);
  run();
  bool live = holder == 1 && !died(1);
  bool kept = holder > n + 1;
  for (int i = 2; i < n + 2 + taker_after; i++)
    if (blocked(i)) MC_CHECK(live || (kept && (i > n + 1 || !held)), "%s", i < n + 2 ? "an observer sleeps on although the holder is gone" : "a would-be holder sleeps on although the switch is free");
  if (!live && !kept) final_free();
}

// every sequence of operations, one at a time
static void contract(int depth, int nu) {
  reset();
  struct Step { int u, op; };
  static Step plan[10];
  static int pos, own;
  static uint64_t lasttok;
  pos = own = 0;
  lasttok = 0;
  for (int i = 0; i < depth; i++) {
    plan[i].u = i ? choose(nu) + 1 : 1;
    plan[i].op = choose(6);
  }
  static std::vector<uint64_t> toks;
  toks.clear();
  for (int u = 1; u <= nu; u++)
    spawn(u, u == 1 ? "A" : u == 2 ? "B" : "C", [=] {
      while (true) {
        await([=] { return pos >= depth || plan[pos].u == u; });
        if (pos >= depth) return;
        Atomic quiet;
        DM* d = H();
        a0_err_t e = A0_OK;
        a0_time_mono_t t = at(now_ns() + 1000);
        a0_deadman_mtx_state_t s;
        auto check_take = [&](int busy) {
          if (own == u) MC_CHECK(!e, "re-taking failed (%d/%d)", e, sys(e));
          else if (own) MC_CHECK(sys(e) == busy, "taking a held switch: %d/%d", e, sys(e));
          else {
            MC_CHECK(!e, "taking a free switch: %d/%d", e, sys(e));
            own = u;
            a0_deadman_mtx_state(d, &s);
            for (auto k : toks) MC_CHECK(k != s.tkn, "token %lu reused", (unsigned long)s.tkn);
            toks.push_back(s.tkn);
          }
        };
        switch (plan[pos].op) {
          case 0: e = a0_deadman_mtx_trylock(d); check_take(EBUSY); break;
          case 1:
            if (own && own != u) { e = a0_deadman_mtx_trylock(d); check_take(EBUSY); }
            else { e = a0_deadman_mtx_lock(d); check_take(0); }
            break;
          case 2: e = a0_deadman_mtx_timedlock(d, &t); check_take(ETIMEDOUT); break;
          case 3:
            e = a0_deadman_mtx_unlock(d);
            if (own == u) { MC_CHECK(!e, "release failed %d/%d", e, sys(e)); own = 0; }
            else MC_CHECK(sys(e) == EPERM, "release by a non-holder: %d/%d", e, sys(e));
            break;
          case 4: {
            uint64_t k = 77;
            e = a0_deadman_mtx_timedwait_locked(d, &t, &k);
            if (own) MC_CHECK(!e && k == toks.back(), "wait for taking of a held switch: %d/%d token %lu", e, sys(e), (unsigned long)k);
            else MC_CHECK(sys(e) == ETIMEDOUT, "wait for taking of a free switch: %d/%d", e, sys(e));
            break;
          }
          case 5:
            if (!toks.empty()) {
              e = a0_deadman_mtx_timedwait_unlocked(d, &t, toks.back());
              if (own) MC_CHECK(sys(e) == ETIMEDOUT, "wait for release of a held switch: %d/%d", e, sys(e));
              else MC_CHECK(!e, "wait for release of a free switch: %d/%d", e, sys(e));
              for (size_t i = 0; i + 1 < toks.size(); i++) MC_CHECK(!a0_deadman_mtx_timedwait_unlocked(d, &t, toks[i]), "wait for the end of an earlier taking did not return");
            }
            break;
        }
        MC_CHECK(!a0_deadman_mtx_state(d, &s), "state failed");
        MC_CHECK(s.is_locked == (own != 0) && s.is_owner == (own == u) && (int)s.owner_tid == (own ? tid_of(own) : 0) && s.tkn == (own ? toks.back() : 0), "state (locked %d, mine %d, tid %d, token %lu) does not match who holds the switch", s.is_locked, s.is_owner, (int)s.owner_tid, (unsigned long)s.tkn);
        outcome(e * 1000 + sys(e));
        pos++;
      }
    });
  run();
}

// ---- D03 ------------------------------------------------------------------------
// proc 1: thread A blocks in `op` on the handle, thread S shuts the same handle down.
// proc 2: another user with its own handle.
static bool sd_called, sd_returned, a_in, a_slept;
static void shutdown_case(char op, const char* other, const char* other2, int kill_other) {
  reset();
  sd_called = sd_returned = false;
  a_in = a_slept = false;
  static bool kept;
  kept = false;
  uint64_t tok0 = 0;
  if (op == 'R' || op == 'H') {
    // somebody (process 5, user 0) holds the switch all along
    set_proc(5);
    MC_CHECK(!a0_deadman_mtx_lock(hnd[5]), "setup");
    a0_deadman_mtx_state_t s;
    a0_deadman_mtx_state(hnd[5], &s);
    tok0 = s.tkn;
    kept = true;
    set_proc(0);
  }
  add_deadline(dl);
  spawn(1, "A", [=] {
    a0_err_t e = A0_OK;
    uint64_t t;
    a_in = true;
    bool later = sd_returned;
    inside[self()] = op == 'L' || op == 'H' || op == 'D';
    going[0]++;
    a0_time_mono_t d = at(dl);
    switch (op) {
      case 'L': case 'H': e = a0_deadman_mtx_lock(H()); break;
      case 'D': e = a0_deadman_mtx_timedlock(H(), &d); break;
      case 'W': e = a0_deadman_mtx_wait_locked(H(), &t); break;
      case 'R': e = a0_deadman_mtx_wait_unlocked(H(), tok0); break;
    }
    a_in = false;
    outcome(e * 1000 + sys(e));
    bool taking = op == 'L' || op == 'H' || op == 'D';
    if (taking && took(e)) {
      MC_CHECK(!later, "a taking after shutdown was not refused");
      MC_CHECK(!kept, "took a held switch");
      if (!kept) got(e);
      release();
    } else if (e) {
      MC_CHECK(sys(e) == ESHUTDOWN || (op == 'D' && sys(e) == ETIMEDOUT && now_ns() >= dl), "blocked call returned %d/%d instead of shutdown", e, sys(e));
      if (sys(e) == ESHUTDOWN) MC_CHECK(sd_called, "shutdown reported before it was requested");
      if (taking) inside[self()] = false;
    } else {
      if (op == 'R') fail("wait for release returned although the holder still holds");
      if (op == 'W') MC_CHECK(!takings.empty() || going[0] > 0, "wait for taking returned although nobody took the switch");
    }
    // later takings are refused
    if (sd_returned) {
      e = a0_deadman_mtx_trylock(H());
      MC_CHECK(sys(e) == ESHUTDOWN, "a taking after shutdown returned %d/%d", e, sys(e));
    }
  });
  spawn(1, "S", [=] {
    sd_called = true;
    a_slept = a_in && asleep(1);
    a0_err_t e = a0_deadman_mtx_shutdown(H());
    MC_CHECK(!e, "shutdown failed");
    MC_CHECK(!a_slept || !a_in, "shutdown returned while the call it found blocked had not returned");
    sd_returned = true;
  });
  if (other) spawn(2, "B", [=] { *other == 'o' ? observer(strlen(other), false) : taker(other); }, MAY_BLOCK | (kill_other ? KILLABLE : 0));
  if (other2) spawn(3, "C", [=] { *other2 == 'o' ? observer(strlen(other2), false) : taker(other2); }, MAY_BLOCK);
  run();
  for (int i = 3; i < 3 + !!other + !!other2; i++)
    if (blocked(i)) {
      const char* pr = i == 3 ? other : other2;
      bool live = (holder && !died(holder)) || kept;
      if (*pr != 'o') MC_CHECK(live, "a user of another handle waits for a switch that is free");
    }
  if (!kept) final_free();
}

// ---- through topics ---------------------------------------------------------------
static a0_deadman_t* dmh[6];
static int closed_by[6];
static const a0_deadman_topic_t tp = {"t"};
static void topic_reset() {
  sim::reset(sizeof(a0_deadman_mtx_shared_token_t));
  memset(closed_by, 0, sizeof closed_by);
  holder = 0;
  dl = now_ns() + 1000000;
}
static void topic_free(const char* what) {
  set_proc(0);
  MC_CHECK(!a0_deadman_init(dmh[0], tp), "opening failed");
  a0_err_t e = a0_deadman_trytake(dmh[0]);
  MC_CHECK(!e, "%s: a newcomer gets %d/%d instead of the switch", what, e, sys(e));
  a0_deadman_state_t s;
  MC_CHECK(!a0_deadman_state(dmh[0], &s) && s.is_locked && s.is_owner, "a newcomer's state is wrong");
  MC_CHECK(!a0_deadman_close(dmh[0]), "closing failed");
  MC_CHECK(!sim::nopen, "a closed switch keeps its file open");
  MC_CHECK(!a0_deadman_init(dmh[0], tp) && !a0_deadman_state(dmh[0], &s), "reopening failed");
  MC_CHECK(!s.is_locked && !s.is_owner && !s.owner_tid && !s.tkn, "closing left the switch held");
  MC_CHECK(!a0_deadman_close(dmh[0]), "closing failed");
}
// every sequence of operations by two or three users, each with a handle on the same topic
static void topic_contract(int depth, int nu) {
  topic_reset();
  static int pu[10], po[10], pos, own;
  static std::vector<uint64_t> toks;
  toks.clear();
  pos = own = 0;
  for (int i = 0; i < depth; i++) {
    pu[i] = i ? choose(nu) + 1 : 1;
    po[i] = choose(7);
  }
  for (int u = 1; u <= nu; u++)
    spawn(u, u == 1 ? "A" : u == 2 ? "B" : "C", [=] {
      bool open = false;
      a0_deadman_t* d = dmh[u];
      while (true) {
        await([=] { return pos >= depth || pu[pos] == u; });
        if (pos >= depth) {
          if (open) MC_CHECK(!a0_deadman_close(d), "closing failed");
          return;
        }
        Atomic quiet;
        if (!open) MC_CHECK(!a0_deadman_init(d, tp), "opening failed");
        open = true;
        a0_err_t e = A0_OK;
        a0_time_mono_t t = at(now_ns() + 1000);
        a0_deadman_state_t s;
        auto take = [&](int busy) {
          if (own == u) MC_CHECK(!e, "re-taking failed (%d/%d)", e, sys(e));
          else if (own) MC_CHECK(sys(e) == busy, "taking a held switch: %d/%d", e, sys(e));
          else {
            MC_CHECK(!e, "taking a free switch: %d/%d", e, sys(e));
            own = u;
            a0_deadman_state(d, &s);
            for (auto k : toks) MC_CHECK(k != s.tkn, "token %lu reused", (unsigned long)s.tkn);
            toks.push_back(s.tkn);
          }
        };
        switch (po[pos]) {
          case 0: e = a0_deadman_trytake(d); take(EBUSY); break;
          case 1:
            if (own && own != u) break;
            e = a0_deadman_take(d);
            take(0);
            break;
          case 2: e = a0_deadman_timedtake(d, &t); take(ETIMEDOUT); break;
          case 3:
            e = a0_deadman_release(d);
            if (own == u) { MC_CHECK(!e, "release failed %d/%d", e, sys(e)); own = 0; }
            else MC_CHECK(sys(e) == EPERM, "release by a non-holder: %d/%d", e, sys(e));
            break;
          case 4: {
            uint64_t k = 77;
            e = own ? a0_deadman_wait_taken(d, &k) : a0_deadman_timedwait_taken(d, &t, &k);
            if (own) MC_CHECK(!e && k == toks.back(), "wait for taking of a held switch: %d/%d token %lu", e, sys(e), (unsigned long)k);
            else MC_CHECK(sys(e) == ETIMEDOUT, "wait for taking of a free switch: %d/%d", e, sys(e));
            break;
          }
          case 5:
            if (toks.empty()) break;
            e = own ? a0_deadman_timedwait_released(d, &t, toks.back()) : a0_deadman_wait_released(d, toks.back());
            if (own) MC_CHECK(sys(e) == ETIMEDOUT, "wait for release of a held switch: %d/%d", e, sys(e));
            else MC_CHECK(!e, "wait for release of a free switch: %d/%d", e, sys(e));
            break;
          case 6:
            e = a0_deadman_close(d);
            MC_CHECK(!e, "closing failed: %d/%d", e, sys(e));
            open = false;
            if (own == u) own = 0;
            break;
        }
        if (open) {
          MC_CHECK(!a0_deadman_state(d, &s), "state failed");
          MC_CHECK(s.is_locked == (own != 0) && s.is_owner == (own == u) && (int)s.owner_tid == (own ? tid_of(own) : 0) && s.tkn == (own ? toks.back() : 0), "state (locked %d, mine %d, tid %d, token %lu) does not match who holds the switch", s.is_locked, s.is_owner, (int)s.owner_tid, (unsigned long)s.tkn);
        }
        outcome(e * 1000 + sys(e));
        pos++;
      }
    });
  run();
  topic_free("after every handle was closed");
}
// process 1: thread A uses a handle (take, wait for a taking, or holds it already), thread C closes it;
// process 2: another user with a handle of its own: takes and releases, waits for a release, or holds.
static void close_case(char op, const char* other) {
  topic_reset();
  static bool c_began, c_done;
  static int b_has;
  static uint64_t tok;
  c_began = c_done = false;
  b_has = 0;
  tok = 0;
  set_proc(1);
  MC_CHECK(!a0_deadman_init(dmh[1], tp), "opening failed");
  set_proc(2);
  if (other) MC_CHECK(!a0_deadman_init(dmh[2], tp), "opening failed");
  if (other && *other == 'k') {
    MC_CHECK(!a0_deadman_take(dmh[2]), "taking failed");
    b_has = 2;
  }
  set_proc(1);
  if (op == 'H') {
    MC_CHECK(!a0_deadman_take(dmh[1]), "taking failed");
    a0_deadman_state_t s;
    a0_deadman_state(dmh[1], &s);
    tok = s.tkn;
  }
  set_proc(0);
  add_deadline(dl);
  if (op != 'H')
    spawn(1, "A", [=] {
      a0_err_t e = A0_OK;
      if (c_began) return;
      if (op == 'L') e = a0_deadman_take(dmh[1]);
      else if (op == 'W') e = a0_deadman_wait_taken(dmh[1], nullptr);
      outcome(1 + sys(e));
      MC_CHECK(!e || (sys(e) == ESHUTDOWN && c_began), "a call blocked on a handle returned %d/%d", e, sys(e));
      if (op == 'L' && !e) MC_CHECK(b_has != 2, "two users hold the switch");
    });
  spawn(1, "C", [=] {
    if (op != 'H') await([=] { return finished(1) || asleep(1); });
    c_began = true;
    a0_err_t e = a0_deadman_close(dmh[1]);
    MC_CHECK(!e, "closing failed: %d/%d", e, sys(e));
    c_done = true;
  });
  if (other)
    spawn(2, "B", [=] {
      for (const char* p = other; *p; p++) {
        if (*p == 'L') {
          a0_err_t e = a0_deadman_take(dmh[2]);
          MC_CHECK(!e, "taking failed: %d/%d", e, sys(e));
          b_has = 2;
        } else if (*p == 'u') {
          b_has = 0;
          MC_CHECK(!a0_deadman_release(dmh[2]), "release failed");
        } else if (*p == 'r') {
          MC_CHECK(!a0_deadman_wait_released(dmh[2], tok), "wait for release failed");
          MC_CHECK(c_began, "told that a taking ended while its holder still holds");
        } else if (*p == 'c') {
          b_has = 0;
          MC_CHECK(!a0_deadman_close(dmh[2]), "closing failed");
        }
      }
    });
  run();
  MC_CHECK(!sim::nopen, "a closed switch keeps its file open");
  topic_free("after its holder closed the switch");
}

void define_scenarios() {
  sim::setup(4096);
  for (int i = 0; i < 6; i++) dmh[i] = (a0_deadman_t*)make_handle(sizeof(a0_deadman_t));
  scenario("D03", "topic_contract_2", cfg(0), cfg(0), [] { topic_contract(4, 2); });
  scenario("D03", "topic_contract_3", cfg(0), cfg(0), [] { topic_contract(4, 3); });
  scenario("D03", "topic_contract_2_deep", cfg(0), cfg(0), [] { topic_contract(6, 2); }, true);
  scenario("D03", "close_held", cfg(3), cfg(5), [] { close_case('H', "Luc"); });
  scenario("D03", "close_held_watched", cfg(3), cfg(5), [] { close_case('H', "rc"); });
  scenario("D03", "close_taking", cfg(3), cfg(4), [] { close_case('L', "kuc"); });
  scenario("D03", "close_taking_other_closes", cfg(3), cfg(4), [] { close_case('L', "kc"); });
  scenario("D03", "close_taking_race", cfg(3), cfg(4), [] { close_case('L', "Luc"); });
  scenario("D03", "close_waiting", cfg(3), cfg(4), [] { close_case('W', "Lc"); });
  scenario("D03", "close_waiting_alone", cfg(4), cfg(6), [] { close_case('W', nullptr); });
  sh = make_shared(sizeof(a0_deadman_mtx_shared_token_t), NP);
  for (int i = 0; i < NP; i++) hnd[i] = (DM*)make_handle(sizeof(DM));
  // ---- D01
  static const char* two[][2] = {{"Lu", "Lu"}, {"Tu", "Tu"}, {"LuLu", "Lu"}, {"Lu", "TuTu"}, {"Du", "Lu"}, {"L.u", "Du"}, {"LuTu", "DuLu"}};
  for (auto& q : two) {
    std::vector<const char*> v = {q[0], q[1]};
    std::string nm = std::string(q[0]) + "_" + q[1];
    int t = strchr(q[0], 'D') || strchr(q[1], 'D');
    scenario("D01", "two_" + nm, cfg(4, 0, t), cfg(6, 0, t), [=] { group(v, 0); });
    scenario("D01", "two_" + nm + "_death", cfg(3, 1, t), cfg(4, 2, t), [=] { group(v, 3); });
  }
  scenario("D01", "three_L_L_L", cfg(3), cfg(4), [] { group({"Lu", "Lu", "Lu"}, 0); });
  scenario("D01", "three_L_T_L_death", cfg(2, 1), cfg(3, 2), [] { group({"Lu", "Tu", "Lu"}, 7); });
  scenario("D01", "taker_watcher", cfg(4), cfg(6), [] { group({"Lu", "ss"}, 0); });
  scenario("D01", "retaker_watcher", cfg(3), cfg(5), [] { group({"LuLu", "ss"}, 0); });
  scenario("D01", "2takers_watcher", cfg(3), cfg(4), [] { group({"Lu", "Lu", "ss"}, 0); });
  scenario("D01", "2takers_watcher_death", cfg(2, 1), cfg(3, 1), [] { group({"Lu", "Lu", "ss"}, 3); });
  scenario("D01", "contract_2", cfg(0), cfg(0), [] { contract(5, 2); });
  scenario("D01", "contract_3", cfg(0), cfg(0), [] { contract(4, 3); });
  scenario("D01", "contract_2_deep", cfg(0), cfg(0), [] { contract(6, 2); }, true);
  // ---- D02
  scenario("D02", "taker_observer", cfg(4), cfg(6), [] { group({"L.u", "o"}, 0, 2); });
  scenario("D02", "taker_observer_held", cfg(4), cfg(6), [] { group({"L", "o"}, 0, 2); });
  scenario("D02", "taker2_observer2rounds", cfg(3), cfg(5), [] { group({"LuLu", "oo"}, 0, 2); });
  scenario("D02", "taker_2observers", cfg(3), cfg(4), [] { group({"Lu", "o", "o"}, 0, 6); });
  scenario("D02", "taker_2observers_held", cfg(3), cfg(4), [] { group({"L", "o", "o"}, 0, 6); });
  scenario("D02", "2takers_observer", cfg(3), cfg(4), [] { group({"Lu", "Lu", "o"}, 0, 4); });
  scenario("D02", "2takers_observer_2rounds", cfg(2), cfg(3), [] { group({"Lu", "Lu", "oo"}, 0, 4); });
  scenario("D02", "3takers", cfg(3), cfg(4), [] { group({"Lu", "Lu", "Lu"}, 0, 0); });
  scenario("D02", "taker_timed_observer", cfg(3, 0, 1), cfg(4, 0, 1), [] { group({"L.u", "O"}, 0, 0); });
  scenario("D02", "taker_observer_death", cfg(3, 1), cfg(4, 2), [] { group({"Lu", "o"}, 1, 2); });
  scenario("D02", "2takers_death", cfg(3, 1), cfg(4, 2), [] { group({"Lu", "Lu"}, 3, 0); });
  scenario("D02", "2takers_observer_death", cfg(2, 1), cfg(3, 1), [] { group({"Lu", "Lu", "o"}, 7, 4); });
  scenario("D02", "3takers_death", cfg(2, 1), cfg(3, 1), [] { group({"L", "Lu", "Lu"}, 1, 6); });
  scenario("D02", "taker_2observers_death", cfg(2, 1), cfg(3, 1), [] { group({"Lu", "o", "o"}, 1, 6); });
  scenario("D02", "timed_taker_death", cfg(2, 1, 1), cfg(3, 1, 1), [] { group({"L", "Du", "Lu"}, 1, 7); });
  scenario("D02", "release_2observers", cfg(3), cfg(4), [] { release_watch(2, 0, 0, 0); });
  scenario("D02", "release_2observers_taker", cfg(2), cfg(3), [] { release_watch(2, 0, 1, 0); });
  scenario("D02", "release_2observers_keeper", cfg(2), cfg(3), [] { release_watch(2, 0, 1, 0, true); });
  scenario("D02", "release_2observers_observer_dies", cfg(2, 1), cfg(3, 1), [] { release_watch(2, 0, 0, 1); });
  scenario("D02", "death_2observers", cfg(3, 1), cfg(4, 1), [] { release_watch(2, 1, 0, 0); });
  scenario("D02", "death_blocked_2observers", cfg(2, 1), cfg(3, 1), [] { release_watch(2, 3, 0, 0); });
  scenario("D02", "death_3observers", cfg(2, 1), cfg(3, 1), [] { release_watch(3, 1, 0, 0); });
  scenario("D02", "death_2observers_taker", cfg(2, 1), cfg(3, 1), [] { release_watch(2, 1, 1, 0); });
  scenario("D02", "death_1observer_2takers", cfg(2, 1), cfg(3, 1), [] { release_watch(1, 1, 2, 0); });
  scenario("D02", "death_2observers_observer_dies", cfg(1, 2), cfg(2, 2), [] { release_watch(2, 1, 1, 1); });
  // ---- D03
  for (char op : {'L', 'H', 'D', 'W', 'R'}) {
    std::string nm(1, op);
    int t = op == 'D';
    scenario("D03", "alone_" + nm, cfg(4, 0, t), cfg(6, 0, t), [=] { shutdown_case(op, nullptr, nullptr, 0); });
    if (op == 'L' || op == 'D' || op == 'W') {
      scenario("D03", "taker_" + nm, cfg(3, 0, t), cfg(4, 0, t), [=] { shutdown_case(op, "Lu", nullptr, 0); });
      scenario("D03", "holder_" + nm, cfg(3, 0, t), cfg(4, 0, t), [=] { shutdown_case(op, "L", nullptr, 0); });
      scenario("D03", "taker_observer_" + nm, cfg(2, 0, t), cfg(3, 0, t), [=] { shutdown_case(op, "Lu", "o", 0); });
      scenario("D03", "two_takers_" + nm, cfg(2, 0, t), cfg(3, 0, t), [=] { shutdown_case(op, "Lu", "Lu", 0); });
      scenario("D03", "taker_dies_" + nm, cfg(1, 1, t), cfg(3, 1, t), [=] { shutdown_case(op, "Lu", "Lu", 1); });
    }
  }
}
