// Conformance of the simulated futexes with the kernel's own: every sequence of futex
// operations and deaths of three users within a depth is performed on both, one operation
// after another, and compared (results, errors, words, who sleeps). Run by
// tools/kconf.sh; no check depends on it.
#include "harness.h"

#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
extern "C" long mc_syscall(long n, long a, long b, long c, long d, long e, long f);
extern char** environ;

static const int NU = 3;
struct Robust { void* next; long off; void* pending; };
struct Link { void* next; };
struct Words {
  uint32_t m, c;       // a priority-inheritance mutex, a condition
  Link link;           // robust-list entry of m
};
// ---- one operation, on either kernel ----
enum { LOCK, LOCK_LATE, TRY, UNLOCK, CAS, CASUN, WAITM, WAIT, WAIT_OLD, WAKE1, WAKEALL, WAKEM, WREQ, WREQ_LATE, REQ0, REQ1, REQALL, REQ_OLD, DIE, DIE_PENDING, CASX, UNX, WAITMW, NOPS };
static const char* ON[] = {"lock_pi", "lock_pi(late)", "trylock_pi", "unlock_pi", "cas0", "cas-unlock", "wait(m)", "wait(c)", "wait(c,old)", "wake(c,1)", "wake(c,all)", "wake(m,all)", "wait_requeue", "wait_requeue(late)", "cmp_requeue(0)", "cmp_requeue(1)", "cmp_requeue(all)", "cmp_requeue(old)", "die", "die(pending)", "cas", "unlock", "wait(m,waiters)"};
static bool plain;  // m is an ordinary futex on the robust list, not a priority-inheritance one
template <class F>
static long perform(int op, Words* w, Robust* r, uint32_t tid, struct timespec* late, int* err, F futex) {
  long x = 0;
  errno = 0;
  auto owned = [&] { return (w->m & FUTEX_TID_MASK) == tid; };
  void* entry = (void*)((uint64_t)&w->link | !plain);
  switch (op) {
    case LOCK: case LOCK_LATE:
      r->pending = entry;
      x = futex(&w->m, op == LOCK ? FUTEX_LOCK_PI2 : FUTEX_LOCK_PI2, 0, op == LOCK ? nullptr : late, nullptr, 0);
      break;
    case TRY: x = futex(&w->m, FUTEX_TRYLOCK_PI, 0, nullptr, nullptr, 0); break;
    case UNLOCK: x = futex(&w->m, FUTEX_UNLOCK_PI, 0, nullptr, nullptr, 0); break;
    case CAS: { uint32_t z = 0; x = __atomic_compare_exchange_n(&w->m, &z, tid, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); break; }
    case CASUN: { uint32_t z = tid; x = __atomic_compare_exchange_n(&w->m, &z, 0, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); break; }
    case CASX: if (!(w->m & FUTEX_TID_MASK)) w->m = (w->m & FUTEX_WAITERS) | tid, x = 1; break;
    case UNX: if (owned()) w->m &= FUTEX_WAITERS, x = 1; break;
    case WAITMW: w->m |= FUTEX_WAITERS; x = futex(&w->m, FUTEX_WAIT, w->m, nullptr, nullptr, 0); break;
    case DIE_PENDING: r->pending = entry; return 0;
    case DIE: return 0;
    case WAITM: x = futex(&w->m, FUTEX_WAIT, w->m, nullptr, nullptr, 0); break;
    case WAIT: x = futex(&w->c, FUTEX_WAIT, w->c, nullptr, nullptr, 0); break;
    case WAIT_OLD: x = futex(&w->c, FUTEX_WAIT, w->c - 1, nullptr, nullptr, 0); break;
    case WAKE1: x = futex(&w->c, FUTEX_WAKE, 1, nullptr, nullptr, 0); break;
    case WAKEALL: x = futex(&w->c, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); break;
    case WAKEM: x = futex(&w->m, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); break;
    case WREQ: case WREQ_LATE:
      r->pending = entry;
      x = futex(&w->c, FUTEX_WAIT_REQUEUE_PI, w->c, op == WREQ ? nullptr : late, &w->m, 0);
      break;
    case REQ0: case REQ1: case REQALL: case REQ_OLD: {
      long n = op == REQ0 ? 0 : op == REQ1 ? 1 : INT_MAX;
      w->c++;
      x = futex(&w->c, FUTEX_CMP_REQUEUE_PI, 1, (void*)n, &w->m, op == REQ_OLD ? w->c - 1 : w->c);
      break;
    }
  }
  *err = x == -1 ? errno : 0;
  r->pending = nullptr;
  // m is on the list of the one who has it
  if (owned() && r->next == r) w->link.next = r, r->next = entry;
  if (!owned() && r->next != r) r->next = r;
  return x;
}
struct Rec {
  int op, user;
  long ret[NU];
  int err[NU];
  char st[NU];  // i idle, s sleeping, d dead
  uint32_t m, c;  // thread ids replaced by 1..NU
};
static const int MAXD = 8;
static void show(const Rec* r, int n, const char* what) {
  printf("%s:\n", what);
  for (int i = 0; i < n; i++) {
    printf("  %d %-20s m=%08x c=%x ", r[i].user, ON[r[i].op], r[i].m, r[i].c);
    for (int u = 0; u < NU; u++) printf(" %c %ld/%d", r[i].st[u], r[i].ret[u], r[i].err[u]);
    printf("\n");
  }
}
// ---- the kernel's own ----
struct Ctl {
  Words w;
  struct { volatile int go, begun, done, op; long ret; int err; int tid; } u[NU];
};
static void real_user(Ctl* c, int u) {
  static Robust r;
  r.next = &r;
  r.off = (long)offsetof(Words, m) - (long)offsetof(Words, link);
  r.pending = nullptr;
  syscall(SYS_set_robust_list, &r, 24);
  struct timespec late = {1, 0};
  auto& me = c->u[u];
  me.tid = syscall(SYS_gettid);
  for (int n = 1;; n++) {
    while (me.go < n) usleep(20);
    me.begun = n;
    int err;
    long x = perform(me.op, &c->w, &r, me.tid, &late, &err, [](uint32_t* a, int op, uint32_t v, void* t, uint32_t* b, uint32_t v3) { return syscall(SYS_futex, a, op, v, t, b, v3); });
    if (me.op == DIE || me.op == DIE_PENDING) _exit(0);
    me.ret = x;
    me.err = err;
    me.done = n;
  }
}
static char pstate(int pid, int) {
  char f[64], b[512];
  snprintf(f, sizeof f, "/proc/%d/stat", pid);
  int fd = open(f, O_RDONLY);
  if (fd < 0) return 'X';
  ssize_t n = read(fd, b, sizeof b - 1);
  close(fd);
  if (n <= 0) return 'X';
  b[n] = 0;
  char* p = strrchr(b, ')');
  return p ? p[2] : 'X';
}
static void real_run(const int* user, const int* op, int n, Rec* out) {
  static Ctl* c = (Ctl*)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(c, 0, sizeof *c);
  int pid[NU], seq[NU] = {};
  bool dead[NU] = {};
  for (int u = 0; u < NU; u++) {
    pid[u] = fork();
    if (!pid[u]) real_user(c, u), _exit(0);
  }
  for (int u = 0; u < NU; u++)
    while (!c->u[u].tid) sched_yield();
  long last[NU] = {};
  int lerr[NU] = {};
  for (int i = 0; i < n; i++) {
    Rec& r = out[i];
    memset(&r, 0, sizeof r);
    r.op = op[i];
    r.user = user[i];
    auto& me = c->u[user[i]];
    me.op = op[i];
    me.go = ++seq[user[i]];
    if (op[i] == DIE || op[i] == DIE_PENDING) {
      int s;
      waitpid(pid[user[i]], &s, 0);
      dead[user[i]] = true;
    }
    // until each is idle, dead, or asleep in its operation
    for (int u = 0; u < NU; u++) {
      if (dead[u]) { r.st[u] = 'd'; continue; }
      while (true) {
        if (c->u[u].done == seq[u]) { r.st[u] = 'i'; break; }
        if (c->u[u].begun == seq[u] && c->u[u].op != LOCK_LATE && c->u[u].op != WREQ_LATE && pstate(pid[u], u) == 'S' && c->u[u].done != seq[u]) { r.st[u] = 's'; break; }
        sched_yield();
      }
    }
    // somebody woken meanwhile counts as woken
    for (int u = 0; u < NU; u++)
      if (r.st[u] == 's') {
        for (int k = 0; k < 3 && c->u[u].done != seq[u]; k++) sched_yield();
        while (c->u[u].done != seq[u] && pstate(pid[u], u) != 'S') sched_yield();
        if (c->u[u].done == seq[u]) r.st[u] = 'i';
      }
    for (int u = 0; u < NU; u++) {
      if (r.st[u] == 'i' && seq[u]) last[u] = c->u[u].ret, lerr[u] = c->u[u].err;
      r.ret[u] = r.st[u] == 'i' ? last[u] : 0;
      r.err[u] = r.st[u] == 'i' ? lerr[u] : 0;
    }
    uint32_t m = c->w.m;
    for (int u = 0; u < NU; u++)
      if ((m & FUTEX_TID_MASK) == (uint32_t)c->u[u].tid) m = (m & ~FUTEX_TID_MASK) | (u + 1);
    r.m = m;
    r.c = c->w.c;
  }
  for (int u = 0; u < NU; u++)
    if (!dead[u]) {
      kill(pid[u], SIGKILL);
      int s;
      waitpid(pid[u], &s, 0);
    }
}
static int serve() {
  int q[2 * MAXD + 1];
  Rec out[MAXD];
  while (read(0, q, sizeof q) == (ssize_t)sizeof q) {
    plain = q[0] >> 8;
    real_run(q + 1, q + 1 + MAXD, q[0] & 255, out);
    if (write(1, out, sizeof out) != (ssize_t)sizeof out) return 1;
  }
  return 0;
}
struct Start { Start() { if (getenv("KCONF_SERVE")) _exit(serve()); } } start;

static void ask(const int* user, const int* op, int n, Rec* out) {
  static int pid, in, outfd;
  if (pid != getpid()) {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) die("pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, a[0], 0);
    posix_spawn_file_actions_adddup2(&fa, b[1], 1);
    setenv("KCONF_SERVE", "1", 1);
    char* av[] = {(char*)"kconf", nullptr};
    pid_t p;
    if (posix_spawn(&p, "/proc/self/exe", &fa, nullptr, av, environ)) die("spawn");
    unsetenv("KCONF_SERVE");
    close(a[0]);
    close(b[1]);
    in = a[1];
    outfd = b[0];
    pid = getpid();
  }
  int q[2 * MAXD + 1] = {n | plain << 8};
  for (int i = 0; i < n; i++) q[1 + i] = user[i], q[1 + MAXD + i] = op[i];
  if (write(in, q, sizeof q) != (ssize_t)sizeof q) die("helper gone");
  size_t got = 0;
  while (got < sizeof(Rec) * MAXD) {
    ssize_t k = read(outfd, (char*)out + got, sizeof(Rec) * MAXD - got);
    if (k <= 0) die("helper gone");
    got += k;
  }
}

// ---- the simulated ones, and the comparison ----
static Shared sh;
static int pu[MAXD], po[MAXD], pos, issued, seqd[NU];
static bool busy[NU], alive[NU];
static long sret[NU];
static int serr[NU];
static Rec rec[MAXD], real[MAXD];
static void conf(int depth, bool pl, std::vector<int> ops) {
  plain = pl;
  pos = issued = 0;
  memset(busy, 0, sizeof busy);
  memset(sret, 0, sizeof sret);
  memset(serr, 0, sizeof serr);
  memset(seqd, 0, sizeof seqd);
  for (auto& a : alive) a = true;
  static bool over;
  over = false;
  for (int u = 0; u < NU; u++)
    spawn(u + 1, u == 0 ? "A" : u == 1 ? "B" : "C", [=] {
      Words* w = (Words*)sh.at(u + 1);
      Robust* r = (Robust*)(sh.at(u + 1) + 256 + 64 * u);
      r->next = r;
      r->off = (long)offsetof(Words, m) - (long)offsetof(Words, link);
      r->pending = nullptr;
      mc_syscall(SYS_set_robust_list, (long)r, 24, 0, 0, 0, 0);
      struct timespec late = {1, 0};
      while (true) {
        await([=] { return over || (issued > pos && pu[pos] == u); });
        if (over) return;
        int op = po[pos];
        busy[u] = true;
        pos++;
        int err;
        long x = perform(op, w, r, tid_of(u + 1), &late, &err, [](uint32_t* a, int o, uint32_t v, void* t, uint32_t* b, uint32_t v3) { return mc_syscall(SYS_futex, (long)a, o, v, (long)t, (long)b, v3); });
        if (op == DIE || op == DIE_PENDING) {
          alive[u] = false;
          perish();
        }
        sret[u] = x;
        serr[u] = err;
        busy[u] = false;
      }
    }, MAY_BLOCK);
  spawn(4, "ctl", [=] {
    int used = 0;
    for (int i = 0; i < depth; i++) {
      // whose turn: users not met yet are alike
      int cand[NU], n = 0;
      for (int u = 0; u < NU; u++)
        if (!busy[u] && alive[u] && u <= used) cand[n++] = u;
      if (!n) break;
      pu[i] = cand[choose(n)];
      if (pu[i] == used && used < NU - 1) used++;
      po[i] = ops[choose(ops.size())];
      issued = i + 1;
      await([=] {
        if (pos <= i) return false;
        for (int u = 0; u < NU; u++)
          if (alive[u] && busy[u] && !asleep(u + 1)) return false;
        return true;
      });
      Rec& r = rec[i];
      memset(&r, 0, sizeof r);
      r.op = po[i];
      r.user = pu[i];
      Words* w = (Words*)sh.at(4);
      for (int u = 0; u < NU; u++) {
        r.st[u] = !alive[u] ? 'd' : busy[u] ? 's' : 'i';
        r.ret[u] = r.st[u] == 'i' ? sret[u] : 0;
        r.err[u] = r.st[u] == 'i' ? serr[u] : 0;
      }
      uint32_t m = w->m;
      for (int u = 0; u < NU; u++)
        if ((m & FUTEX_TID_MASK) == (uint32_t)tid_of(u + 1)) m = (m & ~FUTEX_TID_MASK) | (u + 1);
      r.m = m;
      r.c = w->c;
    }
    over = true;
  });
  run();
  if (!in_exec()) return;
  ask(pu, po, issued, real);
  for (int i = 0; i < issued; i++)
    if (memcmp(&real[i], &rec[i], sizeof(Rec))) {
      static int shown;
      if (shown++ < 3) {
        show(rec, i + 1, "simulated");
        show(real, i + 1, "kernel");
        fflush(stdout);
      }
      fail("the simulated futexes differ from the kernel's at step %d", i + 1);
    }
  for (int u = 0; u < NU; u++) outcome(rec[issued - 1].st[u] * 1000 + rec[issued - 1].err[u]);
}

void define_scenarios() {
  sh = make_shared(4096, 5);
  const char* d = getenv("KCONF_DEPTH");
  int k = d ? atoi(d) : 4;
  Config c = cfg(0);
  c.delay = true;
  scenario("K", "mutex", c, c, [=] { conf(k, false, {LOCK, LOCK_LATE, TRY, UNLOCK, CAS, CASUN, WAITM, WAKEM, DIE, DIE_PENDING}); });
  scenario("K", "condition", c, c, [=] { conf(k, false, {LOCK, UNLOCK, CAS, WREQ, WREQ_LATE, REQ0, REQ1, REQALL, REQ_OLD, DIE, DIE_PENDING}); });
  scenario("K", "robust", c, c, [=] { conf(k, true, {CASX, UNX, WAITM, WAITMW, WAKEM, DIE, DIE_PENDING}); });
  scenario("K", "wait", c, c, [=] { conf(k, false, {WAIT, WAIT_OLD, WAKE1, WAKEALL, WREQ, REQ1, DIE}); });
}
