// P03: ids. Every small tree of processes and threads generating ids is really executed; the random
// source is made to fail, and the generator behind the ids made to return extreme values.
#include "seq.h"

#include <a0/uuid.h>

#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/syscall.h>

#include <functional>
#include <memory>
#include <set>

using namespace seq;

// ---- stand-ins ------------------------------------------------------------------------
static bool fail_open, fail_read, short_read;
static const uint32_t* words;  // values for the generator, if set
static int nwords, words_used;
extern "C" int open(const char* p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (fail_open && !strncmp(p, "/dev/", 5)) {
    errno = EMFILE;
    return -1;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (fail_read) {
    errno = EINTR;
    return -1;
  }
  if (short_read && n > 1) n = 1;
  return syscall(SYS_read, fd, b, n);
}
extern "C" long jrand48(unsigned short x[3]) {
  if (words) return (int32_t)words[words_used++ % nwords];
  uint64_t s = (uint64_t)x[2] << 32 | (uint64_t)x[1] << 16 | x[0];
  s = (s * 0x5DEECE66Dull + 0xB) & 0xFFFFFFFFFFFFull;
  x[0] = s;
  x[1] = s >> 16;
  x[2] = s >> 32;
  return (int32_t)(s >> 16);
}

static void well_formed(const char* u) {
  for (int i = 0; i < 36; i++) {
    char c = u[i];
    if (i == 8 || i == 13 || i == 18 || i == 23) SQ_CHECK(c == '-', "id %.36s: no dash at %d", u, i);
    else if (i == 14) SQ_CHECK(c == '4', "id %.36s: not version 4", u);
    else if (i == 19) SQ_CHECK(strchr("89ABab", c) && c, "id %.36s: not the standard variant", u);
    else SQ_CHECK((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'), "id %.36s: bad digit at %d", u, i);
  }
  SQ_CHECK(!u[36], "id is not terminated");
}

// ---- programs ---------------------------------------------------------------------------
// G: generate an id; F(p): fork a child that runs p; T(p): start a thread that runs p and wait for it;
// L(p): start a thread that runs p and lives until the end of its process
struct Pool {
  int n;
  char id[400][37];
};
static Pool* pool;
static void gen() {
  int i = __atomic_fetch_add(&pool->n, 1, __ATOMIC_SEQ_CST);
  if (i >= 400) _exit(9);
  memset(pool->id[i], '#', 37);
  a0_uuidv4(pool->id[i]);
}
typedef std::vector<struct Op> Prog;
struct Op {
  char k;
  Prog p;
};
static std::string show(const Prog& p) {
  std::string s;
  for (auto& o : p) {
    s += o.k;
    if (o.k != 'G') s += "(" + show(o.p) + ")";
  }
  return s;
}
struct Live {
  std::vector<pthread_t> t;
  volatile int go = 0;
};
static void run(const Prog& p, Live& l);
struct Arg {
  const Prog* p;
  Live* l;
  bool stay;
  volatile int done;
};
static void* thr(void* x) {
  Arg* a = (Arg*)x;
  Live mine;
  run(*a->p, mine);
  a->done = 1;
  if (a->stay)
    while (!a->l->go) usleep(100);
  return nullptr;
}
static void run(const Prog& p, Live& l) {
  std::vector<Arg*> as;
  std::vector<pthread_t> ts;
  for (auto& o : p) {
    if (o.k == 'G') gen();
    else if (o.k == 'F') {
      pid_t c = fork();
      if (c < 0) _exit(9);
      if (!c) {
        Live mine;
        run(o.p, mine);
        _exit(0);
      }
      int st;
      waitpid(c, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(9);
    } else {
      Arg* a = new Arg{&o.p, &l, o.k == 'L', 0};
      pthread_t t;
      if (pthread_create(&t, nullptr, thr, a)) _exit(9);
      if (o.k == 'T') pthread_join(t, nullptr);
      else {
        while (!a->done) sched_yield();
        ts.push_back(t);
      }
    }
  }
  l.go = 1;
  for (auto t : ts) pthread_join(t, nullptr);
}
static void all_progs(int size, const std::string& kinds, std::function<void(const Prog&)> fn) {
  // programs with exactly `size` operations
  if (!size) {
    fn({});
    return;
  }
  all_progs(size - 1, kinds, [&](const Prog& rest) {
    Prog p = rest;
    p.insert(p.begin(), Op{'G', {}});
    fn(p);
  });
  for (char k : kinds)
    for (int in = 1; in < size; in++)
      all_progs(in, kinds, [&](const Prog& sub) {
        all_progs(size - 1 - in, kinds, [&](const Prog& rest) {
          Prog p = rest;
          p.insert(p.begin(), Op{k, sub});
          fn(p);
        });
      });
}
static int count_g(const Prog& p) {
  int n = 0;
  for (auto& o : p) n += o.k == 'G' ? 1 : count_g(o.p);
  return n;
}
static void programs(Run& r, int size, const std::string& kinds) {
  pool = (Pool*)mmap(nullptr, sizeof(Pool), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  r.bounds = fmt("all programs of up to %d operations: generate, fork a child, start a thread (%s)", size, kinds.c_str());
  for (int n = 1; n <= size; n++)
    all_progs(n, kinds, [&](const Prog& p) {
      if (count_g(p) < 2) return;
      beat();
      r.execs++;
      trace_set("program " + show(p));
      pool->n = 0;
      pid_t c = fork();
      if (!c) {
        alarm(20);
        Live l;
        run(p, l);
        _exit(0);
      }
      int st;
      waitpid(c, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("the program ended abnormally (status %x)", st);
      SQ_CHECK(pool->n == count_g(p), "internal: %d ids", pool->n);
      std::set<std::string> seen;
      for (int i = 0; i < pool->n; i++) {
        well_formed(pool->id[i]);
        SQ_CHECK(seen.insert(pool->id[i]).second, "id %s was generated twice (as number %d)", pool->id[i], i);
        r.transitions++;
      }
      std::string s = show(p);
      r.distinct.insert(hash(s.data(), s.size()));
    });
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
static void shapes(Run& r) {
  std::vector<uint32_t> v;
  for (int b = 0; b < 4; b++)
    for (int x = 0; x < 256; x++) {
      v.push_back((uint32_t)x << (8 * b));
      v.push_back(~((uint32_t)x << (8 * b)));
    }
  v.push_back(0x80000000u);
  v.push_back(0x7fffffffu);
  r.bounds = fmt("every byte value in every byte of each of the four random words, alone and inverted; all combinations of 6 extreme words");
  auto one = [&](const uint32_t* w) {
    beat();
    words = w;
    nwords = 4;
    words_used = 0;
    std::unique_ptr<char[]> u(new char[37]);
    trace_set(fmt("random words %08x %08x %08x %08x", w[0], w[1], w[2], w[3]));
    a0_uuidv4(u.get());
    words = nullptr;
    well_formed(u.get());
    r.execs++;
    r.transitions++;
    r.distinct.insert(hash(u.get(), 36));
    return std::string(u.get());
  };
  for (int pos = 0; pos < 4; pos++)
    for (uint32_t x : v)
      for (uint32_t rest : {0u, ~0u, 0xA5A5A5A5u}) {
        uint32_t w[4] = {rest, rest, rest, rest};
        w[pos] = x;
        one(w);
      }
  uint32_t e[6] = {0, ~0u, 0x80000000u, 0x7fffffffu, 0x0F0F0F0Fu, 0x01234567u};
  for (int i = 0; i < 1296; i++) {
    uint32_t w[4] = {e[i % 6], e[i / 6 % 6], e[i / 36 % 6], e[i / 216]};
    one(w);
  }
  // ids carry all their random bits: flipping any of the 122 gives another id
  uint32_t base[4] = {0x01234567u, 0x89ABCDEFu, 0x02468ACEu, 0x13579BDFu};
  std::string b = one(base);
  if (words_used >= 4) {
    std::set<std::string> ids = {b};
    for (int i = 0; i < 128; i++) {
      uint32_t w[4];
      memcpy(w, base, 16);
      w[i / 32] ^= 1u << (i % 32);
      ids.insert(one(w));
    }
    trace_set("all single-bit variations of the random words");
    SQ_CHECK(ids.size() >= 123, "only %zu of 123 variations of the random bits give different ids", ids.size());
  }
  r.states = r.distinct.size();
}
static void many(Run& r) {
  r.bounds = "20000 ids of one thread, 100 ids each of 64 threads and of 64 forked siblings";
  std::set<std::string> seen;
  for (int i = 0; i < 20000; i++) {
    beat();
    a0_uuid_t u;
    a0_uuidv4(u);
    well_formed(u);
    trace_set(fmt("id number %d of one thread", i));
    SQ_CHECK(seen.insert(u).second, "id %s was generated twice", u);
  }
  char(*ids)[37] = (char(*)[37])mmap(nullptr, 128 * 100 * 37, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct A {
    char(*at)[37];
  };
  auto fn = [](void* x) -> void* {
    char(*at)[37] = (char(*)[37])x;
    for (int i = 0; i < 100; i++) a0_uuidv4(at[i]);
    return nullptr;
  };
  std::vector<pthread_t> ts(64);
  for (int i = 0; i < 64; i++)
    if (pthread_create(&ts[i], nullptr, fn, ids + i * 100)) die("thread");
  for (auto t : ts) pthread_join(t, nullptr);
  std::vector<pid_t> ps;
  for (int i = 64; i < 128; i++) {
    pid_t c = fork();
    if (!c) {
      fn(ids + i * 100);
      _exit(0);
    }
    ps.push_back(c);
  }
  for (auto p : ps) waitpid(p, nullptr, 0);
  for (int i = 0; i < 12800; i++) {
    trace_set(fmt("id %d of %s %d", i % 100, i < 6400 ? "thread" : "child", i / 100));
    well_formed(ids[i]);
    SQ_CHECK(seen.insert(ids[i]).second, "id %s was generated twice", ids[i]);
    r.execs++;
  }
  r.execs += 20000;
  r.transitions = r.execs;
  for (auto& s : seen) r.distinct.insert(hash(s.data(), 36));
  r.states = r.distinct.size();
}

void define_scenarios() {
  scenario("P03", "programs", [](Run& r) { programs(r, r.thorough ? 8 : 7, "FT"); });
  scenario("P03", "programs_live", [](Run& r) { programs(r, r.thorough ? 7 : 6, "FL"); });
  scenario("P03", "no_descriptor", [](Run& r) {
    fail_open = true;
    programs(r, 4, "FT");
    r.faults = r.execs;
  });
  scenario("P03", "failing_read", [](Run& r) {
    fail_read = true;
    programs(r, 4, "FT");
    r.faults = r.execs;
  });
  scenario("P03", "shapes", shapes);
  scenario("P03", "many", many);
}
