// Controlled scheduler for the library code under test. See mc.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// ---- exploration -----------------------------------------------------------
struct Config {
  int preempt = 2;      // switches away from a fiber that could continue
  int crash = 0;        // deaths of killable processes
  int ticks = 0;        // early expiries of the next deadline
  bool plain = true;    // plain accesses to shared memory and handles are scheduling points
  bool shared = true;   // if plain: also those to shared objects (else only those to handles)
  bool heap = false;    // so are accesses to the heap and the library's globals by processes with several threads
  uint64_t clock_step = 0;  // every reading of the clock advances it by this
  bool crash_only_stores = true;
  long max_points = 60000;  // per execution; beyond that: no progress
  bool cache = true;            // prune states already met (same happens-before trace, no larger budgets)
  bool delay = false;           // when the running fiber blocks, letting another than the next in order run costs a preemption too
};

struct Stats {
  uint64_t execs = 0, points = 0, choices = 0, traces = 0, outcomes = 0;
  uint64_t maxpoints = 0, pruned = 0;
  bool violated = false;
  bool error = false;
  std::string message, replay;
  std::vector<std::string> samples;
};

// Runs `body` under every schedule within the bounds. `body` is executed once
// per schedule, as fiber 0, from a clean state; it spawns users and calls run().
Stats explore(const std::string& scenario, const Config&, const std::function<void()>& body);

// Re-runs one schedule from a replay file; prints the event log.
int replay(const std::string& file, const std::string& scenario, const Config&, const std::function<void()>& body);

// ---- to be used inside body ------------------------------------------------
enum { KILLABLE = 1, MAY_BLOCK = 2 };
// Adds a user running fn in simulated process `proc`.
int spawn(int proc, const char* name, std::function<void()> fn, int flags = 0);
// Runs all users until each has finished, died or (MAY_BLOCK) blocked for good.
void run();
bool finished(int fiber);
bool died(int fiber);
bool blocked(int fiber);
bool asleep(int fiber);  // waiting in a simulated system call
int self();          // current fiber
int tid_of(int fiber);
int cur_proc();
void set_proc(int proc);  // fiber 0 only: pretend to be in another process

// Violation of the property in the current execution. Does not return.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
// Mixed into the outcome identity of this execution.
void outcome(uint64_t v);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // logged on replay

// The calling user's process dies here (no choice).
[[noreturn]] void perish();
// A deliberate scheduling point of the driver ("here something may happen").
void point();
// Records an access to something outside memory, e.g. a directory entry (for recognising equal executions).
void access(uint64_t loc, bool write);
extern void (*g_after)();  // called after every execution
// Free (uncosted) nondeterministic choice among n.
int choose(int n);
// Makes the calling fiber wait until pred() holds (pred must be pure).
void await(std::function<bool()> pred);

// ---- simulated memory --------------------------------------------------------
// Shared object of `size` bytes visible at a different address in each of `nproc`
// simulated processes, with guard pages. Allocate before explore().
struct Shared {
  size_t size = 0;
  int nproc = 0;
  std::vector<uint8_t*> map;
  uint8_t* at(int proc) const { return map[proc]; }
  void zero() const;
};
Shared make_shared(size_t size, int nproc);
// Process-private memory whose accesses are scheduling points (handles shared by
// threads of one process). Zeroed at the start of each execution.
void* make_handle(size_t size);
// From now on in this execution, accesses through the mapping that starts here are violations.
void unmap(void* at);
void reset_memory();  // zero all shared objects and handles (explore does this)

// ---- simulated clock ----------------------------------------------------------
uint64_t now_ns();
void add_deadline(uint64_t ns);  // a time at which a tick may jump to
void set_now(uint64_t ns);

bool in_exec();
void silent(bool);  // no scheduling points for the current fiber while true
struct Atomic {     // scope without scheduling points
  Atomic() { silent(true); }
  ~Atomic() { silent(false); }
};

void untracked(bool);
struct Untracked {  // scope whose accesses to memory are no concern of the exploration (monitors; nothing here may wait)
  Untracked() { untracked(true); }
  ~Untracked() { untracked(false); }
};

// urandom stand-in: deterministic, distinct per read.
extern bool g_verbose;
extern int g_workers;

// Errors of the check itself.
[[noreturn]] void die(const char* fmt, ...);

// Redirected library calls: hook for file-system style calls (see fsim).
}  // namespace mc
