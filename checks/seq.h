// Common main() for the drivers that enumerate operation sequences, inputs, crash points or faults
// on the real code, one scenario per child process.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace seq {

struct Violation {
  std::string msg;
};

// Something is wrong, but another property judges it: this branch is not followed further.
struct Skip {};

// Lives in memory shared with the parent, so that it survives a crash of the child.
struct Shm {
  volatile uint64_t beat;
  volatile uint32_t tlen;
  char trace[8192];
};
inline Shm*& shm() {
  static Shm* s = nullptr;
  return s;
}
inline std::string vfmt(const char* f, va_list ap) {
  char b[2048];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
// What is being executed: kept for the report.
inline void trace_set(const std::string& s) {
  size_t n = s.size() < sizeof(Shm::trace) - 1 ? s.size() : sizeof(Shm::trace) - 1;
  memcpy(shm()->trace, s.data(), n);
  shm()->trace[n] = 0;
  shm()->tlen = n;
}
inline void trace_cut(uint32_t n) {
  shm()->tlen = n;
  shm()->trace[n] = 0;
}
inline uint32_t trace_len() { return shm()->tlen; }
__attribute__((format(printf, 1, 2))) inline void trace_add(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  uint32_t n = shm()->tlen;
  size_t room = sizeof(Shm::trace) - n;
  int k = vsnprintf(shm()->trace + n, room, f, ap);
  va_end(ap);
  shm()->tlen = n + ((size_t)k < room ? k : room - 1);
}
inline void beat() { shm()->beat++; }
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  throw Violation{s};
}
#define SQ_CHECK(c, ...) do { if (!(c)) seq::fail(__VA_ARGS__); } while (0)

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1) {
  const uint8_t* b = (const uint8_t*)p;
  for (; n >= 8; n -= 8, b += 8) {
    uint64_t v;
    memcpy(&v, b, 8);
    h = mix(h, v);
  }
  uint64_t v = 0;
  memcpy(&v, b, n);
  return mix(h, v + n * 0x100000000ull);
}

// Counts of one scenario.
struct Run {
  bool thorough = false;
  uint64_t execs = 0, states = 0, transitions = 0, validated = 0, crash_points = 0, faults = 0;
  std::unordered_set<uint64_t> distinct, outcomes;
  std::vector<std::string> samples;
  std::string bounds;
  void sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s);
  }
};
struct Scen {
  std::string prop, name;
  std::function<void(Run&)> fn;
  bool thorough_only;
};
inline std::vector<Scen>& all() {
  static std::vector<Scen> v;
  return v;
}
inline void scenario(const std::string& prop, const std::string& name, std::function<void(Run&)> fn, bool thorough_only = false) { all().push_back({prop, name, fn, thorough_only}); }

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    if ((unsigned char)c < 32 || (unsigned char)c > 126) o += ' ';
    else o += c;
  }
  return o + "\"";
}

}  // namespace seq

void define_scenarios();

namespace seq {
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline int hang_limit = 60;  // seconds without any progress

struct Child {
  pid_t pid = 0;
  int fd = -1;
  Shm* shm = nullptr;
  size_t scen = 0;
  std::string out;
  double t0 = 0, tb = 0;
  uint64_t beat = 0;
  bool hung = false;
};

inline std::string write_replay(const std::string& nm, const std::string& msg, const std::string& trace) {
  const char* o = getenv("VERIF_OUT");
  std::string d = o ? o : "out";
  mkdir(d.c_str(), 0755);
  std::string p = d + "/" + nm + ".replay";
  FILE* f = fopen(p.c_str(), "w");
  if (!f) return "";
  fprintf(f, "scenario %s\nviolation %s\n%s\n", nm.c_str(), msg.c_str(), trace.c_str());
  fclose(f);
  return p;
}

inline int main_(int argc, char** argv) {
  std::string prop, tier = "quick", json, rep, only;
  bool list = false, nofork = false;
  int par = sysconf(_SC_NPROCESSORS_ONLN);
  if (par > 8) par = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = next();
    else if (a == "--tier") tier = next();
    else if (a == "--json") json = next();
    else if (a == "--replay") rep = next();
    else if (a == "--only") only = next();
    else if (a == "--list") list = true;
    else if (a == "--nofork") nofork = true;
    else if (a == "-j") par = atoi(next().c_str());
  }
  std::string want;
  if (!rep.empty()) {
    FILE* f = fopen(rep.c_str(), "r");
    char b[512];
    if (!f || fscanf(f, "scenario %511s", b) != 1) {
      fprintf(stderr, "cannot read %s\n", rep.c_str());
      return 3;
    }
    want = b;
    int c;
    while ((c = fgetc(f)) != EOF) putchar(c);
    fclose(f);
    if (want.size() > 9 && want.substr(want.size() - 9) == ".thorough") tier = "thorough";
  }
  define_scenarios();
  std::vector<size_t> todo;
  for (size_t i = 0; i < all().size(); i++) {
    Scen& s = all()[i];
    if (list) {
      printf("%s %s\n", s.prop.c_str(), s.name.c_str());
      continue;
    }
    if (!prop.empty() && s.prop != prop) continue;
    if (!only.empty() && s.name != only) continue;
    if (s.thorough_only && tier != "thorough") continue;
    if (!want.empty() && s.prop + "." + s.name + "." + tier != want) continue;
    todo.push_back(i);
  }
  if (list) return 0;
  FILE* jo = json.empty() ? nullptr : fopen(json.c_str(), "w");
  if (jo) fprintf(jo, "[");
  bool first = true;
  int rc = 0;
  std::vector<Child> ch;
  size_t nxt = 0;
  auto body = [&](size_t i, Shm* sm, FILE* o) -> int {
    shm() = sm;
    Run r;
    r.thorough = tier == "thorough";
    Scen& s = all()[i];
    double t0 = now();
    bool viol = false;
    std::string msg;
    try {
      s.fn(r);
    } catch (Violation& v) {
      viol = true;
      msg = v.msg;
    } catch (Skip&) {
      r.bounds += " (cut short: the setting is broken in a way another property judges)";
    }
    std::string nm = s.prop + "." + s.name + "." + tier;
    std::string rp;
    if (viol) rp = write_replay(nm, msg, sm->trace);
    fprintf(o, "{\"scenario\":%s,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"crash_points\":%llu,\"faults\":%llu,\"distinct\":%llu,\"outcomes\":%llu,\"bounds\":%s,\"wall\":%.3f,\"violated\":%s,\"error\":false,\"message\":%s,\"replay\":%s,\"samples\":[",
            jstr(nm).c_str(), (unsigned long long)r.execs, (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.validated, (unsigned long long)r.crash_points, (unsigned long long)r.faults, (unsigned long long)r.distinct.size(), (unsigned long long)r.outcomes.size(), jstr(r.bounds).c_str(), now() - t0, viol ? "true" : "false", jstr(viol ? msg + " [" + sm->trace + "]" : msg).c_str(), jstr(rp).c_str());
    for (size_t k = 0; k < r.samples.size(); k++) fprintf(o, "%s%s", k ? "," : "", jstr(r.samples[k]).c_str());
    fprintf(o, "]}");
    fflush(o);
    fprintf(stdout, "%s: %llu executions, %llu states, %llu transitions, %llu crash points, %llu distinct, %llu outcomes, %.2f s%s%s\n", nm.c_str(), (unsigned long long)r.execs, (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.crash_points, (unsigned long long)r.distinct.size(), (unsigned long long)r.outcomes.size(), now() - t0, viol ? " VIOLATED: " : "", viol ? (msg + " [" + sm->trace + "]").c_str() : "");
    fflush(stdout);
    return viol ? 1 : 0;
  };
  auto finish = [&](const std::string& j) {
    if (jo) fprintf(jo, "%s%s", first ? "" : ",\n", j.c_str());
    first = false;
  };
  if (nofork) {
    for (size_t i : todo) {
      Shm* sm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (body(i, sm, stderr)) rc = 1;
    }
    return rc;
  }
  while (nxt < todo.size() || !ch.empty()) {
    while (nxt < todo.size() && (int)ch.size() < par) {
      Child c;
      c.scen = todo[nxt++];
      c.shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      int p[2];
      if (pipe2(p, O_CLOEXEC)) return 3;
      fflush(stdout);
      if (jo) fflush(jo);
      c.pid = fork();
      if (c.pid == 0) {
        setpgid(0, 0);
        for (auto& x : ch) close(x.fd);
        close(p[0]);
        FILE* o = fdopen(p[1], "w");
        int k = body(c.scen, c.shm, o);
        fclose(o);
        _exit(k);
      }
      setpgid(c.pid, c.pid);
      close(p[1]);
      c.fd = p[0];
      c.t0 = c.tb = now();
      ch.push_back(c);
    }
    std::vector<pollfd> pf;
    for (auto& c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t k = 0; k < ch.size();) {
      Child& c = ch[k];
      bool eof = false;
      if (k < pf.size() && (pf[k].revents & (POLLIN | POLLHUP))) {
        char b[65536];
        ssize_t n = read(c.fd, b, sizeof b);
        if (n > 0) c.out.append(b, n);
        else eof = true;
      }
      if (c.shm->beat != c.beat) {
        c.beat = c.shm->beat;
        c.tb = now();
      } else if (!eof && now() - c.tb > hang_limit) {
        c.hung = true;
        kill(-c.pid, SIGKILL);
        kill(c.pid, SIGKILL);
        eof = true;
      }
      if (!eof) {
        k++;
        continue;
      }
      int st = 0;
      waitpid(c.pid, &st, 0);
      kill(-c.pid, SIGKILL);
      close(c.fd);
      Scen& s = all()[c.scen];
      std::string nm = s.prop + "." + s.name + "." + tier;
      if (!c.hung && WIFEXITED(st) && WEXITSTATUS(st) <= 1 && !c.out.empty()) {
        if (WEXITSTATUS(st)) rc = rc ? rc : 1;
        finish(c.out);
      } else if (!c.hung && WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        rc = 3;
        finish("{\"scenario\":" + jstr(nm) + ",\"error\":true,\"violated\":false,\"message\":" + jstr(std::string("check error: ") + c.shm->trace) + "}");
      } else {
        // the code under test crashed or hung
        std::string msg = c.hung ? "hangs" : WIFSIGNALED(st) ? fmt("crashes (signal %d)", WTERMSIG(st)) : fmt("ends the process (exit %d)", WEXITSTATUS(st));
        std::string rp = write_replay(nm, msg, c.shm->trace);
        finish("{\"scenario\":" + jstr(nm) + ",\"error\":false,\"violated\":true,\"message\":" + jstr(msg + " [" + c.shm->trace + "]") + ",\"replay\":" + jstr(rp) + "}");
        printf("%s VIOLATED: %s [%s]\n", nm.c_str(), msg.c_str(), c.shm->trace);
        fflush(stdout);
        if (!rc) rc = 1;
      }
      munmap(c.shm, sizeof(Shm));
      ch.erase(ch.begin() + k);
      pf.erase(pf.begin() + k);
    }
  }
  if (jo) {
    fprintf(jo, "]\n");
    fclose(jo);
  }
  return rc;
}
// Error of the check itself (inside a scenario).
[[noreturn]] inline void die(const std::string& s) {
  trace_set(s);
  fprintf(stderr, "check error: %s\n", s.c_str());
  _exit(3);
}
}  // namespace seq

#ifndef SEQ_NO_MAIN
int main(int argc, char** argv) { return seq::main_(argc, argv); }
#endif
