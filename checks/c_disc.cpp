// A discovery watcher under real inotify events, with the steps of a changing directory interleaved with its system calls.
#include "../engine/fs.h"
#include "harness.h"

#include <a0/discovery.h>

#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
using std::string;

static a0_discovery_t* disc;
static char pattern[256];
static const char* PAT;
static bool closed, closing, env_done;
static int in_cb;
static std::map<string, int> announced;
static std::set<string> ever;   // files that ever were there
static std::map<string, char> now;

// does the pattern describe this path (relative to the scratch directory)?
static bool match(const string& p) {
  string pt = PAT;
  size_t k = p.rfind('/');
  string dir = k == string::npos ? "" : p.substr(0, k), file = k == string::npos ? p : p.substr(k + 1);
  bool a = file.size() >= 2 && file.substr(file.size() - 2) == ".a";
  if (pt == "*.a") return dir.empty() && a;
  if (pt == "**/*.a") return a;
  if (pt == "x/*.a") return dir == "x" && a;
  if (pt == "x/f.a") return p == "x/f.a";
  if (pt == "x/y/f.a") return p == "x/y/f.a";
  if (pt == "*/f.a") return !dir.empty() && dir.find('/') == string::npos && file == "f.a";
  if (pt == "x/**/f.a") return file == "f.a" && (dir == "x" || dir.compare(0, 2, "x/") == 0);
  if (pt == "x/*/f.a") return file == "f.a" && dir.compare(0, 2, "x/") == 0 && dir.find('/', 2) == string::npos;
  die("pattern");
}
static void on_file(void* u, const char* path) {
  Untracked q;
  string p = path;
  MC_CHECK(u == &announced, "the callback gets other data");
  MC_CHECK(!closed, "%s is announced after closing", fs::rel(p).c_str());
  MC_CHECK(!in_cb++, "two announcements at once");
  MC_CHECK(p.compare(0, fs::base.size() + 1, fs::base + "/") == 0, "%s is announced", fs::rel(p).c_str());
  string r = p.substr(fs::base.size() + 1);
  note("announced: %s", r.c_str());
  MC_CHECK(match(r), "%s is announced but does not match %s", r.c_str(), PAT);
  MC_CHECK(ever.count(r), "%s is announced but never was a file", r.c_str());
  MC_CHECK(!announced[r]++, "%s is announced twice", r.c_str());
  in_cb--;
}
// ---- steps of the surroundings --------------------------------------------------------------
struct Step {
  char op;  // 'd' mkdir, 'f' make a file, 'r' remove, 'm' move a file here
  string path;
};
static void apply(const Step& s) {
  string p = fs::base + "/" + s.path;
  int r = 0;
  switch (s.op) {
    case 'd':
      r = mkdir(p.c_str(), 0755);
      now[s.path] = 'd';
      break;
    case 'f': {
      ever.insert(s.path);
      now[s.path] = 'f';
      int fd = open(p.c_str(), O_CREAT | O_EXCL | O_RDWR, 0644);
      r = fd < 0 ? -1 : 0;
      if (fd >= 0) close(fd);
      break;
    }
    case 'l': {
      // as the library makes files: a temporary one, linked into place
      string t = fs::base + "/.tmp";
      int fd = open(t.c_str(), O_CREAT | O_EXCL | O_RDWR, 0644);
      close(fd);
      ever.insert(s.path);
      now[s.path] = 'f';
      r = link(t.c_str(), p.c_str());
      unlink(t.c_str());
      break;
    }
    case 'm': {
      string t = fs::base + "/.tmp";
      int fd = open(t.c_str(), O_CREAT | O_EXCL | O_RDWR, 0644);
      close(fd);
      ever.insert(s.path);
      now[s.path] = 'f';
      r = rename(t.c_str(), p.c_str());
      break;
    }
    case 'r':
      r = remove(p.c_str());
      now.erase(s.path);
      break;
  }
  if (r) die("step %c %s: %s", s.op, s.path.c_str(), strerror(errno));
}
static bool possible(const Step& s) {
  string dir = s.path.rfind('/') == string::npos ? "" : s.path.substr(0, s.path.rfind('/'));
  bool there = now.count(s.path);
  if (s.op == 'r') {
    if (!there) return false;
    for (auto& n : now)
      if (n.first.compare(0, s.path.size() + 1, s.path + "/") == 0) return false;
    // the directory the pattern starts from stays
    string pt = PAT;
    if (now[s.path] == 'd' && pt.compare(0, s.path.size() + 1, s.path + "/") == 0) return false;
    return true;
  }
  return !there && (dir.empty() || (now.count(dir) && now[dir] == 'd'));
}
static std::vector<Step> alphabet() {
  std::vector<Step> v = {{'d', "x"}, {'d', "x/y"}, {'f', "x/f.a"}, {'f', "x/y/f.a"}, {'f', "f.a"}, {'f', "x/g.b"}, {'m', "x/g.a"}, {'l', "x/y/g.a"}, {'r', "x/f.a"}, {'r', "x/y/f.a"}, {'r', "x/y"}, {'r', "x"}, {'d', "z"}, {'f', "z/f.a"}};
  return v;
}
static const std::vector<std::vector<Step>> START = {
    {},
    {{'d', "x"}},
    {{'d', "x"}, {'f', "x/f.a"}, {'f', "x/h.b"}},
    {{'d', "x"}, {'d', "x/y"}, {'f', "x/y/f.a"}},
    {{'f', "f.a"}, {'d', "x"}, {'d', "x/y"}},
};
static int nsteps;
static std::vector<Step> script;  // fixed, or chosen as it goes
static bool early_close;
static void surroundings() {
  static const std::vector<Step> al = alphabet();
  for (int i = 0; i < nsteps; i++) {
    int pick;
    Step s;
    if (!script.empty()) {
      Untracked u;
      if (i >= (int)script.size()) break;
      pick = 1;
      s = script[i];
    } else {
      std::vector<Step> can;
      {
        Untracked u;
        for (auto& a : al)
          if (possible(a)) can.push_back(a);
      }
      pick = choose(1 + can.size());
      Untracked u;
      if (pick) s = can[pick - 1];
    }
    if (!pick) break;
    char path[128];
    {
      Untracked u;
      snprintf(path, sizeof path, "%s/%s", fs::base.c_str(), s.path.c_str());
    }
    fs::step(path);
    Untracked u;
    note("%c %s", s.op, s.path.c_str());
    apply(s);
  }
  env_done = true;
}
static void watcher() {
  a0_err_t e = a0_discovery_init(disc, pattern, {&announced, on_file});
  MC_CHECK(!e, "a watcher of %s cannot be made", PAT);
  if (!early_close) await([] { return env_done && fs::waiting_for_events(); });
  else point();
  if (!early_close) {
    Untracked u;
    for (auto& n : now)
      if (n.second == 'f' && match(n.first)) MC_CHECK(announced.count(n.first), "%s is never announced to a watcher of %s", n.first.c_str(), PAT);
  }
  e = a0_discovery_close(disc);
  MC_CHECK(!e, "closing a watcher fails");
  closed = true;
  Untracked u;
  MC_CHECK(fs::open_files() == 0, "not released after closing: %s", fs::leaked().c_str());
}
static void g02(const char* pat, int start, int steps, std::vector<Step> scr = {}, bool early = false) {
  fs::reset();
  PAT = pat;
  snprintf(pattern, sizeof pattern, "%s/%s", fs::base.c_str(), pat);
  closed = closing = env_done = false;
  in_cb = 0;
  announced.clear();
  ever.clear();
  now.clear();
  script = scr;
  nsteps = scr.empty() ? steps : scr.size();
  early_close = early;
  for (auto& s : START[start]) apply(s);
  spawn(1, "watcher", watcher);
  spawn(2, "surroundings", surroundings);
  run();
  for (auto& a : announced) outcome(std::hash<string>()(a.first));
}
static const char* PATS[] = {"*.a", "**/*.a", "x/*.a", "x/f.a", "x/y/f.a", "*/f.a", "x/**/f.a", "x/*/f.a"};

void define_scenarios() {
  disc = (a0_discovery_t*)make_handle(sizeof(a0_discovery_t));
  auto c = [](int p) {
    mc::Config k = cfg(p);
    k.plain = false;
    return k;
  };
  for (const char* p : PATS) {
    string n;
    for (const char* q = p; *q; q++) n += *q == '/' ? "," : *q == '*' ? "+" : string(1, *q);
    scenario("G02", "two-steps-" + n, c(2), c(3), [=] { g02(p, choose(START.size()), 2); });
    scenario("G02", "three-steps-" + n, c(1), c(2), [=] { g02(p, choose(START.size()), 3); });
    scenario("G02", "close-" + n, c(2), c(3), [=] { g02(p, choose(START.size()), 1, {}, true); });
    scenario("G02", "appear-" + n, c(5), c(7), [=] { g02(p, 0, 0, {{'d', "x"}, {'d', "x/y"}, {'l', "x/y/f.a"}, {'f', "x/f.a"}, {'f', "f.a"}}); });
    scenario("G02", "made-again-" + n, c(4), c(5), [=] {
      if (string(p).compare(0, 2, "x/") == 0) g02(p, 1, 0, {{'d', "x/z"}, {'f', "x/z/f.a"}, {'r', "x/z/f.a"}, {'r', "x/z"}, {'d', "x/z"}, {'f', "x/z/f.a"}, {'f', "x/z/g.a"}});
      else g02(p, 0, 0, {{'d', "x"}, {'f', "x/f.a"}, {'r', "x/f.a"}, {'r', "x"}, {'d', "x"}, {'f', "x/g.a"}, {'f', "x/f.a"}});
    });
  }
  scenario("G02", "four-steps", c(1), c(2), [] { g02("**/*.a", choose(START.size()), 4); });
}
