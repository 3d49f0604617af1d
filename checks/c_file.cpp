// Opening, creating, closing, listing and removing files, on a real scratch directory, with every system call of the
// library a scheduling point that may be made to fail or be the last of its process.
#include "../engine/fs.h"
#include "harness.h"

#include <a0/alloc.h>
#include <a0/cfg.h>
#include <a0/deadman.h>
#include <a0/env.h>
#include <a0/err.h>
#include <a0/file.h>
#include <a0/log.h>
#include <a0/prpc.h>
#include <a0/pubsub.h>
#include <a0/rpc.h>
#include <a0/topic.h>

#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
using std::string;

#define A0_SYSERR(e) ((e) == A0_ERR_SYS ? a0_err_syscode : 0)
static string err_str(a0_err_t e) {
  if (!e) return "success";
  if (A0_SYSERR(e)) return string("error ") + strerror(A0_SYSERR(e));
  return "error " + std::to_string(e);
}
// ---- the scratch directory, seen directly ---------------------------------------------------
struct Node {
  char kind;  // 'd', 'f', 'l', '?'
  off_t size;
  mode_t mode;
  ino_t ino;
};
static void walk(const string& dir, const string& rel, std::map<string, Node>& out) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    string n = e->d_name;
    if (n == "." || n == "..") continue;
    string p = dir + "/" + n, r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    out[r] = {S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISLNK(st.st_mode) ? 'l' : '?', st.st_size, st.st_mode & 07777, st.st_ino};
    if (S_ISDIR(st.st_mode)) walk(p, r, out);
  }
  closedir(d);
}
static std::map<string, Node> tree(const string& below = "") {
  std::map<string, Node> m;
  walk(below.empty() ? fs::base : fs::base + "/" + below, "", m);
  return m;
}
static string names(const std::map<string, Node>& m) {
  string s;
  for (auto& e : m) s += (s.empty() ? "" : ", ") + e.first + (e.second.kind == 'd' ? "/" : e.second.kind == 'l' ? "@" : "");
  return "{" + s + "}";
}
static void put_file(const string& rel, size_t size, mode_t mode = 0644) {
  int fd = open((fs::base + "/" + rel).c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
  if (fd < 0 || ftruncate(fd, size) || fchmod(fd, mode)) die("put_file %s: %s", rel.c_str(), strerror(errno));
  close(fd);
}
static void put_dir(const string& rel) {
  if (mkdir((fs::base + "/" + rel).c_str(), 0755)) die("put_dir %s: %s", rel.c_str(), strerror(errno));
}
static void put_link(const string& rel, const string& to) {
  if (symlink(to.c_str(), (fs::base + "/" + rel).c_str())) die("put_link %s: %s", rel.c_str(), strerror(errno));
}

// ---- F01: opening at once ---------------------------------------------------------------------
static const off_t SIZE = 8192;
static const mode_t MODE = 0640;
struct Opener {
  a0_file_t file;
  a0_err_t err;
  bool done, open;
  char path[128], full[128];
  ino_t ino;
};
static Opener op[4];
static string target;
static std::set<ino_t> seen;
static bool removing;
static void watch() {
  struct stat st;
  if (stat((fs::base + "/" + target).c_str(), &st)) return;
  MC_CHECK(st.st_size == SIZE, "the file is visible with %ld bytes instead of %ld", (long)st.st_size, (long)SIZE);
  MC_CHECK((st.st_mode & 07777) == MODE, "the file is visible with permissions %o instead of %o", st.st_mode & 07777, MODE);
  seen.insert(st.st_ino);
  if (!removing) MC_CHECK(seen.size() == 1, "the file is replaced by another");
}
static a0_file_options_t options(bool readonly = false) {
  a0_file_options_t o = A0_FILE_OPTIONS_DEFAULT;
  o.create_options.size = SIZE;
  o.create_options.mode = MODE;
  o.create_options.dir_mode = 0750;
  o.open_options.arena_mode = readonly ? A0_ARENA_MODE_READONLY : A0_ARENA_MODE_SHARED;
  return o;
}
static void check_open(const a0_file_t& f, const string& path, off_t size) {
  MC_CHECK(f.path && f.arena.buf.data && f.fd >= 0, "a successful open left out the path, descriptor or memory");
  MC_CHECK(f.arena.buf.size == (size_t)size, "the opened file has %zu bytes of memory instead of %ld", f.arena.buf.size, (long)size);
  struct stat st;
  MC_CHECK(!fstat(f.fd, &st), "the descriptor of an opened file is not open");
  MC_CHECK(st.st_size == size && f.stat.st_size == size, "the opened file has another size than its memory");
  MC_CHECK(f.stat.st_ino == st.st_ino, "the file's attributes are those of another file");
  string p = f.path;
  MC_CHECK(p == path, "the opened file's path is %s instead of %s", fs::rel(p).c_str(), fs::rel(path).c_str());
}
// flow of opener k: open, leave a mark, close
static void opener(int k, bool readonly) {
  Opener& o = op[k];
  a0_file_options_t opt = options(readonly);
  a0_err_t e = a0_file_open(o.path, &opt, &o.file);
  {
    Atomic q;
    Untracked u;
    o.err = e;
    o.done = true;
    MC_CHECK(!e, "opening while others open fails: %s", err_str(e).c_str());
    check_open(o.file, fs::base + "/" + target, SIZE);
    o.open = true;
    struct stat st;
    fstat(o.file.fd, &st);
    o.ino = st.st_ino;
    MC_CHECK((st.st_mode & 07777) == MODE, "an opened file has permissions %o instead of %o", st.st_mode & 07777, MODE);
    if (!removing) MC_CHECK(seen.count(st.st_ino), "a process got a file that is not the one under the name");
  }
  point();
  if (!readonly) {
    fs::step(o.full);
    Untracked u;
    memset(o.file.arena.buf.data + 64 * k, 'a' + k, 64);
    memset(o.file.arena.buf.data + SIZE - 64 * (k + 1), 'a' + k, 64);
  }
  point();
  {
    Atomic q;
    o.open = false;
  }
  e = a0_file_close(&o.file);
  MC_CHECK(!e, "closing fails: %s", err_str(e).c_str());
}
struct F01Opt {
  int n;
  string dir;        // "": all there; "x/y": these are missing
  bool kill = false, relative = false, remove = false, exists = false, threads = false;
  int readonly = -1;
};
static void f01(F01Opt q) {
  fs::reset();
  seen.clear();
  removing = q.remove;
  for (auto& o : op) o = Opener();
  target = q.dir.empty() ? "t" : q.dir + "/t";
  if (q.exists) put_file(target, SIZE, MODE);
  fs::monitor = watch;
  int f[4], r = -1;
  for (int k = 0; k < q.n; k++) {
    strcpy(op[k].full, (fs::base + "/" + target).c_str());
    strcpy(op[k].path, q.relative && k % 2 ? target.c_str() : op[k].full);
    bool ro = q.readonly == k;
    f[k] = spawn(q.threads ? 1 : 1 + k, ("opener" + std::to_string(k)).c_str(), [k, ro] { opener(k, ro); }, q.kill && k == 0 ? KILLABLE : 0);
  }
  if (q.remove)
    r = spawn(9, "remover", [] {
      fs::step(op[0].full);
      Untracked u;
      unlink((fs::base + "/" + target).c_str());
    });
  run();
  (void)r;
  Atomic a;
  std::set<int> dead;
  for (int k = 0; k < q.n; k++)
    if (died(f[k])) {
      dead.insert(k);
      fs::died(1 + k);
      outcome(100 + fs::calls.size());
    }
  MC_CHECK(fs::open_files() == 0, "not released after closing: %s", fs::leaked().c_str());
  auto m = tree();
  outcome(m.size());
  outcome(seen.size());
  std::vector<string> rest;
  for (auto& e : m)
    if (e.second.kind != 'd' && e.first != target) rest.push_back(e.first);
  MC_CHECK(rest.size() <= dead.size(), "temporary files are left behind: %s", names(m).c_str());
  if (!q.remove && (dead.size() < (size_t)q.n || q.exists)) {
    MC_CHECK(m.count(target), "the file is not there: %s", names(m).c_str());
    FILE* fp = fopen((fs::base + "/" + target).c_str(), "rb");
    MC_CHECK(fp, "the file cannot be read");
    std::vector<char> b(SIZE);
    MC_CHECK(fread(b.data(), 1, SIZE, fp) == (size_t)SIZE, "the file is short");
    fclose(fp);
    for (int k = 0; k < q.n; k++)
      if (!dead.count(k) && q.readonly != k)
        for (int i = 0; i < 64; i++) MC_CHECK(b[64 * k + i] == 'a' + k && b[SIZE - 64 * (k + 1) + i] == 'a' + k, "what a process wrote is not in the file");
    for (int i = 64 * q.n; i < SIZE - 64 * q.n; i++) MC_CHECK(!b[i], "a new file is not all zero");
  }
  // and the next process can open it, whatever was left behind
  fs::monitor = nullptr;
  a0_file_t g;
  a0_file_options_t opt = options();
  a0_err_t e = a0_file_open((fs::base + "/" + target).c_str(), &opt, &g);
  MC_CHECK(!e, "opening afterwards fails: %s", err_str(e).c_str());
  check_open(g, fs::base + "/" + target, SIZE);
  MC_CHECK(!a0_file_close(&g), "closing afterwards fails");
}

// ---- F02: failing calls ---------------------------------------------------------------------
static bool excused(a0_err_t e) {
  for (auto& i : fs::injected)
    if (A0_SYSERR(e) == i.second) return true;
  return false;
}
static string why() {
  string s;
  for (auto& i : fs::injected) s += " [" + i.first + " failed with " + strerror(i.second) + "]";
  return s;
}
enum { START_NOTHING, START_DIRS, START_FILE, START_BIGGER, START_EMPTY, START_DIR, START_NOTDIR, START_READABLE, START_LOCKED, START_LINK, START_DANGLING, NSTART };
static void f02(int nfaults, int start, bool readonly, bool relative, bool defaults) {
  fs::reset();
  if (defaults) readonly = false;
  target = "x/y/t";
  int natural = 0;
  off_t want = defaults ? 16 << 20 : SIZE;
  if (start != START_NOTHING) {
    put_dir("x");
    if (start != START_NOTDIR) put_dir("x/y");
  }
  switch (start) {
    case START_FILE: put_file(target, want); break;
    case START_BIGGER: put_file(target, want = 3 * SIZE); break;
    case START_EMPTY:
      put_file(target, 0);
      natural = EINVAL;
      break;
    case START_DIR:
      put_dir(target);
      natural = readonly ? -1 : EISDIR;
      break;
    case START_NOTDIR:
      put_file("x/y", 10);
      natural = ENOTDIR;
      break;
    case START_READABLE:
      put_file(target, want, 0444);
      if (!readonly) natural = EACCES;
      break;
    case START_LOCKED:
      put_file(target, want, 0);
      natural = EACCES;
      break;
    case START_LINK:
      put_file("x/y/other", want = 2 * SIZE);
      put_link(target, "other");
      break;
    case START_DANGLING:
      put_link(target, "other");
      natural = -1;  // some error
      break;
  }
  // the library would loop here for ever; not what is examined
  if (start == START_DANGLING) return;
  auto before = tree();
  fs::faults = nfaults;
  a0_file_t f;
  memset(&f, 0, sizeof f);
  a0_file_options_t opt = options(readonly);
  string path = relative ? target : fs::base + "/" + target;
  a0_err_t e = a0_file_open(path.c_str(), defaults ? nullptr : &opt, &f);
  outcome(e == A0_ERR_SYS ? 1000 + a0_err_syscode : e);
  auto mid = tree();
  auto no_rest = [&](const std::map<string, Node>& m, const char* when) {
    for (auto& n : m) {
      if (n.second.kind == 'd' || n.first == target || before.count(n.first)) continue;
      fail("%s, another file is left behind: %s%s", when, names(m).c_str(), why().c_str());
    }
    for (auto& n : before) MC_CHECK(m.count(n.first) && m.at(n.first).ino == n.second.ino && (n.second.kind == 'd' || m.at(n.first).size == n.second.size) && m.at(n.first).mode == n.second.mode, "%s, %s is gone or changed%s", when, n.first.c_str(), why().c_str());
    auto it = m.find(target);
    if (it != m.end() && !before.count(target)) MC_CHECK(it->second.kind == 'f' && it->second.size == want && it->second.mode == (defaults ? 0666 : MODE), "%s, a half-made file is left under the name%s", when, why().c_str());
  };
  if (e) {
    MC_CHECK(excused(e) || natural == -1 || (natural && A0_SYSERR(e) == natural), "opening returns %s%s", err_str(e).c_str(), why().c_str());
    MC_CHECK(fs::open_files() == 0, "after opening failed, not released: %s%s", fs::leaked().c_str(), why().c_str());
    no_rest(mid, "after opening failed");
  } else {
    MC_CHECK(!natural, "opening claims to have succeeded%s", why().c_str());
    check_open(f, fs::base + "/" + target, want);
    no_rest(mid, "after opening");
    MC_CHECK(mid.count(target), "after opening, there is no file%s", why().c_str());
    if (start == START_NOTHING) {
      MC_CHECK(mid.count("x") && mid.at("x").mode == (defaults ? 0755 : 0750) && mid.at("x/y").mode == (defaults ? 0755 : 0750), "a directory made has not the mode asked for");
    }
    if (!readonly) {
      f.arena.buf.data[0] = 7;
      f.arena.buf.data[want - 1] = 9;
    }
    e = a0_file_close(&f);
    outcome(e == A0_ERR_SYS ? 1000 + a0_err_syscode : e);
    MC_CHECK(!e || excused(e), "closing returns %s%s", err_str(e).c_str(), why().c_str());
    MC_CHECK(fs::open_files() == 0, "after closing, not released: %s%s", fs::leaked().c_str(), why().c_str());
    no_rest(tree(), "after closing");
    FILE* fp = fopen((fs::base + "/" + target).c_str(), "rb");
    if (fp) {
      int c0 = getc(fp);
      fseek(fp, want - 1, SEEK_SET);
      int c1 = getc(fp);
      fclose(fp);
      if (!readonly) MC_CHECK(c0 == 7 && c1 == 9, "what was written is not in the file%s", why().c_str());
    }
  }
  // a later attempt
  fs::faults = 0;
  string earlier = why();
  fs::injected.clear();
  e = a0_file_open(path.c_str(), defaults ? nullptr : &opt, &f);
  if (natural) {
    MC_CHECK(e, "a later attempt to open succeeds");
    no_rest(tree(), "after a later attempt");
  } else {
    MC_CHECK(!e, "a later attempt to open returns %s%s", err_str(e).c_str(), earlier.c_str());
    check_open(f, fs::base + "/" + target, want);
    MC_CHECK(!a0_file_close(&f), "closing later fails");
    no_rest(tree(), "after a later attempt");
  }
  MC_CHECK(fs::open_files() == 0, "after a later attempt, not released: %s", fs::leaked().c_str());
}

// ---- F03: names and paths -------------------------------------------------------------------
static std::vector<string> words(const string& alphabet, int upto) {
  std::vector<string> w = {""};
  for (size_t i = 0; i < w.size(); i++)
    if ((int)w[i].size() < upto)
      for (char c : alphabet) w.push_back(w[i] + c);
  return w;
}
// is every part of this name something other than nothing, '.' and '..'?
static bool plain(const string& n) {
  string part;
  for (char c : n + "/") {
    if (c != '/') {
      part += c;
      continue;
    }
    if (part.empty() || part == "." || part == "..") return false;
    part.clear();
  }
  return true;
}
static const char* TMPL[] = {"{topic}", "{topic}.x", "x.{topic}", "a/{topic}/b", "p{topic}q", "{{topic}}", "a{topic", "", "{topi}c", "x", "{Topic}", nullptr, "{topic}{topic", "{top{topic}ic}"};
static const int NTMPL = sizeof TMPL / sizeof *TMPL;
static string fill(const char* tmpl, const string& name, bool& ok) {
  ok = false;
  if (!tmpl || name.empty() || name[0] == '/') return "";
  string t = tmpl;
  size_t k = t.find("{topic}");
  if (k == string::npos) return "";
  ok = true;
  return t.substr(0, k) + name + t.substr(k + 7);
}
static void f03_paths(int len) {
  const char* t = TMPL[choose(NTMPL)];
  long n = 0;
  auto one = [&](const char* name) {
    bool ok;
    string want = fill(t, name ? name : "", ok);
    const char* got = "unset";
    a0_err_t e = a0_topic_path(t, name, &got);
    if (!ok) MC_CHECK(e, "template '%s' with name '%s' is accepted", t ? t : "(none)", name ? name : "(none)");
    else {
      MC_CHECK(!e, "template '%s' with name '%s' is refused", t, name);
      MC_CHECK(want == got, "template '%s' with name '%s' gives '%s'", t, name, got);
    }
    n++;
  };
  one(nullptr);
  for (auto& w : words("a/.{}", len)) one(w.c_str());
  for (const char* w : {"{topic}", "a{topic}b", "topic", "{topic", "{topic}{topic}"}) one(w);
  string big(5000, 'n');
  one(big.c_str());
  outcome(n);
}
static void f03_open(int len) {
  fs::reset();
  const char* t = TMPL[choose(NTMPL)];
  int absolute = choose(2);
  string ta = t ? fs::base + "/abs/" + t : "";
  const char* tt = t && absolute ? ta.c_str() : t;
  a0_file_options_t opt = options();
  long n = 0;
  std::set<string> before;
  for (auto& name : words("ab/.", len)) {
    bool ok;
    string want = fill(tt, name, ok);
    // such parts make different names mean one place
    if (ok && !plain(name)) continue;
    if (ok && !absolute) want = fs::base + "/" + want;
    a0_file_t f;
    size_t had = ok ? 0 : tree().size();
    a0_err_t e = a0_topic_open(tt, name.c_str(), &opt, &f);
    n++;
    if (!ok) {
      MC_CHECK(e, "template '%s' with name '%s' is opened", t ? t : "(none)", name.c_str());
      MC_CHECK(tree().size() == had, "a refused name leaves files behind");
      continue;
    }
    // a name may need a directory where an earlier one has its file
    bool clash = false;
    for (size_t k = want.find('/', fs::base.size() + 1); k != string::npos; k = want.find('/', k + 1)) {
      struct stat st;
      if (!lstat(want.substr(0, k).c_str(), &st) && !S_ISDIR(st.st_mode)) clash = true;
    }
    struct stat st;
    if (e && ((!lstat(want.c_str(), &st) && S_ISDIR(st.st_mode)) || clash)) continue;
    MC_CHECK(!e, "template '%s' with name '%s' cannot be opened: %s", t, name.c_str(), err_str(e).c_str());
    check_open(f, want, SIZE);
    MC_CHECK(!lstat(want.c_str(), &st) && st.st_ino == f.stat.st_ino, "the file of name '%s' is not where it should be", name.c_str());
    MC_CHECK(before.insert(want).second, "two names share a file");
    MC_CHECK(!a0_file_close(&f), "closing fails");
  }
  for (auto& e : tree()) if (e.second.kind == 'f') MC_CHECK(before.count(fs::base + "/" + e.first), "a file appears under another name: %s", e.first.c_str());
  outcome(n);
}
// settings: every variable unset or set
struct Kind {
  const char* var;
  const char* (*get)();
  const char* def;
};
static const Kind KIND[] = {
    {"A0_TOPIC_TMPL_CFG", a0_env_topic_tmpl_cfg, "{topic}.cfg.a0"},
    {"A0_TOPIC_TMPL_DEADMAN", a0_env_topic_tmpl_deadman, "{topic}.deadman"},
    {"A0_TOPIC_TMPL_LOG", a0_env_topic_tmpl_log, "{topic}.log.a0"},
    {"A0_TOPIC_TMPL_PRPC", a0_env_topic_tmpl_prpc, "{topic}.prpc.a0"},
    {"A0_TOPIC_TMPL_PUBSUB", a0_env_topic_tmpl_pubsub, "{topic}.pubsub.a0"},
    {"A0_TOPIC_TMPL_RPC", a0_env_topic_tmpl_rpc, "{topic}.rpc.a0"},
};
static a0_alloc_t a0_malloc_() {
  static char mem[4][4096];
  static int n;
  return {nullptr, [](void*, size_t size, a0_buf_t* out) -> a0_err_t {
            *out = {(uint8_t*)mem[n++ % 4], size};
            return size > sizeof mem[0] ? A0_ERR_RANGE : A0_OK;
          },
          nullptr};
}
static void f03_kinds(const char* name, string (&want)[6]) {
  a0_file_options_t opt = A0_FILE_OPTIONS_DEFAULT;
  opt.create_options.size = 65536;
  auto expect = [&](int k, a0_err_t e, const char* what) {
    MC_CHECK(!e, "%s '%s' cannot be made: %s", what, name, err_str(e).c_str());
    auto m = tree();
    MC_CHECK(m.count(want[k]), "%s '%s' has no file %s but there is %s", what, name, want[k].c_str(), names(m).c_str());
    for (auto& f : m)
      if (f.second.kind != 'd') MC_CHECK(f.first == want[k], "%s '%s' makes a file %s", what, name, f.first.c_str());
  };
  auto clear = [&](int k) {
    MC_CHECK(!unlink((fs::base + "/" + want[k]).c_str()), "no file");
    MC_CHECK(fs::open_files() == 0, "not released after closing: %s", fs::leaked().c_str());
  };
  {
    a0_cfg_t c;
    expect(0, a0_cfg_init(&c, {name, &opt}), "configuration");
    a0_cfg_close(&c);
    clear(0);
  }
  {
    a0_deadman_t d;
    expect(1, a0_deadman_init(&d, {name}), "deadman switch");
    a0_deadman_close(&d);
    clear(1);
  }
  {
    a0_logger_t l;
    expect(2, a0_logger_init(&l, {name, &opt}), "logger");
    a0_logger_close(&l);
    clear(2);
  }
  {
    a0_log_listener_t l;
    a0_err_t e = a0_log_listener_init(&l, {name, &opt}, a0_malloc_(), A0_LOG_LEVEL_DBG, A0_READER_OPTIONS_DEFAULT, {nullptr, [](void*, a0_packet_t) {}});
    expect(2, e, "log listener");
    a0_log_listener_close(&l);
    clear(2);
  }
  {
    a0_prpc_server_t v;
    expect(3, a0_prpc_server_init(&v, {name, &opt}, a0_malloc_(), {nullptr, [](void*, a0_prpc_connection_t) {}}, {nullptr, nullptr}), "progressive call server");
    a0_prpc_server_close(&v);
    clear(3);
    a0_prpc_client_t c;
    expect(3, a0_prpc_client_init(&c, {name, &opt}, a0_malloc_()), "progressive call client");
    a0_prpc_client_close(&c);
    clear(3);
  }
  {
    a0_publisher_t v;
    expect(4, a0_publisher_init(&v, {name, &opt}), "publisher");
    a0_publisher_close(&v);
    clear(4);
    a0_subscriber_sync_t c;
    expect(4, a0_subscriber_sync_init(&c, {name, &opt}, a0_malloc_(), A0_READER_OPTIONS_DEFAULT), "subscriber");
    a0_subscriber_sync_close(&c);
    clear(4);
    a0_subscriber_sync_zc_t z;
    expect(4, a0_subscriber_sync_zc_init(&z, {name, &opt}, A0_READER_OPTIONS_DEFAULT), "subscriber");
    a0_subscriber_sync_zc_close(&z);
    clear(4);
    a0_subscriber_t t;
    expect(4, a0_subscriber_init(&t, {name, &opt}, a0_malloc_(), A0_READER_OPTIONS_DEFAULT, {nullptr, [](void*, a0_packet_t) {}}), "subscriber");
    a0_subscriber_close(&t);
    clear(4);
    a0_subscriber_zc_t y;
    expect(4, a0_subscriber_zc_init(&y, {name, &opt}, A0_READER_OPTIONS_DEFAULT, {nullptr, [](void*, a0_transport_locked_t, a0_flat_packet_t) {}}), "subscriber");
    a0_subscriber_zc_close(&y);
    clear(4);
  }
  {
    a0_rpc_server_t v;
    expect(5, a0_rpc_server_init(&v, {name, &opt}, a0_malloc_(), {nullptr, [](void*, a0_rpc_request_t) {}}, {nullptr, nullptr}), "call server");
    a0_rpc_server_close(&v);
    clear(5);
    a0_rpc_client_t c;
    expect(5, a0_rpc_client_init(&c, {name, &opt}, a0_malloc_()), "call client");
    a0_rpc_client_close(&c);
    clear(5);
  }
}
static void f03_env() {
  fs::reset();
  static char buf[8][160];
  string tmpl[6];
  for (int k = 0; k < 6; k++) {
    tmpl[k] = KIND[k].def;
    if (choose(2)) {
      tmpl[k] = "my/{topic}.k" + std::to_string(k);
      snprintf(buf[k], sizeof buf[k], "%s=%s", KIND[k].var, tmpl[k].c_str());
      putenv(buf[k]);
    } else unsetenv(KIND[k].var);
  }
  int root = choose(3);
  string sub;
  if (root == 1) {
    sub = "other";
    snprintf(buf[6], sizeof buf[6], "A0_ROOT=%s/other", fs::base.c_str());
    putenv(buf[6]);
  }
  if (root == 2) unsetenv("A0_ROOT");
  int topic = choose(2);
  snprintf(buf[7], sizeof buf[7], "A0_TOPIC=zz");
  if (topic) putenv(buf[7]);
  else unsetenv("A0_TOPIC");
  for (int k = 0; k < 6; k++) MC_CHECK(tmpl[k] == KIND[k].get(), "%s is '%s' instead of '%s'", KIND[k].var, KIND[k].get(), tmpl[k].c_str());
  MC_CHECK(topic ? a0_env_topic() && !strcmp(a0_env_topic(), "zz") : !a0_env_topic(), "A0_TOPIC is wrong");
  string r = root == 2 ? "/dev/shm/alephzero" : sub.empty() ? fs::base : fs::base + "/" + sub;
  MC_CHECK(r == a0_env_root(), "the root is %s instead of %s", fs::rel(a0_env_root()).c_str(), fs::rel(r).c_str());
  if (root == 2) {
    // the default root: nothing may really be made there; see where it would have been
    fs::refuse = true;
    for (int k = 0; k < 6; k++) {
      a0_file_t f;
      fs::outside.clear();
      a0_err_t e = a0_topic_open(KIND[k].get(), "verif-a/b", nullptr, &f);
      MC_CHECK(e, "a refused call is not reported");
      MC_CHECK(fs::outside.size(), "nothing was tried in the default root");
      for (auto& o : fs::outside) {
        string p = o.substr(o.find(' ') + 1), w = r + "/" + tmpl[k];
        MC_CHECK(p == r || p.compare(0, r.size() + 1, r + "/") == 0, "the default root is not used but %s", p.c_str());
      }
    }
    MC_CHECK(tree().empty(), "something was made elsewhere");
    return;
  }
  string want[6];
  static const char* NAME[] = {"t", "d/t", "a.cfg"};
  static const char* nm;
  nm = NAME[choose(3)];
  for (int k = 0; k < 6; k++) {
    bool ok;
    want[k] = (sub.empty() ? "" : sub + "/") + fill(tmpl[k].c_str(), nm, ok);
  }
  static string (*w)[6];
  w = &want;
  spawn(1, "user", [] { f03_kinds(nm, *w); });
  run();
  unsetenv("A0_TOPIC");
  for (int k = 0; k < 6; k++) unsetenv(KIND[k].var);
}

// ---- F04: listing and removing ----------------------------------------------------------------
enum { E_NONE, E_FILE, E_DIR, E_DIR_FILE, E_DIR_DIR_FILE, E_DIR_LINK_OUT, E_LINK_FILE, E_LINK_DIR, E_LINK_NONE, E_LINK_UP, E_HIDDEN, NENTRY };
static void put_entry(const string& p, int kind) {
  switch (kind) {
    case E_FILE: put_file(p, 3); break;
    case E_DIR: put_dir(p); break;
    case E_DIR_FILE:
      put_dir(p);
      put_file(p + "/f", 1);
      break;
    case E_DIR_DIR_FILE:
      put_dir(p);
      put_dir(p + "/d");
      put_file(p + "/d/f", 1);
      put_file(p + "/g", 1);
      break;
    case E_DIR_LINK_OUT:
      put_dir(p);
      put_link(p + "/l", fs::base + "/out");
      put_file(p + "/m", 1);
      break;
    case E_LINK_FILE: put_link(p, fs::base + "/out/f"); break;
    case E_LINK_DIR: put_link(p, fs::base + "/out"); break;
    case E_LINK_NONE: put_link(p, "nowhere"); break;
    case E_LINK_UP: put_link(p, ".."); break;
    case E_HIDDEN:
      put_dir(p);
      put_file(p + "/.h", 1);
      put_dir(p + "/..d");
      put_file(p + "/..d/...", 1);
      put_link(p + "/.l", fs::base + "/out/d");
      break;
  }
}
static int dtype(char k) { return k == 'd' ? DT_DIR : k == 'f' ? DT_REG : DT_LNK; }
static string given(const string& p, int how) {
  switch (how) {
    case 0: return fs::base + "/" + p;
    case 1: return p;
    case 2: return fs::base + "/" + p + "/";
    default: return p + "/";
  }
}
static a0_file_iter_t* it_mem;
// does this name lead through a link (so that it names a place elsewhere)?
static bool through_link(const string& p, int how) {
  struct stat st;
  string q = how >= 2 ? p + "/" : p;
  for (size_t k = q.find('/'); k != string::npos; k = q.find('/', k + 1))
    if (!lstat((fs::base + "/" + q.substr(0, k)).c_str(), &st) && S_ISLNK(st.st_mode)) return true;
  return false;
}
static void list(const string& p, int how, int nfaults) {
  auto want = tree(p);
  for (auto i = want.begin(); i != want.end();)
    if (i->first.find('/') != string::npos) i = want.erase(i);
    else ++i;
  a0_file_iter_t& it = *it_mem;
  memset(&it, 0xEE, sizeof it);
  if (through_link(p, how)) return;
  fs::faults = nfaults;
  string g = given(p, how);
  a0_err_t e = a0_file_iter_init(&it, g.c_str());
  fs::faults = 0;
  struct stat st;
  bool isdir = !lstat((fs::base + "/" + p).c_str(), &st) && S_ISDIR(st.st_mode);
  if (e) {
    MC_CHECK(!isdir || excused(e), "listing %s fails: %s%s", fs::rel(g).c_str(), err_str(e).c_str(), why().c_str());
    MC_CHECK(fs::open_files() == 0, "not released: %s%s", fs::leaked().c_str(), why().c_str());
    return;
  }
  std::map<string, int> got;
  a0_file_iter_entry_t en;
  while (!(e = a0_file_iter_next(&it, &en))) {
    string n = en.filename;
    MC_CHECK(want.count(n), "listing %s yields %s, which is not there", fs::rel(g).c_str(), n.c_str());
    MC_CHECK(!got[n]++, "listing %s yields %s twice", fs::rel(g).c_str(), n.c_str());
    MC_CHECK(en.d_type == dtype(want[n].kind), "listing %s yields %s with a wrong kind", fs::rel(g).c_str(), n.c_str());
    MC_CHECK(fs::base + "/" + p + "/" + n == en.fullpath, "listing %s yields %s with path %s", fs::rel(g).c_str(), n.c_str(), fs::rel(en.fullpath).c_str());
  }
  MC_CHECK(e == A0_ERR_ITER_DONE, "listing %s ends with %s", fs::rel(g).c_str(), err_str(e).c_str());
  MC_CHECK(got.size() == want.size(), "listing %s yields %zu of %zu entries", fs::rel(g).c_str(), got.size(), want.size());
  MC_CHECK(!a0_file_iter_close(&it), "closing a listing fails");
  MC_CHECK(fs::open_files() == 0, "not released: %s", fs::leaked().c_str());
}
static bool same(const Node& a, const Node& b) { return a.kind == b.kind && a.ino == b.ino && a.mode == b.mode && (a.kind == 'd' || a.size == b.size); }
static void remove_one(const string& p, int how, bool all, int nfaults) {
  if (through_link(p, how)) return;
  auto before = tree();
  string g = given(p, how);
  fs::faults = nfaults;
  fs::removal_faults = true;
  a0_err_t e = all ? a0_file_remove_all(g.c_str()) : a0_file_remove(g.c_str());
  fs::faults = 0;
  outcome(e == A0_ERR_SYS ? 1000 + a0_err_syscode : e);
  const char* op = all ? "removing the tree" : "removing";
  auto after = tree();
  bool there = before.count(p), isdir = there && before[p].kind == 'd';
  bool empty = true;
  for (auto& n : before)
    if (n.first.compare(0, p.size() + 1, p + "/") == 0) empty = false;
  bool gone_all = true;
  for (auto& n : before) {
    bool in = n.first == p || n.first.compare(0, p.size() + 1, p + "/") == 0;
    bool kept = after.count(n.first) && same(after[n.first], n.second);
    if (!in) MC_CHECK(kept, "%s %s also removes or changes %s%s", op, fs::rel(g).c_str(), n.first.c_str(), why().c_str());
    if (in && after.count(n.first)) gone_all = false;
    if (in && !all && (n.first != p)) MC_CHECK(kept, "%s %s removes %s%s", op, fs::rel(g).c_str(), n.first.c_str(), why().c_str());
  }
  for (auto& n : after) MC_CHECK(before.count(n.first), "%s %s makes %s", op, fs::rel(g).c_str(), n.first.c_str());
  MC_CHECK(fs::open_files() == 0, "after %s %s, not released: %s%s", op, fs::rel(g).c_str(), fs::leaked().c_str(), why().c_str());
  if (!e) MC_CHECK(there && gone_all, "%s %s claims to have succeeded but it is %s%s", op, fs::rel(g).c_str(), there ? "still there" : "not there at all", why().c_str());
  else if (fs::injected.empty()) {
    bool may = !there || (how >= 2 && !isdir)              // nothing there; a trailing slash asks for a directory
               || (all && !isdir)                          // not a directory
               || (!all && isdir && !empty);
    MC_CHECK(may, "%s %s fails: %s", op, fs::rel(g).c_str(), err_str(e).c_str());
    // an error without anything having been wrong in the middle: nothing is touched
    MC_CHECK(after.size() == before.size(), "%s %s fails with %s but removes something", op, fs::rel(g).c_str(), err_str(e).c_str());
  }
}
static void f04_make(int slots) {
  fs::reset();
  put_dir("out");
  put_file("out/f", 5);
  put_dir("out/d");
  put_file("out/d/g", 5);
  put_dir("T");
  put_dir("Tx");
  put_file("Tx/f", 1);
  for (int i = 0; i < slots; i++) {
    static const char* N[] = {"a", "b", "c"};
    put_entry(string("T/") + N[i], choose(NENTRY));
  }
}
static void f04_list(int slots) {
  f04_make(slots);
  int how = choose(4), where = choose(5);
  static const char* W[] = {"T", "T/a", "Tx/f", "missing", "T/a/d"};
  list(W[where], how, where == 0 ? 1 : 0);
}
static void f04_remove(int slots, bool all, int nfaults) {
  f04_make(slots);
  int how = choose(4), where = choose(6);
  static const char* W[] = {"T", "T/a", "Tx/f", "missing", "missing/a", "T/a/d"};
  remove_one(W[where], how, all, nfaults);
}
// paths near the longest supported
static void f04_long(bool all) {
  fs::reset();
  int names = 15 + choose(7), last = choose(3), tail = 1 + choose(64) * 4;
  string part(190, 'p'), p = "T";
  int fd = open((fs::base + "/").c_str(), O_RDONLY | O_DIRECTORY);
  auto down = [&](const string& n) {
    mkdirat(fd, n.c_str(), 0755);
    int g = openat(fd, n.c_str(), O_RDONLY | O_DIRECTORY);
    close(fd);
    fd = g;
  };
  down("T");
  for (int i = 0; i < names; i++) {
    p += "/" + part;
    down(part);
  }
  string entry(tail, 'e');
  if (last == 0) close(openat(fd, entry.c_str(), O_CREAT | O_RDWR, 0644));
  if (last == 1) mkdirat(fd, entry.c_str(), 0755);
  if (last == 2) {
    mkdirat(fd, entry.c_str(), 0755);
    int g = openat(fd, entry.c_str(), O_RDONLY | O_DIRECTORY);
    close(openat(g, "f", O_CREAT | O_RDWR, 0644));
    close(g);
  }
  close(fd);
  if (!all) {
    a0_file_iter_t& it = *it_mem;
    memset(&it, 0xEE, sizeof it);
    string dir = fs::base + "/" + p;
    a0_err_t e = a0_file_iter_init(&it, dir.c_str());
    if (e) {
      MC_CHECK(dir.size() + 1 >= PATH_MAX, "listing a directory with a path of %zu characters fails: %s", dir.size(), err_str(e).c_str());
      return;
    }
    a0_file_iter_entry_t en;
    e = a0_file_iter_next(&it, &en);
    outcome(e == A0_ERR_SYS ? 1000 + a0_err_syscode : e);
    if (e) MC_CHECK(e != A0_ERR_ITER_DONE && dir.size() + 1 + entry.size() >= PATH_MAX, "an entry with a path of %zu characters is left out: %s", dir.size() + 1 + entry.size(), err_str(e).c_str());
    else {
      MC_CHECK(entry == en.filename && dir + "/" + entry == en.fullpath, "an entry with a path of %zu characters is listed with a wrong one", dir.size() + 1 + entry.size());
      MC_CHECK(a0_file_iter_next(&it, &en) == A0_ERR_ITER_DONE, "the listing does not end");
    }
    MC_CHECK(!a0_file_iter_close(&it), "closing a listing fails");
  } else {
    a0_err_t e = a0_file_remove_all("T");
    outcome(e == A0_ERR_SYS ? 1000 + a0_err_syscode : e);
    struct stat st;
    bool there = !lstat((fs::base + "/T").c_str(), &st);
    MC_CHECK(!e == !there, "removing a tree %s but it is %s", e ? "fails" : "claims to have succeeded", there ? "there" : "gone");
    if (fs::base.size() + 1 + p.size() + 1 + entry.size() + 2 < PATH_MAX) MC_CHECK(!e, "removing a tree with paths of %zu characters fails: %s", fs::base.size() + p.size() + entry.size() + 4, err_str(e).c_str());
  }
  MC_CHECK(fs::open_files() == 0, "not released: %s", fs::leaked().c_str());
}

void define_scenarios() {
  it_mem = (a0_file_iter_t*)make_handle(sizeof(a0_file_iter_t));
  auto kill = [](mc::Config c) {
    c.crash_only_stores = false;
    return c;
  };
  scenario("F01", "two", cfg(8), cfg(12), [] { f01({2, ""}); });
  scenario("F01", "two-dirs", cfg(6), cfg(8), [] { f01({2, "x/y"}); });
  scenario("F01", "two-exists", cfg(4), cfg(8), [] { f01({.n = 2, .exists = true}); });
  scenario("F01", "three", cfg(3), cfg(4), [] { f01({3, "x"}); });
  scenario("F01", "two-death", kill(cfg(3, 1)), kill(cfg(8, 1)), [] { f01({2, "x/y", true}); });
  scenario("F01", "three-death", kill(cfg(2, 1)), kill(cfg(3, 1)), [] { f01({3, "", true}); });
  scenario("F01", "two-relative", cfg(3), cfg(8), [] { f01({.n = 2, .dir = "x", .relative = true}); });
  scenario("F01", "two-readonly", cfg(3), cfg(8), [] { f01({.n = 2, .dir = "x", .readonly = 1}); });
  scenario("F01", "two-threads", cfg(3), cfg(8), [] { f01({.n = 2, .dir = "x", .threads = true}); });
  scenario("F01", "two-remove", cfg(3), cfg(6), [] { f01({.n = 2, .dir = "x", .remove = true}); });
  scenario("F01", "two-remove-death", kill(cfg(2, 1)), kill(cfg(4, 1)), [] { f01({.n = 2, .kill = true, .remove = true}); });

  scenario("F02", "one", cfg(0), cfg(0), [] {
    int s = choose(NSTART), ro = choose(2), re = choose(2), de = choose(2);
    f02(1, s, ro, re, de);
  });
  scenario("F02", "two", cfg(0), cfg(0), [] {
    int s = choose(NSTART), ro = choose(2), re = choose(2);
    f02(2, s, ro, re, false);
  });
  scenario("F02", "three", cfg(0), cfg(0), [] {
    int s = choose(NSTART);
    f02(3, s, false, false, false);
  });
  scenario("F03", "paths", cfg(0), cfg(0), [] { f03_paths(6); });
  scenario("F03", "open", cfg(0), cfg(0), [] { f03_open(4); });
  scenario("F03", "settings", cfg(0), cfg(0), f03_env);
  scenario("F04", "list", cfg(0), cfg(0), [] { f04_list(2); });
  scenario("F04", "list-three", cfg(0), cfg(0), [] { f04_list(3); });
  scenario("F04", "remove", cfg(0), cfg(0), [] { f04_remove(2, false, 0); });
  scenario("F04", "remove-tree", cfg(0), cfg(0), [] { f04_remove(3, true, 0); });
  scenario("F04", "remove-failing", cfg(0), cfg(0), [] { f04_remove(1, false, 1); });
  scenario("F04", "remove-tree-failing", cfg(0), cfg(0), [] { f04_remove(2, true, 1); });
  scenario("F04", "remove-tree-failing-twice", cfg(0), cfg(0), [] { f04_remove(2, true, 2); }, true);
  scenario("F04", "list-long", cfg(0), cfg(0), [] { f04_long(false); });
  scenario("F04", "remove-tree-long", cfg(0), cfg(0), [] { f04_long(true); });
}
