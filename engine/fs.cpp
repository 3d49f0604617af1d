#include "fs.h"

#include "mc.h"

#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fsuid.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace fs {
std::string base;
bool refuse;
std::vector<std::string> outside, calls;
int faults;
bool removal_faults;
std::vector<std::pair<std::string, int>> injected;
void (*monitor)();

static char g_top[64];
static pid_t g_maker, g_mine;
struct Res {
  std::string path;
  int proc;
};
static std::map<int, Res> g_fd;
static std::set<int> g_dead;
struct Map {
  size_t size;
  int proc;
};
static std::map<void*, Map> g_map;
static std::map<DIR*, Res> g_dir;
static bool g_events;
static int g_waiting;  // fibers waiting for events
static int g_waitfd;
static int g_tmp[16];
static const int NOBODY = 65534;

static void rmtree(int at, const char* name) {
  if (unlinkat(at, name, 0) == 0 || errno == ENOENT) return;
  int fd = openat(at, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd < 0) {
    fchmodat(at, name, 0700, 0);
    fd = openat(at, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (fd < 0) return;
  }
  DIR* d = fdopendir(fd);
  while (dirent* e = readdir(d))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rmtree(fd, e->d_name);
  closedir(d);
  unlinkat(at, name, AT_REMOVEDIR);
}
static void drop_top() {
  if (getpid() != g_maker || !strstr(g_top, "/verif-fs-")) return;
  setfsuid(0);
  rmtree(AT_FDCWD, g_top);
}
__attribute__((constructor)) static void make_top() {
  const char* in = getenv("VERIF_SCRATCH");
  snprintf(g_top, sizeof g_top, "%s/verif-fs-XXXXXX", in && strlen(in) < 40 ? in : "/dev/shm");
  if (!mkdtemp(g_top)) mc::die("mkdtemp: %s", strerror(errno));
  chmod(g_top, 0755);
  g_maker = getpid();
  atexit(drop_top);
}
// inotify instances are used again, because releasing one takes the kernel long: emptied, and with watch numbers that
// start from 1 each time as those of a new one do (the kernel hands them out in ascending order).
struct Inotify {
  int fd;
  bool used;
  int base;
  std::set<int> wds;
};
static std::vector<Inotify> g_ino;
static Inotify* inotify_of(int fd) {
  for (auto& i : g_ino)
    if (i.fd == fd && i.used) return &i;
  return nullptr;
}
static void drain(int fd) {
  char b[4096];
  fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
  while (read(fd, b, sizeof b) > 0) {}
}
static int inotify_take(int flags) {
  Inotify* p = nullptr;
  for (auto& i : g_ino)
    if (!i.used) p = &i;
  if (!p) {
    int fd = inotify_init1(0);
    if (fd < 0) return fd;
    g_ino.push_back({fd, false, 0, {}});
    p = &g_ino.back();
  }
  p->used = true;
  int wd = inotify_add_watch(p->fd, "/", IN_ATTRIB);
  inotify_rm_watch(p->fd, wd);
  p->base = wd;
  p->wds.clear();
  drain(p->fd);
  fcntl(p->fd, F_SETFL, flags & IN_NONBLOCK ? O_NONBLOCK : 0);
  return p->fd;
}
static void inotify_give(Inotify* p) {
  for (int wd : p->wds) inotify_rm_watch(p->fd, wd);
  p->used = false;
}
static void after() {
  setfsuid(0);
  for (auto& i : g_ino)
    if (i.used) {
      g_fd.erase(i.fd);
      inotify_give(&i);
    }
  for (auto& d : g_dir) closedir(d.first);
  for (auto& f : g_fd) close(f.first);
  for (auto& m : g_map) munmap(m.first, m.second.size);
  g_dir.clear();
  g_fd.clear();
  g_map.clear();
  g_dead.clear();
}
void reset() {
  mc::g_after = after;
  if (g_mine != getpid()) {
    g_mine = getpid();
    char b[32];
    snprintf(b, sizeof b, "/p%08d", (int)g_mine);
    base = std::string(g_top) + b;
    umask(022);
  }
  after();
  rmtree(AT_FDCWD, base.c_str());
  if (mkdir(base.c_str(), 0755) || chown(base.c_str(), NOBODY, NOBODY)) mc::die("scratch directory: %s", strerror(errno));
  refuse = false;
  outside.clear();
  calls.clear();
  injected.clear();
  faults = 0;
  removal_faults = false;
  monitor = nullptr;
  g_events = false;
  g_waiting = 0;
  memset(g_tmp, 0, sizeof g_tmp);
  // in one place, whatever the execution: where it is read is part of the identity of an execution
  static char root[128];
  snprintf(root, sizeof root, "A0_ROOT=%s", base.c_str());
  putenv(root);
  // what the library does, it does as a user without privileges
  setfsuid(NOBODY);
}
void died(int proc) { g_dead.insert(proc); }
int open_files() {
  int n = 0;
  for (auto& f : g_fd) n += !g_dead.count(f.second.proc);
  for (auto& m : g_map) n += !g_dead.count(m.second.proc);
  for (auto& d : g_dir) n += !g_dead.count(d.second.proc);
  return n;
}
std::string rel(const std::string& p) {
  std::string o = p;
  size_t k;
  while (!base.empty() && (k = o.find(base)) != std::string::npos) o.replace(k, base.size(), "<root>");
  return o;
}
std::string leaked() {
  std::string s;
  for (auto& f : g_fd)
    if (!g_dead.count(f.second.proc)) s += "descriptor of " + rel(f.second.path) + "; ";
  for (auto& m : g_map)
    if (!g_dead.count(m.second.proc)) s += "mapping of " + std::to_string(m.second.size) + " bytes; ";
  for (auto& d : g_dir)
    if (!g_dead.count(d.second.proc)) s += "directory stream of " + rel(d.second.path) + "; ";
  return s;
}

static uint64_t h(const std::string& s0) {
  std::string s = rel(s0);
  uint64_t x = 1469598103934665603ull;
  for (char c : s) x = (x ^ (uint8_t)c) * 1099511628211ull;
  return x;
}
static std::string absolute(int at, const char* p) {
  if (!p) return "";
  std::string s;
  if (p[0] == '/') s = p;
  else {
    char b[PATH_MAX + 1] = "";
    if (at == AT_FDCWD) {
      if (!getcwd(b, sizeof b)) return p;
    } else {
      std::string l = "/proc/self/fd/" + std::to_string(at);
      ssize_t n = readlink(l.c_str(), b, PATH_MAX);
      if (n > 0) b[n] = 0;
    }
    s = std::string(b) + "/" + p;
  }
  std::string o;
  for (char c : s)
    if (!(c == '/' && !o.empty() && o.back() == '/')) o += c;
  while (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
static bool under(const std::string& p) { return p == base || p.compare(0, base.size() + 1, base + "/") == 0; }
static std::string parent(const std::string& p) {
  size_t k = p.rfind('/');
  return k == 0 || k == std::string::npos ? "/" : p.substr(0, k);
}
// would a change of this path reach outside? (follow: the call follows a link in the last place)
static bool escapes(const std::string& p, bool follow) {
  char b[PATH_MAX + 1];
  if (follow && realpath(p.c_str(), b)) return !under(b);
  std::string d = parent(p);
  if (!realpath(d.c_str(), b)) return false;  // fails anyway
  std::string r = b;
  return !(under(r) || r == base);
}
static void lookup(const std::string& p) {
  for (size_t k = base.size() + 1; k < p.size(); k++)
    if (p[k] == '/') mc::access(h(p.substr(0, k)), false);
}
static void changes(const std::string& p) {
  int e = errno;
  mc::access(h(p), true);
  mc::access(h(parent(p) + "/*"), false);  // changes of different entries commute; listing them does not commute with any
  if (g_events) mc::access(7, true);
  errno = e;
}
template <class T>
static T changed(const std::string& p, T r) {
  if (r >= 0) changes(p);
  return r;
}
void step(const std::string& p) {
  mc::point();
  lookup(p);
  changes(p);
}
// Begins a call. Returns false if it is made to fail.
enum { RD, WR, FD, FDR };
static bool begin(const char* name, const std::string& p, int kind, std::initializer_list<int> errs, bool removal = false) {
  int e0 = errno;
  if (!p.empty() && kind < FD && !under(p)) {
    errno = e0;
    return true;
  }
  mc::point();
  calls.push_back(std::string(name) + " " + rel(p));
  mc::note("%s %s", name, rel(p).c_str());
  if (!p.empty() && kind < FD) {
    lookup(p);
    mc::access(h(p), false);
  }
  if (kind == FDR) mc::access(h("fd" + p), false);
  if (kind == FD) mc::access(h("fd" + p), true);
  if (faults > 0 && errs.size() && (!removal || removal_faults)) {
    int c = mc::choose(1 + errs.size());
    if (c) {
      faults--;
      int e = *(errs.begin() + c - 1);
      injected.push_back({calls.back(), e});
      mc::note("   made to fail with %s", strerror(e));
      errno = e;
      return false;
    }
  }
  errno = e0;
  return true;
}
static bool guard(const char* name, const std::string& p, bool follow) {
  if (!escapes(p, follow)) return true;
  outside.push_back(std::string(name) + " " + rel(p));
  if (!refuse) mc::fail("%s of %s reaches outside the root", name, rel(p).c_str());
  errno = EACCES;
  return false;
}
template <class T>
static T end(T r) {
  int e = errno;
  if (monitor) {
    mc::Untracked u;
    monitor();
  }
  errno = e;
  return r;
}
}  // namespace fs
using namespace fs;

#define EX extern "C" __attribute__((visibility("default")))
// ---- opening ------------------------------------------------------------------------------
static int do_open(const char* nm, int at, const char* path, int flags, mode_t mode) {
  std::string p = absolute(at, path);
  bool ch = flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR);
  if (flags & (O_CREAT | O_TRUNC) ? !begin(nm, p, WR, {EACCES, EMFILE, ENOSPC}) : !begin(nm, p, RD, {EACCES, EMFILE, EINTR})) return end(-1);
  if (ch && !guard(nm, p, !(flags & O_NOFOLLOW))) return end(-1);
  int fd = openat(at, path, flags, mode);
  if (fd >= 0 && flags & (O_CREAT | O_TRUNC)) changes(p);
  if (fd >= 0) g_fd[fd] = {p, mc::cur_proc()};
  return end(fd);
}
extern "C" int mc_open(const char*, int, int);
extern "C" int mc_close(int);
extern "C" long mc_read(int, void*, size_t);
EX int fs_open(const char* path, int flags, int mode) {
  if (!strncmp(path, "/dev/", 5) && strncmp(path, "/dev/shm", 8)) return mc_open(path, flags, mode);
  return do_open("open", AT_FDCWD, path, flags, mode);
}
EX int fs_openat(int at, const char* path, int flags, int mode) { return do_open("openat", at, path, flags, mode); }
EX int fs_creat(const char* path, mode_t mode) { return do_open("creat", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EX int fs_close(int fd) {
  auto it = g_fd.find(fd);
  if (it == g_fd.end()) return mc_close(fd);
  std::string p = it->second.path;
  if (!begin("close", p, FDR, {EINTR, EIO})) {
    // the descriptor is gone all the same
    g_fd.erase(fd);
    close(fd);
    errno = injected.back().second;
    return end(-1);
  }
  g_fd.erase(fd);
  if (Inotify* p = inotify_of(fd)) {
    inotify_give(p);
    return end(0);
  }
  return end(close(fd));
}
static int do_mkstemp(char* t, int suffix, int flags) {
  size_t n = strlen(t);
  if (n < 6u + suffix || strncmp(t + n - 6 - suffix, "XXXXXX", 6)) {
    errno = EINVAL;
    return -1;
  }
  std::string p0 = absolute(AT_FDCWD, t);
  if (!begin("mkstemp", p0, RD, {EACCES, EMFILE, ENOSPC})) return end(-1);
  int proc = mc::cur_proc() & 15;
  for (int k = 0; k < 1000; k++) {
    char b[16];
    snprintf(b, sizeof b, "p%01xt%03d", proc, g_tmp[proc]++);
    memcpy(t + n - 6 - suffix, b, 6);
    std::string p = absolute(AT_FDCWD, t);
    changes(p);
    if (!guard("mkstemp", p, false)) return end(-1);
    int fd = open(t, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
    if (fd >= 0) {
      g_fd[fd] = {p, mc::cur_proc()};
      return end(fd);
    }
    if (errno != EEXIST) break;
  }
  return end(-1);
}
EX int fs_mkstemp(char* t) { return do_mkstemp(t, 0, 0); }
EX int fs_mkostemp(char* t, int f) { return do_mkstemp(t, 0, f); }
EX int fs_mkstemps(char* t, int s) { return do_mkstemp(t, s, 0); }

// ---- attributes -----------------------------------------------------------------------------
EX int fs_stat(const char* p, struct stat* st) { return begin("stat", absolute(AT_FDCWD, p), RD, {EACCES}) ? end(stat(p, st)) : end(-1); }
EX int fs_lstat(const char* p, struct stat* st) { return begin("lstat", absolute(AT_FDCWD, p), RD, {EACCES}) ? end(lstat(p, st)) : end(-1); }
EX int fs_fstatat(int at, const char* p, struct stat* st, int f) { return begin("fstatat", absolute(at, p), RD, {EACCES}) ? end(fstatat(at, p, st, f)) : end(-1); }
EX int fs_access(const char* p, int m) { return begin("access", absolute(AT_FDCWD, p), RD, {EACCES}) ? end(access(p, m)) : end(-1); }
static std::string of(int fd) {
  auto it = g_fd.find(fd);
  return it == g_fd.end() ? "?" : it->second.path;
}
EX int fs_fstat(int fd, struct stat* st) { return begin("fstat", of(fd), FDR, {EIO}) ? end(fstat(fd, st)) : end(-1); }
EX int fs_fchmod(int fd, mode_t m) { return begin("fchmod", of(fd), FD, {EPERM}) ? end(fchmod(fd, m)) : end(-1); }
EX int fs_fchown(int fd, uid_t u, gid_t g) { return begin("fchown", of(fd), FD, {EPERM}) ? end(fchown(fd, u, g)) : end(-1); }
EX int fs_ftruncate(int fd, off_t n) { return begin("ftruncate", of(fd), FD, {ENOSPC, EFBIG}) ? end(ftruncate(fd, n)) : end(-1); }
EX int fs_fallocate(int fd, int m, off_t o, off_t n) { return begin("fallocate", of(fd), FD, {ENOSPC}) ? end(fallocate(fd, m, o, n)) : end(-1); }
EX int fs_posix_fallocate(int fd, off_t o, off_t n) { return begin("posix_fallocate", of(fd), FD, {ENOSPC}) ? end(posix_fallocate(fd, o, n)) : end(errno); }
EX int fs_fsync(int fd) { return begin("fsync", of(fd), FDR, {EIO}) ? end(fsync(fd)) : end(-1); }
EX int fs_chmod(const char* p, mode_t m) {
  std::string a = absolute(AT_FDCWD, p);
  return begin("chmod", a, WR, {EPERM}) && guard("chmod", a, true) ? end(changed(a, chmod(p, m))) : end(-1);
}
EX int fs_fchmodat(int at, const char* p, mode_t m, int f) {
  std::string a = absolute(at, p);
  return begin("fchmodat", a, WR, {EPERM}) && guard("fchmodat", a, true) ? end(changed(a, fchmodat(at, p, m, f))) : end(-1);
}
EX int fs_truncate(const char* p, off_t n) {
  std::string a = absolute(AT_FDCWD, p);
  return begin("truncate", a, WR, {ENOSPC}) && guard("truncate", a, true) ? end(changed(a, truncate(p, n))) : end(-1);
}

// ---- directory entries ------------------------------------------------------------------------
static int do_mkdir(int at, const char* p, mode_t m) {
  std::string a = absolute(at, p);
  struct stat st;
  if (lstat(a.c_str(), &st) && !guard("mkdir", a, false)) return end(-1);
  return begin("mkdir", a, WR, {EACCES, ENOSPC}) ? end(changed(a, mkdirat(at, p, m))) : end(-1);
}
EX int fs_mkdir(const char* p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
EX int fs_mkdirat(int at, const char* p, mode_t m) { return do_mkdir(at, p, m); }
static int do_link(int a1, const char* p1, int a2, const char* p2, int f) {
  std::string x = absolute(a1, p1), y = absolute(a2, p2);
  if (!begin("link", y, WR, {EACCES, ENOSPC, EMLINK})) return end(-1);
  mc::access(h("fd" + x), false);
  mc::access(h(x), false);
  if (!guard("link", y, false)) return end(-1);
  return end(changed(y, linkat(a1, p1, a2, p2, f)));
}
EX int fs_link(const char* a, const char* b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
EX int fs_linkat(int a1, const char* a, int a2, const char* b, int f) { return do_link(a1, a, a2, b, f); }
EX int fs_symlink(const char* t, const char* p) {
  std::string a = absolute(AT_FDCWD, p);
  return begin("symlink", a, WR, {EACCES}) && guard("symlink", a, false) ? end(changed(a, symlink(t, p))) : end(-1);
}
static int do_rename(int a1, const char* p1, int a2, const char* p2, unsigned f) {
  std::string x = absolute(a1, p1), y = absolute(a2, p2);
  if (!begin("rename", y, WR, {EACCES, ENOSPC})) return end(-1);
  if (!guard("rename", x, false) || !guard("rename", y, false)) return end(-1);
  return end(changed(x, changed(y, renameat2(a1, p1, a2, p2, f))));
}
EX int fs_rename(const char* a, const char* b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EX int fs_renameat(int a1, const char* a, int a2, const char* b) { return do_rename(a1, a, a2, b, 0); }
EX int fs_renameat2(int a1, const char* a, int a2, const char* b, unsigned f) { return do_rename(a1, a, a2, b, f); }
static int do_unlink(const char* nm, int at, const char* p, int f) {
  std::string a = absolute(at, p);
  if (!begin(nm, a, WR, {EACCES, EBUSY}, true) || !guard(nm, a, false)) return end(-1);
  return end(changed(a, unlinkat(at, p, f)));
}
EX int fs_unlink(const char* p) { return do_unlink("unlink", AT_FDCWD, p, 0); }
EX int fs_unlinkat(int at, const char* p, int f) { return do_unlink("unlinkat", at, p, f); }
EX int fs_rmdir(const char* p) { return do_unlink("rmdir", AT_FDCWD, p, AT_REMOVEDIR); }
EX int fs_remove(const char* p) {
  std::string a = absolute(AT_FDCWD, p);
  if (!begin("remove", a, WR, {EACCES, EBUSY}, true) || !guard("remove", a, false)) return end(-1);
  return end(changed(a, remove(p)));
}

// ---- directories ------------------------------------------------------------------------------
EX DIR* fs_opendir(const char* p) {
  std::string a = absolute(AT_FDCWD, p);
  if (!begin("opendir", a, RD, {EACCES, EMFILE})) return end((DIR*)nullptr);
  mc::access(h(a + "/*"), true);
  DIR* d = opendir(p);
  if (d) g_dir[d] = {a, mc::cur_proc()};
  return end(d);
}
EX DIR* fs_fdopendir(int fd) {
  std::string a = of(fd);
  if (!begin("fdopendir", a, RD, {ENOMEM})) return end((DIR*)nullptr);
  mc::access(h(a + "/*"), true);
  DIR* d = fdopendir(fd);
  if (d) {
    g_fd.erase(fd);
    g_dir[d] = {a, mc::cur_proc()};
  }
  return end(d);
}
EX dirent* fs_readdir(DIR* d) {
  if (!g_dir.count(d)) mc::fail("a directory stream is read that is not open");
  begin("readdir", g_dir[d].path, RD, {});
  mc::access(h(g_dir[d].path + "/*"), true);
  return end(readdir(d));
}
EX int fs_closedir(DIR* d) {
  if (!g_dir.count(d)) mc::fail("a directory stream is closed that is not open");
  begin("closedir", g_dir[d].path, RD, {});
  g_dir.erase(d);
  return end(closedir(d));
}

// ---- memory -----------------------------------------------------------------------------------
EX void* fs_mmap(void* at, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd < 0) return mmap(at, n, prot, flags, fd, off);
  if (!begin("mmap", of(fd), FDR, {ENOMEM, ENODEV})) return end(MAP_FAILED);
  void* p = mmap(at, n, prot, flags, fd, off);
  if (p != MAP_FAILED) g_map[p] = {n, mc::cur_proc()};
  return end(p);
}
EX int fs_munmap(void* p, size_t n) {
  auto it = g_map.find(p);
  if (it == g_map.end()) return munmap(p, n);
  begin("munmap", "", FDR, {});
  if (it->second.size != n) mc::fail("a mapping of %zu bytes is unmapped with %zu", it->second.size, n);
  g_map.erase(it);
  return end(munmap(p, n));
}

// ---- events -----------------------------------------------------------------------------------
static int event_fd(const char* nm, int fd) {
  if (fd >= 0) g_fd[fd] = {nm, mc::cur_proc()};
  return end(fd);
}
EX int fs_eventfd(unsigned v, int f) { return begin("eventfd", "", RD, {}) ? event_fd("eventfd", eventfd(v, f)) : -1; }
EX int fs_epoll_create1(int f) { return begin("epoll_create1", "", RD, {}) ? event_fd("epoll", epoll_create1(f)) : -1; }
EX int fs_epoll_create(int) { return begin("epoll_create", "", RD, {}) ? event_fd("epoll", epoll_create1(0)) : -1; }
EX int fs_inotify_init1(int f) {
  g_events = true;
  return begin("inotify_init1", "", RD, {}) ? event_fd("inotify", inotify_take(f)) : -1;
}
EX int fs_inotify_init() { return fs_inotify_init1(0); }
EX int fs_epoll_ctl(int e, int op, int fd, epoll_event* ev) {
  begin("epoll_ctl", "", RD, {});
  mc::access(7, true);
  return end(epoll_ctl(e, op, fd, ev));
}
EX int fs_inotify_add_watch(int fd, const char* p, uint32_t mask) {
  std::string a = absolute(AT_FDCWD, p);
  begin("inotify_add_watch", a, RD, {});
  mc::access(h(a + "/*"), true);
  mc::access(7, true);
  Inotify* q = inotify_of(fd);
  if (!q) {
    errno = EBADF;
    return end(-1);
  }
  int wd = inotify_add_watch(fd, p, mask);
  if (wd < 0) return end(wd);
  q->wds.insert(wd);
  return end(wd - q->base);
}
EX int fs_inotify_rm_watch(int fd, int wd) {
  begin("inotify_rm_watch", "", RD, {});
  mc::access(7, true);
  Inotify* q = inotify_of(fd);
  if (!q) {
    errno = EBADF;
    return end(-1);
  }
  return end(inotify_rm_watch(fd, wd + q->base));
}
struct Waiting {
  Waiting(int fd) {
    g_waiting++;
    g_waitfd = fd;
  }
  ~Waiting() { g_waiting--; }
};
static bool ready(int fd, short ev) {
  pollfd q = {fd, ev, 0};
  return poll(&q, 1, 0) > 0;
}
EX int fs_epoll_wait(int e, epoll_event* ev, int n, int timeout) {
  begin("epoll_wait", "", RD, {});
  if (timeout < 0) {
    Waiting w(e);
    mc::await([e] { return ready(e, POLLIN); });
  }
  mc::access(7, true);
  return end(epoll_wait(e, ev, n, 0));
}
EX int fs_poll(pollfd* q, nfds_t n, int timeout) {
  begin("poll", "", RD, {});
  if (timeout < 0) {
    Waiting w(-1);
    mc::await([=] { return poll(q, n, 0) > 0; });
  }
  mc::access(7, true);
  return end(poll(q, n, 0));
}
EX long fs_read(int fd, void* b, size_t n) {
  if (!g_fd.count(fd)) return mc_read(fd, b, n);
  begin("read", "", RD, {});
  if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) {
    Waiting w(fd);
    mc::await([fd] { return ready(fd, POLLIN); });
  }
  mc::access(7, true);
  long r = read(fd, b, n);
  if (Inotify* q = inotify_of(fd))
    for (long i = 0; i < r;) {
      inotify_event* e = (inotify_event*)((char*)b + i);
      if (e->wd >= 0) e->wd -= q->base;
      i += sizeof *e + e->len;
    }
  return end(r);
}
EX long fs_write(int fd, const void* b, size_t n) {
  if (!g_fd.count(fd)) return write(fd, b, n);
  begin("write", "", RD, {});
  mc::access(7, true);
  return end(write(fd, b, n));
}

namespace fs {
bool waiting_for_events() { return g_waiting > 0 && (g_waitfd < 0 || !ready(g_waitfd, POLLIN)); }
}  // namespace fs
