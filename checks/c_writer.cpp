// Concurrent writers with middleware, and concurrent id generation, under the controlled scheduler.
#include "harness.h"

#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/err.h>
#include <a0/middleware.h>
#include <a0/packet.h>
#include <a0/time.h>
#include <a0/transport.h>
#include <a0/uuid.h>
#include <a0/writer.h>

#include <map>
#include <nlohmann/json.hpp>
#include <set>
using namespace mc;

static Shared sh;
static size_t asize;
static const int NP = 5;
static a0_writer_t* wh[NP * 2];  // writers: one per process, and wrapping ones
static a0_transport_t* jh;       // the judge's handle
static bool* flag[NP];

static a0_arena_t arena(int p) {
  a0_arena_t a;
  a.buf.data = sh.at(p);
  a.buf.size = asize;
  a.mode = A0_ARENA_MODE_SHARED;
  return a;
}
typedef nlohmann::json J;
struct Got {
  uint64_t seq;
  int user, nth;
  std::string payload;
  std::map<std::string, std::vector<std::string>> hdr;
};
static const int JP = NP - 1;  // the judge's process
static std::vector<Got> dump() {
  Atomic q;
  std::vector<Got> v;
  memset(jh, 0, sizeof *jh);
  set_proc(JP);
  MC_CHECK(!a0_transport_init(jh, arena(JP)), "init failed");
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(jh, &lk), "lock failed");
  bool empty = true;
  a0_transport_empty(lk, &empty);
  if (!empty) {
    a0_transport_jump_head(lk);
    while (1) {
      a0_transport_frame_t* f;
      MC_CHECK(!a0_transport_frame(lk, &f), "frame failed");
      a0_flat_packet_t fp = {{f->data, f->hdr.data_size}};
      Got g;
      g.seq = f->hdr.seq;
      a0_uuid_t* id;
      a0_flat_packet_id(fp, &id);
      MC_CHECK(sscanf((char*)*id, "%02d%02d", &g.user, &g.nth) == 2 && !memcmp((char*)*id + 4, "0000-0000-4000-8000-000000000000", 33), "a packet has a damaged id");
      a0_buf_t pl;
      a0_flat_packet_payload(fp, &pl);
      g.payload.assign((char*)pl.data, pl.size);
      a0_packet_stats_t st;
      a0_flat_packet_stats(fp, &st);
      for (size_t i = 0; i < st.num_hdrs; i++) {
        a0_packet_header_t h;
        a0_flat_packet_header(fp, i, &h);
        g.hdr[h.key].push_back(h.val);
      }
      v.push_back(g);
      bool next = false;
      a0_transport_has_next(lk, &next);
      if (!next) break;
      a0_transport_step_next(lk);
    }
  }
  a0_transport_unlock(lk);
  return v;
}
static a0_packet_t packet(int user, int nth, const std::string& p) {
  Atomic q;
  a0_packet_t k;
  memset(&k, 0, sizeof k);
  char b[64];
  snprintf(b, sizeof b, "%02d%02d0000-0000-4000-8000-000000000000", user, nth);
  memcpy(k.id, b, 37);
  k.payload.data = (uint8_t*)p.data();
  k.payload.size = p.size();
  return k;
}
static std::string body(int u, int n) { return "body-" + std::to_string(u) + "-" + std::to_string(n); }

enum { PLAIN, STD, STD_WRAP, STD_TWICE_SHARED, IFEMPTY, IFEMPTY_STD, PATCH, PATCH_STD, BIG, FAILING };
static a0_err_t failing_locked(void*, a0_transport_locked_t lk, a0_packet_t*, a0_middleware_chain_t) {
  a0_transport_unlock(lk);
  return A0_ERR_INVALID_ARG;
}
static a0_err_t noclose(void*) { return A0_OK; }
struct User {
  int proc;
  int kind;
  int n;      // writes
  int flags;  // KILLABLE
};
static bool done_[8][4];  // the call returned success
static a0_err_t err_[8][4];
static bool told[8][4];
static int fib[8];

static void make_writer(int p, int kind) {
  Atomic q;
  set_proc(p);
  a0_writer_t* w = wh[p];
  memset(w, 0, sizeof *w);
  MC_CHECK(!a0_writer_init(w, arena(p)), "writer init failed");
  a0_err_t e = A0_OK;
  switch (kind) {
    case STD: e = a0_writer_push(w, a0_add_standard_headers()); break;
    case STD_WRAP: e = a0_writer_wrap(w, a0_add_standard_headers(), wh[NP + p]); break;
    case IFEMPTY: e = a0_writer_push(w, a0_write_if_empty(flag[p])); break;
    case IFEMPTY_STD:
      e = a0_writer_push(w, a0_write_if_empty(flag[p]));
      if (!e) e = a0_writer_push(w, a0_add_standard_headers());
      break;
    case PATCH: e = a0_writer_push(w, a0_json_mergepatch()); break;
    case PATCH_STD:
      e = a0_writer_push(w, a0_json_mergepatch());
      if (!e) e = a0_writer_push(w, a0_add_standard_headers());
      break;
    case FAILING: {
      a0_middleware_t m = {nullptr, noclose, nullptr, failing_locked};
      e = a0_writer_push(w, m);
      break;
    }
  }
  MC_CHECK(!e, "adding middleware failed");
}
static a0_writer_t* writer_of(const User& u) { return u.kind == STD_WRAP ? wh[NP + u.proc] : wh[u.proc]; }

static void begin(size_t size) {
  asize = size;
  memset(done_, 0, sizeof done_);
  memset(told, 0, sizeof told);
  memset(err_, 0, sizeof err_);
}
static const char* patches[8][2] = {{"{\"a\":1}", "{\"a\":2}"}, {"{\"b\":{\"x\":1}}", "{\"b\":{\"x\":null,\"y\":2}}"}, {"{\"a\":null,\"c\":3}", "{\"c\":4}"}, {"{\"n\":7}", "{\"n\":8}"}};
static const char* malformed = "{\"a\":";
static bool bad_patch[8];
static std::string payload(const User& us, int u, int n) {
  if (us.kind == PATCH || us.kind == PATCH_STD) return bad_patch[u] ? malformed : patches[u][n];
  if (us.kind == BIG) return std::string(asize, 'x');
  return body(u, n);
}
static void spawn_users(const std::vector<User>& us) {
  std::set<int> made;
  for (size_t i = 0; i < us.size(); i++) {
    if (made.insert(us[i].proc).second) make_writer(us[i].proc, us[i].kind);
    const User u = us[i];
    fib[i] = spawn(u.proc, "writer", [=] {
      for (int k = 0; k < u.n; k++) {
        std::string p;
        a0_packet_t pk;
        {
          Atomic q;
          p = payload(u, i, k);
          pk = packet(i, k, p);
        }
        a0_err_t e = a0_writer_write(writer_of(u), pk);
        Atomic q;
        err_[i][k] = e;
        done_[i][k] = true;
        told[i][k] = *flag[u.proc];
        if (u.kind == BIG || u.kind == FAILING || (bad_patch[i] && (u.kind == PATCH || u.kind == PATCH_STD))) MC_CHECK(e, "a write that cannot be done succeeds");
        else MC_CHECK(!e, "write failed with %d", e);
      }
    }, u.flags);
  }
  set_proc(JP);
}
static void close_all(const std::vector<User>& us) {
  Atomic q;
  std::set<int> procs;
  for (size_t i = 0; i < us.size(); i++) procs.insert(us[i].proc);
  for (int p : procs) {
    bool dead = false, wrap = false;
    for (size_t i = 0; i < us.size(); i++)
      if (us[i].proc == p) {
        dead |= died(fib[i]);
        wrap |= us[i].kind == STD_WRAP;
      }
    if (dead) continue;
    set_proc(p);
    if (wrap) MC_CHECK(!a0_writer_close(wh[NP + p]), "close failed");
    MC_CHECK(!a0_writer_close(wh[p]), "close failed");
  }
  set_proc(JP);
}
// every completed write is in the topic once (unless evicted), nothing else is, calls of one user are in order
static void exact(const std::vector<User>& us, const std::vector<Got>& d, int before, bool evicts) {
  std::map<std::pair<int, int>, int> at;
  for (size_t i = 0; i < d.size(); i++) {
    const Got& g = d[i];
    if (g.user == 99) continue;
    MC_CHECK(g.user < (int)us.size() && g.nth < us[g.user].n, "an unknown packet is in the topic");
    MC_CHECK(!at.count({g.user, g.nth}), "packet %d of user %d is in the topic twice", g.nth, g.user);
    MC_CHECK(g.nth == 0 || evicts || at.count({g.user, g.nth - 1}), "packets of one writer are out of order");
    at[{g.user, g.nth}] = i;
  }
  for (size_t u = 0; u < us.size(); u++)
    for (int k = 0; k < us[u].n; k++) {
      bool in = at.count({(int)u, k});
      if (done_[u][k] && !err_[u][k] && !evicts) MC_CHECK(in, "packet %d of user %zu is not in the topic although the write succeeded", k, u);
      if (done_[u][k] && err_[u][k]) MC_CHECK(!in, "a failed write is in the topic");
      if (in && us[u].kind != PATCH && us[u].kind != PATCH_STD) MC_CHECK((d[at[{(int)u, k}]].payload == body(u, k)), "a packet has a damaged payload");
    }
  (void)before;
}
static uint64_t num(const std::string& s) {
  MC_CHECK(!s.empty() && s.find_first_not_of("0123456789") == std::string::npos, "a sequence header is not a number");
  return strtoull(s.c_str(), nullptr, 10);
}
static void std_headers(const std::vector<User>& us, const std::vector<Got>& d) {
  std::string mono;
  std::map<int, std::string> id;            // process -> writer id
  std::map<int, std::set<uint64_t>> seqs;
  std::map<int, uint64_t> last;
  for (auto& g : d) {
    bool std_ = us[g.user].kind == STD || us[g.user].kind == STD_WRAP || us[g.user].kind == PATCH_STD || us[g.user].kind == IFEMPTY_STD;
    for (const char* k : {"a0_time_mono", "a0_time_wall", "a0_writer_id", "a0_writer_seq", "a0_transport_seq"}) {
      auto it = g.hdr.find(k);
      MC_CHECK((it == g.hdr.end() ? 0 : it->second.size()) == (std_ ? 1 : 0), "header %s occurs %zu times", k, it == g.hdr.end() ? 0 : it->second.size());
    }
    if (!std_) continue;
    auto h = [&](const char* k) { return g.hdr.find(k)->second[0]; };
    MC_CHECK(num(h("a0_transport_seq")) == g.seq - 1, "packet number %d of the topic has transport sequence %s", (int)g.seq, h("a0_transport_seq").c_str());
    MC_CHECK(h("a0_time_mono") >= mono, "monotonic time decreases along the topic");
    mono = h("a0_time_mono");
    int p = us[g.user].proc;
    std::string w = h("a0_writer_id");
    MC_CHECK(!id.count(p) || id[p] == w, "one writer uses two writer ids");
    id[p] = w;
    uint64_t s = num(h("a0_writer_seq"));
    MC_CHECK(seqs[p].insert(s).second, "writer sequence %d occurs twice", (int)s);
    int alone = 0;
    for (auto& u : us) alone += u.proc == p;
    if (alone == 1) {
      MC_CHECK(!last.count(p) || s == last[p] + 1, "writer sequence goes from %d to %d", (int)last[p], (int)s);
      last[p] = s;
    }
  }
  for (auto& a : id)
    for (auto& b : id)
      if (a.first < b.first) MC_CHECK(a.second != b.second, "two writers have the same id");
  // counted from 0 without gap, unless evicted or the writer died
  for (auto& s : seqs) {
    size_t total = 0;
    bool dead = false;
    for (size_t i = 0; i < us.size(); i++)
      if (us[i].proc == s.first) {
        total += us[i].n;
        dead |= died(fib[i]);
      }
    MC_CHECK(*s.second.rbegin() < total, "writer sequence %d after %zu packets", (int)*s.second.rbegin(), total);
    if (!dead && s.second.size() == total) MC_CHECK(*s.second.begin() == 0, "writer sequence does not start at 0");
  }
}
static Config heap(Config c) {
  c.heap = true;
  return c;
}
static Config nosh(Config c) {
  c.shared = false;
  return c;
}
static Config stp(Config c) {
  c.clock_step = 1000;
  return c;
}
static const size_t ROOM = 4096, TIGHT = 144 + 2 * 448;

static void standard(const char* nm, std::vector<User> us, size_t size, Config q, Config t) {
  scenario("W02", nm, q, t, [=] {
    begin(size);
    spawn_users(us);
    run();
    auto d = dump();
    exact(us, d, 0, size == TIGHT);
    std_headers(us, d);
    for (auto& g : d) outcome(g.user * 8 + g.nth);
    close_all(us);
  });
}
// extra: 'w' a plain writer, 'c' a user that clears the topic
static void if_empty(const char* nm, std::vector<User> us, char extra, int before, Config q, Config t) {
  scenario("W03", nm, q, t, [=] {
    begin(ROOM);
    std::vector<User> all = us;
    if (extra == 'w') all.push_back({NP - 2, PLAIN, 1, 0});
    if (before) {
      Atomic qq;
      make_writer(NP - 1, PLAIN);
      MC_CHECK(!a0_writer_write(wh[NP - 1], packet(99, 0, "before")), "write failed");
      set_proc(NP - 1);
      a0_writer_close(wh[NP - 1]);
    }
    spawn_users(all);
    if (extra == 'c') spawn(NP - 2, "clearer", [=] {
      a0_transport_t t;
      MC_CHECK(!a0_transport_init(&t, arena(NP - 2)), "init failed");
      a0_transport_locked_t lk;
      MC_CHECK(!a0_transport_lock(&t, &lk), "lock failed");
      MC_CHECK(!a0_transport_clear(lk), "clear failed");
      MC_CHECK(!a0_transport_unlock(lk), "unlock failed");
    });
    run();
    auto d = dump();
    int live = 0, nsaid = 0, ndead = 0, finished_ = 0;
    for (size_t u = 0; u < us.size(); u++) {
      ndead += died(fib[u]);
      for (int k = 0; k < us[u].n; k++) {
        if (!done_[u][k]) continue;
        finished_++;
        bool in = false;
        for (auto& g : d) in |= g.user == (int)u && g.nth == k;
        nsaid += told[u][k];
        if (in) MC_CHECK(told[u][k], "a caller is told it did not write but its packet is in the topic");
        else if (extra != 'c') MC_CHECK(!told[u][k], "a caller is told it wrote but its packet is not in the topic");
      }
    }
    for (size_t i = 0; i < d.size(); i++) {
      bool cond = d[i].user < (int)us.size();
      live += cond;
      if (cond) MC_CHECK(i == 0, "a write-if-empty wrote to a topic with packets");
    }
    if (before && extra != 'c') MC_CHECK(live == 0, "a write-if-empty wrote to a topic with packets");
    if (!before && !extra) {
      MC_CHECK(live <= 1, "%d packets written", live);
      if (finished_) MC_CHECK(live == 1, "no packet was written");
      if (!ndead) MC_CHECK(nsaid == 1, "%d callers are told they wrote", nsaid);
    }
    if (extra == 'c') {
      MC_CHECK(nsaid <= 2, "%d callers are told they wrote to a topic emptied once", nsaid);
      if (!before && !ndead) MC_CHECK(nsaid >= 1, "nobody wrote to an empty topic");
    }
    outcome(live * 64 + nsaid * 8 + (d.empty() ? 7 : d[0].user % 8));
    close_all(all);
  });
}
static void merge(const char* nm, std::vector<User> us, int bad, Config q, Config t) {
  scenario("W04", nm, q, t, [=] {
    begin(ROOM);
    for (int i = 0; i < 8; i++) bad_patch[i] = bad >> i & 1;
    {
      Atomic qq;
      make_writer(NP - 1, PLAIN);
      MC_CHECK(!a0_writer_write(wh[NP - 1], packet(99, 0, "{\"z\":0}")), "write failed");
      set_proc(NP - 1);
      a0_writer_close(wh[NP - 1]);
    }
    spawn_users(us);
    run();
    auto d = dump();
    exact(us, d, 1, false);
    J v = J::parse("{\"z\":0}");
    MC_CHECK(!d.empty() && d[0].user == 99, "the first value is gone");
    for (size_t i = 1; i < d.size(); i++) {
      MC_CHECK(!bad_patch[d[i].user], "a malformed patch is in the topic");
      v.merge_patch(J::parse(patches[d[i].user][d[i].nth]));
      J now = J::parse(d[i].payload, nullptr, false);
      MC_CHECK(!now.is_discarded() && now == v, "value %zu is %s, should be %s", i, d[i].payload.c_str(), v.dump().c_str());
      outcome(d[i].user * 8 + d[i].nth);
    }
    close_all(us);
    for (int i = 0; i < 8; i++) bad_patch[i] = false;
  });
}
static void failing(const char* nm, std::vector<User> us, Config q, Config t) {
  scenario("W05", nm, q, t, [=] {
    begin(ROOM);
    for (int i = 0; i < 8; i++) bad_patch[i] = us.size() > (size_t)i && us[i].kind == PATCH;
    {
      Atomic qq;
      make_writer(NP - 1, PLAIN);
      MC_CHECK(!a0_writer_write(wh[NP - 1], packet(99, 0, "{\"z\":0}")), "write failed");
      set_proc(NP - 1);
      a0_writer_close(wh[NP - 1]);
    }
    spawn_users(us);
    run();
    auto d = dump();
    exact(us, d, 1, false);
    MC_CHECK(!d.empty() && d[0].user == 99 && d[0].payload == "{\"z\":0}", "the first packet is gone");
    for (auto& g : d) outcome(g.user * 8 + g.nth);
    close_all(us);
    for (int i = 0; i < 8; i++) bad_patch[i] = false;
  });
}
static void ids(const char* nm, std::vector<int> procs, int n, Config q, Config t) {
  scenario("P03", nm, q, t, [=] {
    std::vector<std::string> got;
    auto* pg = &got;
    for (size_t i = 0; i < procs.size(); i++)
      spawn(procs[i], "user", [=] {
        for (int k = 0; k < n; k++) {
          a0_uuid_t id;
          a0_uuidv4(id);
          Atomic q;
          std::string s(id, 36);
          for (int c = 0; c < 36; c++) {
            bool dash = c == 8 || c == 13 || c == 18 || c == 23;
            MC_CHECK(dash ? s[c] == '-' : isxdigit(s[c]), "an id is malformed: %s", s.c_str());
          }
          MC_CHECK(!id[36] && s[14] == '4' && strchr("89abAB", s[19]), "an id is malformed: %s", s.c_str());
          for (auto& o : *pg) MC_CHECK(o != s, "two ids are equal: %s", s.c_str());
          pg->push_back(s);
        }
      });
    run();
  });
}

void define_scenarios() {
  sh = make_shared(ROOM, NP);
  for (auto& h : wh) h = (a0_writer_t*)make_handle(sizeof(a0_writer_t));
  for (auto& f : flag) f = (bool*)make_handle(16);
  jh = (a0_transport_t*)make_handle(sizeof(a0_transport_t));
  // processes
  standard("2p", {{0, STD, 1, 0}, {1, STD, 1, 0}}, ROOM, stp(cfg(4)), stp(cfg(5)));
  standard("2p_2w", {{0, STD, 2, 0}, {1, STD, 2, 0}}, ROOM, stp(cfg(3)), stp(cfg(4)));
  standard("2p_wrap", {{0, STD_WRAP, 2, 0}, {1, STD, 1, 0}}, ROOM, stp(cfg(3)), stp(cfg(4)));
  standard("2p_plain", {{0, STD, 2, 0}, {1, PLAIN, 2, 0}}, ROOM, stp(cfg(3)), stp(cfg(4)));
  standard("2p_evict", {{0, STD, 3, 0}, {1, STD, 2, 0}}, TIGHT, stp(cfg(2)), stp(cfg(3)));
  standard("3p", {{0, STD, 1, 0}, {1, STD, 1, 0}, {2, STD_WRAP, 1, 0}}, ROOM, stp(cfg(2)), stp(cfg(3)));
  standard("2p_death", {{0, STD, 2, KILLABLE}, {1, STD, 1, KILLABLE}}, ROOM, stp(cfg(2, 1)), stp(cfg(3, 1)));
  // threads sharing one writer
  standard("2t", {{0, STD, 2, 0}, {0, STD, 2, 0}}, ROOM, stp(nosh(heap(cfg(3)))), stp(nosh(heap(cfg(4)))));
  standard("2t_shared", {{0, STD, 1, 0}, {0, STD, 1, 0}}, ROOM, stp(heap(cfg(3))), stp(heap(cfg(4))));
  standard("2t_wrap", {{0, STD_WRAP, 2, 0}, {0, STD_WRAP, 1, 0}}, ROOM, stp(nosh(heap(cfg(3)))), stp(nosh(heap(cfg(4)))));
  standard("3t", {{0, STD, 1, 0}, {0, STD, 1, 0}, {0, STD, 1, 0}}, ROOM, stp(nosh(heap(cfg(2)))), stp(nosh(heap(cfg(3)))));
  standard("2t_1p", {{0, STD, 1, 0}, {0, STD, 1, 0}, {1, STD, 1, 0}}, ROOM, stp(nosh(heap(cfg(2)))), stp(nosh(heap(cfg(3)))));

  if_empty("2p", {{0, IFEMPTY, 1, 0}, {1, IFEMPTY, 1, 0}}, 0, 0, cfg(5), cfg(6));
  if_empty("3p", {{0, IFEMPTY, 1, 0}, {1, IFEMPTY_STD, 1, 0}, {2, IFEMPTY, 1, 0}}, 0, 0, cfg(3), cfg(4));
  if_empty("2p_2w", {{0, IFEMPTY, 2, 0}, {1, IFEMPTY_STD, 2, 0}}, 0, 0, cfg(4), cfg(5));
  if_empty("2p_before", {{0, IFEMPTY, 1, 0}, {1, IFEMPTY, 1, 0}}, 0, 1, cfg(5), cfg(6));
  if_empty("2p_writer", {{0, IFEMPTY, 1, 0}, {1, IFEMPTY, 1, 0}}, 'w', 0, cfg(3), cfg(4));
  if_empty("1p_writer", {{0, IFEMPTY, 2, 0}}, 'w', 0, cfg(5), cfg(6));
  if_empty("2p_clear", {{0, IFEMPTY, 1, 0}, {1, IFEMPTY, 1, 0}}, 'c', 0, cfg(3), cfg(4));
  if_empty("2p_clear_before", {{0, IFEMPTY, 2, 0}, {1, IFEMPTY, 1, 0}}, 'c', 1, cfg(3), cfg(4));
  if_empty("2p_death", {{0, IFEMPTY, 1, KILLABLE}, {1, IFEMPTY, 1, KILLABLE}}, 0, 0, cfg(3, 1), cfg(4, 2));
  if_empty("3p_death", {{0, IFEMPTY, 1, KILLABLE}, {1, IFEMPTY, 1, 0}, {2, IFEMPTY, 1, 0}}, 0, 0, cfg(2, 1), cfg(3, 1));

  merge("2p", {{0, PATCH, 1, 0}, {1, PATCH, 1, 0}}, 0, cfg(5), cfg(6));
  merge("2p_2w", {{0, PATCH, 2, 0}, {1, PATCH, 2, 0}}, 0, cfg(3), cfg(4));
  merge("3p", {{0, PATCH, 1, 0}, {1, PATCH_STD, 1, 0}, {2, PATCH, 1, 0}}, 0, cfg(2), cfg(3));
  merge("2p_bad", {{0, PATCH, 1, 0}, {1, PATCH, 2, 0}}, 1, cfg(4), cfg(5));
  merge("3p_bad", {{0, PATCH, 1, 0}, {1, PATCH, 1, 0}, {2, PATCH_STD, 1, 0}}, 4, cfg(2), cfg(3));
  merge("2p_death", {{0, PATCH, 1, KILLABLE}, {1, PATCH, 1, KILLABLE}}, 0, cfg(2, 1), cfg(3, 2));
  merge("2p_2w_death", {{0, PATCH, 2, KILLABLE}, {1, PATCH, 1, 0}}, 0, cfg(2, 1), cfg(3, 1));
  merge("2t", {{0, PATCH, 1, 0}, {0, PATCH, 1, 0}}, 0, nosh(heap(cfg(3))), nosh(heap(cfg(4))));
  merge("2t_2w", {{0, PATCH_STD, 2, 0}, {0, PATCH_STD, 1, 0}}, 0, nosh(heap(cfg(2))), nosh(heap(cfg(3))));

  failing("big", {{0, BIG, 1, 0}, {1, PLAIN, 2, 0}}, cfg(4), cfg(5));
  failing("middleware", {{0, FAILING, 1, 0}, {1, STD, 2, 0}}, cfg(4), cfg(5));
  failing("patch", {{0, PATCH, 1, 0}, {1, STD, 2, 0}}, cfg(4), cfg(5));
  failing("three", {{0, BIG, 1, 0}, {1, FAILING, 1, 0}, {2, PLAIN, 1, 0}}, cfg(3), cfg(4));
  failing("big_death", {{0, BIG, 1, KILLABLE}, {1, PLAIN, 1, 0}}, cfg(3, 1), cfg(4, 1));
  failing("threads", {{0, FAILING, 1, 0}, {0, FAILING, 1, 0}, {1, PLAIN, 1, 0}}, nosh(heap(cfg(3))), nosh(heap(cfg(4))));

  ids("2t", {0, 0}, 2, heap(cfg(3)), heap(cfg(4)));
  ids("3t", {0, 0, 0}, 2, heap(cfg(2)), heap(cfg(3)));
  ids("2t_1p", {0, 0, 1}, 2, heap(cfg(2)), heap(cfg(3)));
}
