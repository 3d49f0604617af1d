// Publishers and subscribers, loggers and listeners, configuration and watchers under the controlled scheduler.
#include "simtopic.h"

#include <a0/cfg.h>
#include <a0/log.h>
#include <a0/middleware.h>
#include <a0/pubsub.h>
#include <a0/reader.h>
#include <a0/writer.h>

#include <nlohmann/json.hpp>
using namespace mc;
using sim::Got;

static const size_t ROOM = 8000;
static a0_publisher_t* pub[4];
static a0_subscriber_sync_zc_t* szc[3];
static a0_subscriber_sync_t* ssy[3];
static a0_subscriber_zc_t* szt[3];
static a0_subscriber_t* sth[3];
static a0_logger_t* lgr[2];
static a0_log_listener_t* lst[2];
static a0_cfg_t* cfgh[4];
static a0_cfg_watcher_t* wat[2];

static const a0_pubsub_topic_t TA = {"a", nullptr}, TB = {"b", nullptr};

struct Sub {
  int kind;     // 0 polling zero copy, 1 polling, 2 blocking zero copy, 3 blocking, 4 callback zero copy, 5 callback
  int init;
  int before, after;
  bool started, closed, in_cb;
  std::vector<Got> got;
  std::string buf;
};
static Sub subs[3];
static int npub, begun, ended;  // packets whose publishing has begun / ended
static int writing;
static bool close_inside;  // callbacks try to close their own subscriber, listener or watcher

static void reset(size_t size) {
  sim::reset(size);
  for (auto& s : subs) s = Sub();
  npub = begun = ended = writing = 0;
}
static a0_err_t s_alloc(void* u, size_t n, a0_buf_t* out) { return sim::keep_alloc(u, n, out); }
static void add(Sub& s, const Got& g) {
  MC_CHECK(!s.closed, "a packet is delivered after the subscriber was closed");
  s.got.push_back(g);
}
static void on_zc(void* u, a0_transport_locked_t, a0_flat_packet_t fp) {
  Sub& s = *(Sub*)u;
  {
    Atomic q;
    add(s, sim::read_flat(fp));
    s.in_cb = true;
  }
  if (s.kind == 4) point();
  if (s.kind == 4 && close_inside) MC_CHECK(a0_subscriber_zc_close(szt[&s - subs]), "closing a subscriber in its own callback claims to have succeeded");
  s.in_cb = false;
}
static void on_pkt(void* u, a0_packet_t k) {
  Sub& s = *(Sub*)u;
  {
    Atomic q;
    add(s, sim::read_packet(k));
    s.in_cb = true;
  }
  point();
  if (close_inside) MC_CHECK(a0_subscriber_close(sth[&s - subs]), "closing a subscriber in its own callback claims to have succeeded");
  s.in_cb = false;
}
static void publish(int i, int user, int nth, a0_packet_header_t* h) {
  std::string b = "body-" + std::to_string(user) + "-" + std::to_string(nth);
  begun++;
  MC_CHECK(!a0_publisher_pub(pub[i], sim::packet(user, nth, b.c_str(), h)), "publishing failed");
  ended++;
}
static a0_packet_header_t uh = {(char*)"user-key", (char*)"user-val"};
static void publisher(int proc, int i, int n, a0_pubsub_topic_t t, bool counted = true) {
  if (counted) writing++;
  spawn(proc, i ? "publisher2" : "publisher", [=] {
    MC_CHECK(!a0_publisher_init(pub[i], t), "publisher init failed");
    for (int k = 0; k < n; k++) {
      if (counted) publish(i, i, k, &uh);
      else MC_CHECK(!a0_publisher_pub(pub[i], sim::packet(50 + i, k, "elsewhere")), "publishing failed");
    }
    MC_CHECK(!a0_publisher_close(pub[i]), "publisher close failed");
    if (counted) writing--;
  });
}
static int position(const Got& g) { return atoi(sim::get(g, "a0_transport_seq").c_str()) + 1; }
// what is due among the first n packets of the topic has come
static bool due(Sub& s, int n) {
  if (!s.got.empty()) return position(s.got.back()) >= n;
  return s.init == A0_INIT_AWAIT_NEW ? s.after >= n : n == 0;
}
static void subscriber(int proc, int i, int kind, int init, a0_pubsub_topic_t t) {
  Sub& s0 = subs[i];
  s0.kind = kind;
  s0.init = init;
  spawn(proc, i ? "subscriber2" : "subscriber", [=] {
    Sub& s = subs[i];
    a0_reader_options_t o;
    o.init = (a0_reader_init_t)init;
    o.iter = A0_ITER_NEXT;
    a0_alloc_t al = {&s.buf, s_alloc, nullptr};
    a0_zero_copy_callback_t zc = {&s, on_zc};
    a0_packet_callback_t pc = {&s, on_pkt};
    s.before = ended;
    a0_err_t e = A0_OK;
    if (kind == 0 || kind == 2) e = a0_subscriber_sync_zc_init(szc[i], t, o);
    if (kind == 1 || kind == 3) e = a0_subscriber_sync_init(ssy[i], t, al, o);
    if (kind == 4) e = a0_subscriber_zc_init(szt[i], t, o, zc);
    if (kind == 5) e = a0_subscriber_init(sth[i], t, al, o, pc);
    MC_CHECK(!e, "subscriber init failed");
    s.after = begun;
    s.started = true;
    if (kind < 2) {
      // polls now and once everything is published
      for (int round = 0; round < 2; round++) {
        if (round) await([] { return !writing; });
        while (1) {
          bool can = false;
          int lo = s.init == A0_INIT_OLDEST ? ended - (int)s.got.size() : 0;
          e = kind == 0 ? a0_subscriber_sync_zc_can_read(szc[i], &can) : a0_subscriber_sync_can_read(ssy[i], &can);
          MC_CHECK(!e, "asking for packets failed");
          if (lo > 0) MC_CHECK(can, "nothing to read although %d packets are unread", lo);
          size_t n = s.got.size();
          if (kind == 0) {
            e = a0_subscriber_sync_zc_read(szc[i], zc);
          } else {
            a0_packet_t k;
            e = a0_subscriber_sync_read(ssy[i], &k);
            if (!e) add(s, sim::read_packet(k));
          }
          if (e) {
            MC_CHECK(e == A0_ERR_AGAIN, "reading failed with %d", e);
            MC_CHECK(!can, "there was a packet to read but reading found none");
            break;
          }
          MC_CHECK(s.got.size() == n + 1, "a read delivers %zu packets", s.got.size() - n);
        }
      }
    } else if (kind < 4) {
      while (1) {
        // block only if a packet is due some day
        if (due(s, npub)) break;
        if (kind == 2) e = a0_subscriber_sync_zc_read_blocking(szc[i], zc);
        else {
          a0_packet_t k;
          e = a0_subscriber_sync_read_blocking(ssy[i], &k);
          if (!e) add(s, sim::read_packet(k));
        }
        MC_CHECK(!e, "a blocking read failed with %d/%d", e, sim::err(e));
      }
    } else {
      await([&s] { return !writing && due(s, ended); });
    }
    if (kind == 0 || kind == 2) e = a0_subscriber_sync_zc_close(szc[i]);
    if (kind == 1 || kind == 3) e = a0_subscriber_sync_close(ssy[i]);
    if (kind == 4) e = a0_subscriber_zc_close(szt[i]);
    if (kind == 5) e = a0_subscriber_close(sth[i]);
    MC_CHECK(!e, "subscriber close failed");
    MC_CHECK(!s.in_cb, "close returned while the callback runs");
    s.closed = true;
  });
}
static bool same(const Got& a, const Got& b) { return a.id == b.id && a.payload == b.payload && a.hdr == b.hdr; }
static void judge(int nsub, const char* other) {
  auto all = sim::dump(sim::topic("a.pubsub.a0"));
  (void)other;
  std::map<int, int> nx;
  for (auto& g : all) {
    int u, n;
    MC_CHECK(sscanf(g.id.c_str(), "%02d%02d", &u, &n) == 2 && u < 4, "a packet of another topic is in the topic");
    MC_CHECK(nx[u]++ == n, "packets of one publisher are out of order in the topic");
    MC_CHECK(g.payload == "body-" + std::to_string(u) + "-" + std::to_string(n), "a payload is damaged");
    MC_CHECK(sim::intact(g), "a user's header is damaged");
    for (const char* k : {"a0_time_mono", "a0_time_wall", "a0_writer_id", "a0_writer_seq", "a0_transport_seq"}) MC_CHECK(sim::count(g, k) == 1, "header %s occurs %d times", k, sim::count(g, k));
    outcome(u * 8 + n);
  }
  MC_CHECK((int)all.size() >= ended && (int)all.size() <= begun, "%zu packets in the topic, %d published", all.size(), ended);
  for (int i = 0; i < nsub; i++) {
    Sub& s = subs[i];
    // a run of consecutive packets up to the last one; when all may have been there before it started, it may have been closed any time
    size_t n = s.got.size();
    MC_CHECK(n <= all.size(), "a subscriber got %zu packets of %zu", n, all.size());
    size_t off = all.size() - n;
    if (n && s.init == A0_INIT_AWAIT_NEW && s.after >= ended && position(s.got[0]) <= (int)off) off = position(s.got[0]) - 1;
    if (s.init == A0_INIT_OLDEST) MC_CHECK(off == 0, "a subscriber got %zu packets of %zu", n, all.size());
    for (size_t k = 0; k < n; k++) MC_CHECK(same(s.got[k], all[off + k]), "packet %zu a subscriber got is not packet %zu of the topic", k, off + k);
    if (s.init == A0_INIT_AWAIT_NEW) MC_CHECK((int)off >= s.before && (int)off <= s.after, "the first new packet a subscriber got is number %zu; %d were there when it started, %d when it had started", off, s.before, s.after);
    if (s.init == A0_INIT_MOST_RECENT && n) MC_CHECK((int)off >= s.before - 1 && (int)off <= (s.after ? s.after - 1 : 0), "the first packet a subscriber got is number %zu; %d were there when it started, %d when it had started", off, s.before, s.after);
    outcome(n);
  }
  MC_CHECK(sim::nopen == 0, "%d files are left open", sim::nopen);
}
static Config heap(Config c) {
  c.heap = true;
  return c;
}
static Config nosh(Config c) {
  c.shared = false;
  return c;
}
static const char* KIND[] = {"poll_zc", "poll", "block_zc", "block", "call_zc", "call"};
static const char* INI[] = {"oldest", "recent", "new"};
struct PubSub {
  const char* nm;
  int n0, p1, p2, other;
  std::vector<std::pair<int, int>> subs;  // kind, init
};
static void pubsub(PubSub c, Config q, Config t, bool inside = false) {
  scenario("B01", c.nm, q, t, [=] {
    close_inside = inside;
    reset(ROOM);
    npub = c.n0 + c.p1 + c.p2;
    if (c.n0) {
      Atomic qq;
      set_proc(5);
      MC_CHECK(!a0_publisher_init(pub[3], TA), "publisher init failed");
      for (int k = 0; k < c.n0; k++) publish(3, 3, k, &uh);
      MC_CHECK(!a0_publisher_close(pub[3]), "publisher close failed");
    }
    publisher(1, 0, c.p1, TA);
    if (c.p2) publisher(2, 1, c.p2, TA);
    if (c.other) publisher(3, 2, c.other, TB, false);
    for (size_t i = 0; i < c.subs.size(); i++) subscriber(4 + i, i, c.subs[i].first, c.subs[i].second, TA);
    run();
    judge(c.subs.size(), c.other ? "b" : nullptr);
  });
}

// ---- log ------------------------------------------------------------------------------
static const char* LV[] = {"CRIT", "ERR", "WARN", "INFO", "DBG"};
struct Msg {
  int kind;  // 0..4 level, 5 level beyond the last, 6 no level header, 7 unknown level name, 8 via the named function
};
static std::vector<Got> heard;
static bool lclosed, lin;
static int lwant;
static std::string lbuf;
static void on_msg(void*, a0_packet_t k) {
  {
    Atomic q;
    MC_CHECK(!lclosed, "a message is delivered after the listener was closed");
    heard.push_back(sim::read_packet(k));
    lin = true;
  }
  point();
  if (close_inside) MC_CHECK(a0_log_listener_close(lst[0]), "closing a listener in its own callback claims to have succeeded");
  lin = false;
}
static a0_err_t named(a0_logger_t* l, int lv, a0_packet_t k) {
  switch (lv) {
    case 0: return a0_logger_crit(l, k);
    case 1: return a0_logger_err(l, k);
    case 2: return a0_logger_warn(l, k);
    case 3: return a0_logger_info(l, k);
    default: return a0_logger_dbg(l, k);
  }
}
// n messages of any of the kinds, listener threshold any
static void logs(const char* nm, int n, bool two, bool all, Config q, Config t, bool inside = false) {
  scenario("B02", nm, q, t, [=] {
    close_inside = inside;
    reset(ROOM);
    heard.clear();
    lclosed = lin = false;
    lbuf.clear();
    int th = all ? choose(6) : 2 + choose(2);
    int kinds[4];
    for (int i = 0; i < n; i++) kinds[i] = all ? choose(8) : (const int[]){1, 2, 3, 6}[choose(4)];
    std::vector<int> want;
    for (int i = 0; i < n; i++)
      if (kinds[i] <= 4 ? kinds[i] <= th : kinds[i] != 6 && th >= 5) want.push_back(i);
    lwant = want.size();
    int* pk = kinds;
    static const a0_log_topic_t T = {"a", nullptr};
    static bool listening;
    listening = false;
    auto send = [=](int lo, int hi, int lg) {
      await([] { return listening; });
      MC_CHECK(!a0_logger_init(lgr[lg], T), "logger init failed");
      a0_writer_t raw;
      {
        Atomic qq;
        MC_CHECK(!a0_writer_init(&raw, lgr[lg]->_file.arena), "writer init failed");
      }
      for (int i = lo; i < hi; i++) {
        std::string b = "msg-" + std::to_string(i);
        a0_packet_header_t lh = {(char*)"a0_log_level", (char*)"FATAL"};
        a0_packet_t k = sim::packet(1, i, b.c_str(), pk[i] == 7 ? &lh : &uh);
        a0_err_t e;
        if (pk[i] <= 4) e = i & 1 ? named(lgr[lg], pk[i], k) : a0_logger_log(lgr[lg], (a0_log_level_t)pk[i], k);
        else if (pk[i] == 5) e = a0_logger_log(lgr[lg], A0_LOG_LEVEL_UNKNOWN, k);
        else e = a0_writer_write(&raw, k);
        MC_CHECK(!e, "logging failed");
      }
      {
        Atomic qq;
        a0_writer_close(&raw);
      }
      MC_CHECK(!a0_logger_close(lgr[lg]), "logger close failed");
    };
    if (two) {
      spawn(1, "logger", [=] { send(0, n / 2, 0); });
      spawn(2, "logger2", [=] { send(n / 2, n, 1); });
    } else spawn(1, "logger", [=] { send(0, n, 0); });
    spawn(3, "listener", [=] {
      a0_alloc_t al = {&lbuf, s_alloc, nullptr};
      a0_reader_options_t o;
      o.init = A0_INIT_OLDEST;
      o.iter = A0_ITER_NEXT;
      a0_packet_callback_t cb = {nullptr, on_msg};
      MC_CHECK(!a0_log_listener_init(lst[0], T, al, (a0_log_level_t)th, o, cb), "listener init failed");
      listening = true;
      await([] { return (int)heard.size() >= lwant; });
      MC_CHECK(!a0_log_listener_close(lst[0]), "listener close failed");
      MC_CHECK(!lin, "close returned while the callback runs");
      lclosed = true;
    });
    run();
    auto d = sim::dump(0);
    size_t x = 0;
    for (auto& g : d) {
      int i = atoi(g.id.substr(2, 2).c_str());
      int k = kinds[i];
      if (k <= 4) MC_CHECK(sim::get(g, "a0_log_level") == LV[k] && sim::count(g, "a0_log_level") == 1, "message of level %s is labelled %s", LV[k], sim::get(g, "a0_log_level").c_str());
      MC_CHECK(g.payload == "msg-" + std::to_string(i), "a message is damaged");
      if (k != 7) MC_CHECK(sim::intact(g), "a message lost a header");
      bool w = k <= 4 ? k <= th : k != 6 && th >= 5;
      // messages of unknown level are below every level: a listener for everything may get them or not
      if (k == 5 || k == 7) {
        if (th >= 5 && x < heard.size() && heard[x].id == g.id) w = true;
        else if (th >= 5) w = false;
      }
      if (!w) continue;
      MC_CHECK(x < heard.size() && same(heard[x], g), "message %d (%s) is not delivered in its turn to a listener for %s", i, k <= 4 ? LV[k] : "unknown", th <= 4 ? LV[th] : "everything");
      x++;
    }
    MC_CHECK(x == heard.size(), "a message below the level of the listener or twice is delivered");
    MC_CHECK(sim::nopen == 0, "%d files are left open", sim::nopen);
    outcome(heard.size() * 8 + th);
  });
}

// ---- configuration --------------------------------------------------------------------
static const a0_cfg_topic_t CT = {"a", nullptr};
static std::vector<int> seen;
static std::string cbuf[3];
static bool cclosed[2], cin_[2];
static std::vector<int> cseen[2];
static int cbegun, cended, cwriter[2];
static uint64_t DL;
static int val(a0_packet_t k) {
  Atomic q;
  Got g = sim::read_packet(k);
  int u, n;
  MC_CHECK(sscanf(g.id.c_str(), "%02d%02d", &u, &n) == 2, "a packet is damaged");
  auto j = nlohmann::json::parse(g.payload, nullptr, false);
  MC_CHECK(!j.is_discarded() && j.contains("n"), "a value is damaged: %s", g.payload.c_str());
  MC_CHECK(sim::count(g, "a0_transport_seq") == 1, "a value lacks its headers");
  return atoi(sim::get(g, "a0_transport_seq").c_str()) + 1;  // position in the topic
}
static void on_cfg(void* u, a0_packet_t k) {
  int w = (int)(long)u;
  {
    Atomic q;
    MC_CHECK(!cclosed[w], "a value is delivered after the watcher was closed");
    int v = val(k);
    MC_CHECK(cseen[w].empty() || v > cseen[w].back(), "value %d is delivered after value %d", v, cseen[w].empty() ? 0 : cseen[w].back());
    cseen[w].push_back(v);
    cin_[w] = true;
  }
  point();
  if (close_inside) MC_CHECK(a0_cfg_watcher_close(wat[w]), "closing a watcher in its own callback claims to have succeeded");
  cin_[w] = false;
}
static void write_cfg(int i, int user, int nth, char how) {
  std::string b = "{\"n\":" + std::to_string(user * 10 + nth) + "}";
  cbegun++;
  a0_err_t e;
  bool wr = false;
  if (how == 'p') e = a0_cfg_mergepatch(cfgh[i], sim::packet(user, nth, b.c_str()));
  else if (how == 'e') e = a0_cfg_write_if_empty(cfgh[i], sim::packet(user, nth, b.c_str()), &wr);
  else if (how == 'E') e = a0_cfg_write_if_empty(cfgh[i], sim::packet(user, nth, b.c_str()), nullptr);
  else e = a0_cfg_write(cfgh[i], sim::packet(user, nth, b.c_str()));
  MC_CHECK(!e, "writing failed with %d", e);
  if (how == 'e' || how == 'E') {
    if (!(how == 'e' && wr)) cbegun--;
    else cended++;
  } else cended++;
}
struct Cfg {
  const char* nm;
  int n0;
  std::vector<std::string> writers;
  int watchers, readers, blocking;
  size_t room = ROOM;
  int timed = 0;
};
static void config(Cfg c, Config q, Config t, int wflags = 0, bool inside = false) {
  scenario("B03", c.nm, q, t, [=] {
    close_inside = inside;
    reset(c.room);
    cbegun = cended = 0;
    for (int i = 0; i < 2; i++) {
      cseen[i].clear();
      cclosed[i] = cin_[i] = false;
    }
    for (auto& b : cbuf) b.clear();
    if (c.n0) {
      Atomic qq;
      set_proc(5);
      MC_CHECK(!a0_cfg_init(cfgh[3], CT), "init failed");
      for (int k = 0; k < c.n0; k++) write_cfg(3, 3, k, 'w');
      MC_CHECK(!a0_cfg_close(cfgh[3]), "close failed");
    }
    int nw = c.writers.size();
    auto quiet = [=] {
      for (int i = 0; i < nw; i++)
        if (!finished(cwriter[i]) && !died(cwriter[i])) return false;
      return true;
    };
    DL = now_ns() + 1000000;
    if (c.timed) add_deadline(DL);
    for (int i = 0; i < nw; i++)
      cwriter[i] = spawn(i, i ? "writer2" : "writer", [=] {
        MC_CHECK(!a0_cfg_init(cfgh[i], CT), "init failed");
        const std::string& w = c.writers[i];
        for (size_t k = 0; k < w.size(); k++) write_cfg(i, i, k, w[k]);
        MC_CHECK(!a0_cfg_close(cfgh[i]), "close failed");
      }, wflags);
    static int wbefore[2], last;
    last = -1;
    for (int i = 0; i < c.watchers; i++)
      spawn(2 + i, "watcher", [=] {
        a0_alloc_t al = {&cbuf[i], s_alloc, nullptr};
        a0_packet_callback_t cb = {(void*)(long)i, on_cfg};
        wbefore[i] = cended;
        MC_CHECK(!a0_cfg_watcher_init(wat[i], CT, al, cb), "watcher init failed");
        // everything is written: the last value must come
        await([=] { return quiet() && (cended == 0 || (!cseen[i].empty() && cseen[i].back() >= cended)); });
        MC_CHECK(!a0_cfg_watcher_close(wat[i]), "watcher close failed");
        MC_CHECK(!cin_[i], "close returned while the callback runs");
        cclosed[i] = true;
      });
    if (c.readers || c.blocking || c.timed)
      spawn(4, "reader", [=] {
        MC_CHECK(!a0_cfg_init(cfgh[2], CT), "init failed");
        a0_alloc_t al = {&cbuf[2], s_alloc, nullptr};
        int prev = 0;
        for (int k = 0; k < c.readers + c.blocking + c.timed; k++) {
          a0_packet_t out;
          int lo = cended;
          a0_err_t e;
          if (k < c.readers) e = a0_cfg_read(cfgh[2], al, &out);
          else if (k < c.readers + c.blocking) e = a0_cfg_read_blocking(cfgh[2], al, &out);
          else {
            a0_time_mono_t until = sim::at(DL);
            e = a0_cfg_read_blocking_timeout(cfgh[2], al, &until, &out);
            if (e) {
              MC_CHECK(sim::err(e) == ETIMEDOUT, "a timed read failed with %d/%d", e, sim::err(e));
              MC_CHECK(now_ns() >= DL, "a timed read gave up before its deadline");
              outcome(77);
              continue;
            }
          }
          if (e) {
            MC_CHECK(k < c.readers && e == A0_ERR_AGAIN, "reading failed with %d/%d", e, sim::err(e));
            MC_CHECK(lo == 0, "reading reports no value although one was written");
          } else {
            int v = val(out);
            MC_CHECK(v >= lo, "reading returns value %d although %d were written", v, lo);
            MC_CHECK(v <= cbegun, "reading returns a value never written");
            MC_CHECK(v >= prev, "reading returns an older value than before");
            prev = v;
          }
        }
        MC_CHECK(!a0_cfg_close(cfgh[2]), "close failed");
      });
    run();
    auto d = sim::dump(0);
    bool dead = false;
    for (int i = 0; i < nw; i++) dead |= died(cwriter[i]);
    for (int i = 0; i < c.watchers; i++) {
      if (dead && !cended) continue;
      if (d.empty()) MC_CHECK(cseen[i].empty(), "a watcher is called although nothing was written");
      else {
        int newest = position(d.back());
        MC_CHECK(!cseen[i].empty() && (dead ? cseen[i].back() >= cended : cseen[i].back() == newest), "the last value a watcher got is %d of %d", cseen[i].empty() ? 0 : cseen[i].back(), newest);
        MC_CHECK(cseen[i][0] >= wbefore[i], "a watcher got value %d first although %d were written when it started", cseen[i][0], wbefore[i]);
      }
      outcome(cseen[i].size());
    }
    MC_CHECK(dead || sim::nopen == 0, "%d files are left open", sim::nopen);
  });
}

template <class T, size_t N>
static void handles(T* (&a)[N]) {
  for (auto& h : a) h = (T*)make_handle(sizeof(T));
}
void define_scenarios() {
  sim::setup(ROOM);
  handles(pub), handles(szc), handles(ssy), handles(szt), handles(sth), handles(lgr), handles(lst), handles(cfgh), handles(wat);
  static std::vector<std::string> names;
  names.reserve(200);
  for (int kind = 0; kind < 6; kind++)
    for (int init = 0; init < 3; init++) {
      auto nm = [&](const char* x) {
        names.push_back(std::string(KIND[kind]) + "_" + INI[init] + "_" + x);
        return names.back().c_str();
      };
      pubsub({nm("p2"), 0, 2, 0, 0, {{kind, init}}}, nosh(heap(cfg(2))), nosh(heap(cfg(3))));
      pubsub({nm("p2_fine"), 0, 2, 0, 0, {{kind, init}}}, cfg(1), cfg(2));
      pubsub({nm("before_p1p1"), 2, 1, 1, 0, {{kind, init}}}, nosh(cfg(2)), nosh(cfg(3)));
      pubsub({nm("other"), 1, 1, 0, 2, {{kind, init}}}, nosh(cfg(kind < 4 ? 2 : 1)), nosh(cfg(kind < 4 ? 3 : 2)));
    }
  for (int a = 0; a < 6; a++)
    for (int b = a; b < 6; b++) {
      names.push_back(std::string("two_") + KIND[a] + "_" + KIND[b]);
      pubsub({names.back().c_str(), 0, 1, 1, 0, {{a, 0}, {b, 0}}}, nosh(cfg(a < 4)), nosh(cfg(1 + (b < 4))));
    }
  pubsub({"inside_call_zc", 0, 2, 0, 0, {{4, 0}}}, nosh(cfg(1)), nosh(cfg(2)), true);
  pubsub({"inside_call", 0, 2, 0, 0, {{5, 0}}}, nosh(cfg(1)), nosh(cfg(2)), true);
  logs("inside", 1, false, true, nosh(cfg(1)), nosh(cfg(1)), true);
  config({"watch_inside", 1, {"w"}, 1, 0, 0}, nosh(cfg(1)), nosh(cfg(2)), 0, true);
  logs("one_fine", 1, false, true, heap(cfg(1)), heap(cfg(2)));
  logs("three", 3, false, true, nosh(cfg(0)), nosh(cfg(1)));
  logs("two", 2, false, true, nosh(cfg(1)), nosh(cfg(2)));
  logs("two_loggers", 2, true, true, nosh(cfg(0)), nosh(cfg(1)));
  logs("few", 2, false, false, nosh(cfg(2)), nosh(heap(cfg(2))));
  logs("few2_loggers", 2, true, false, nosh(cfg(1)), nosh(cfg(2)));
  logs("few3_loggers", 3, true, false, nosh(cfg(0)), nosh(cfg(1)));

  config({"watch_w2", 0, {"ww"}, 1, 0, 0}, nosh(heap(cfg(2))), nosh(heap(cfg(3))));
  config({"watch_w2_fine", 0, {"ww"}, 1, 0, 0}, cfg(1), cfg(2));
  config({"watch_before_w1", 1, {"w"}, 1, 0, 0}, nosh(heap(cfg(3))), nosh(heap(cfg(4))));
  config({"watch_before2_w1w1", 2, {"w", "w"}, 1, 0, 0}, nosh(cfg(2)), nosh(cfg(3)));
  config({"watch2_w1w1", 0, {"w", "w"}, 2, 0, 0}, nosh(cfg(0)), nosh(cfg(1)));
  config({"watch2_w2", 1, {"ww"}, 2, 0, 0}, nosh(cfg(0)), nosh(cfg(1)));
  config({"watch_patch", 1, {"p", "p"}, 1, 0, 0}, nosh(cfg(2)), nosh(cfg(3)));
  config({"watch_ifempty", 0, {"e", "eE"}, 1, 0, 0}, nosh(cfg(2)), nosh(cfg(3)));
  config({"watch_idle", 2, {}, 1, 0, 0}, nosh(heap(cfg(3))), nosh(heap(cfg(4))));
  config({"read_w2", 0, {"ww"}, 0, 2, 0}, cfg(2), cfg(3));
  config({"read_before_w1w1", 1, {"w", "w"}, 0, 2, 0}, nosh(cfg(3)), nosh(cfg(4)));
  config({"read_patch", 1, {"p"}, 0, 2, 0}, cfg(2), cfg(3));
  config({"block_w2", 0, {"ww"}, 0, 0, 2}, cfg(2), cfg(3));
  config({"block_ifempty", 0, {"ew", "e"}, 0, 1, 1}, nosh(cfg(2)), nosh(cfg(3)));
  config({"watch_evict", 2, {"www"}, 1, 0, 0, 900}, nosh(cfg(2)), nosh(cfg(3)));
  config({"read_evict", 0, {"ww", "w"}, 0, 2, 1, 700}, nosh(cfg(2)), nosh(cfg(3)));
  Config tick = cfg(1);
  tick.ticks = 1;
  Config tick2 = cfg(2);
  tick2.ticks = 1;
  config({"timed_w1", 0, {"w"}, 0, 0, 0, ROOM, 1}, tick2, tick2);
  config({"timed2_w2", 0, {"ww"}, 0, 0, 0, ROOM, 2}, nosh(tick), nosh(tick2));
  config({"timed_ifempty", 0, {"e", "p"}, 0, 0, 0, ROOM, 1}, nosh(tick), nosh(tick2));
  Config die = nosh(cfg(1));
  die.crash = 1;
  Config die2 = nosh(cfg(2));
  die2.crash = 1;
  config({"watch_death", 1, {"w", "w"}, 1, 0, 0}, die, die2, KILLABLE);
  config({"read_death", 1, {"w", "w"}, 0, 2, 1}, die, die2, KILLABLE);
  config({"read_watch", 0, {"w", "w"}, 1, 1, 0}, nosh(cfg(1)), nosh(cfg(2)));
}
