// Readers: every sequence of writes, clears and reads against a reference model.
#include "seq.h"

#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/arena.hpp>
#include <a0/err.h>
#include <a0/packet.h>
#include <a0/packet.hpp>
#include <a0/reader.h>
#include <a0/reader.hpp>
#include <a0/time.h>
#include <a0/time.hpp>
#include <a0/transport.h>
#include <a0/transport.hpp>

#include <memory>
using namespace seq;

static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }

static const size_t ASIZE = 144 + 112 * 3 + 8;
struct Fr {
  uint64_t seq;
  size_t off, size;
};
struct Topic {
  std::vector<uint8_t> mem;
  a0_arena_t ar;
  a0_transport_t t;
  std::vector<Fr> live;
  uint64_t high = 0;
  std::vector<uint64_t> content;  // content[seq]: payload length
  std::vector<Fr> gone;           // offsets of frames that are no longer live
  Topic() : mem(ASIZE, 0), content(1, 0) {
    ar.buf.data = mem.data();
    ar.buf.size = mem.size();
    ar.mode = A0_ARENA_MODE_SHARED;
    if (a0_transport_init(&t, ar)) throw Skip{};
  }
  Topic(const Topic&) = delete;
};
static std::string payload(uint64_t seq, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += (char)('a' + (seq * 7 + i) % 26);
  return s;
}
static a0_packet_t packet(uint64_t seq, std::string& p) {
  a0_packet_t k;
  memset(&k, 0, sizeof k);
  snprintf((char*)k.id, sizeof k.id, "%08lx-0000-4000-8000-%012lx", (unsigned long)seq, (unsigned long)seq);
  k.payload.data = (uint8_t*)p.data();
  k.payload.size = p.size();
  return k;
}
static void write(Topic& T, size_t n) {
  a0_transport_locked_t lk;
  if (a0_transport_lock(&T.t, &lk)) throw Skip{};
  uint64_t seq = T.high + 1;
  std::string p = payload(seq, n);
  a0_alloc_t al;
  a0_transport_allocator(&lk, &al);
  a0_flat_packet_t fp;
  if (a0_packet_serialize(packet(seq, p), al, &fp)) throw Skip{};
  if (a0_transport_commit(lk)) throw Skip{};
  uint64_t lo = 0, hi = 0;
  a0_transport_seq_low(lk, &lo);
  a0_transport_seq_high(lk, &hi);
  if (hi != seq) throw Skip{};
  a0_transport_unlock(lk);
  size_t off = fp.buf.data - T.mem.data() - sizeof(a0_transport_frame_hdr_t);
  T.high = seq;
  T.content.push_back(n);
  T.live.push_back({seq, off, fp.buf.size});
  while (T.live[0].seq < lo) {
    T.gone.push_back(T.live[0]);
    T.live.erase(T.live.begin());
  }
}
static void clear(Topic& T) {
  a0_transport_locked_t lk;
  if (a0_transport_lock(&T.t, &lk) || a0_transport_clear(lk) || a0_transport_unlock(lk)) throw Skip{};
  for (auto& f : T.live) T.gone.push_back(f);
  T.live.clear();
}

// identifies a packet, checking its content
static uint64_t identify(Topic& T, const char* id, const void* data, size_t n) {
  unsigned long s = 0, s2 = 0;
  SQ_CHECK(strlen(id) == 36 && sscanf(id, "%8lx-0000-4000-8000-%12lx", &s, &s2) == 2 && s == s2 && s >= 1 && s <= T.high, "a packet that was never written is returned");
  std::string p = payload(s, T.content[s]);
  SQ_CHECK(n == p.size() && !memcmp(data, p.data(), n), "packet %lu is returned with the wrong payload", s);
  return s;
}
static uint64_t g_got;
static void on_flat(void* u, a0_transport_locked_t, a0_flat_packet_t fp) {
  Topic& T = *(Topic*)u;
  a0_uuid_t* id = nullptr;
  a0_buf_t b;
  SQ_CHECK(!a0_flat_packet_id(fp, &id) && !a0_flat_packet_payload(fp, &b), "unreadable packet");
  g_got = identify(T, (char*)*id, b.data, b.size);
}

// One reader of some kind; read() returns the sequence number of the packet, 0 for nothing.
struct Rd {
  virtual ~Rd() {}
  virtual bool can() = 0;
  virtual uint64_t read(bool expect) = 0;
  const char* nm;
};
static bool g_far;
static a0_time_mono_t past() {  // a deadline: passed long ago, or far away
  a0_time_mono_t t;
  t.ts.tv_sec = g_far ? 1ll << 33 : 1;
  t.ts.tv_nsec = 0;
  return t;
}
enum How { POLL, TIMED, BLOCK };
static uint64_t verdict(a0_err_t e, How h, const char* nm) {
  if (!e) {
    SQ_CHECK(g_got, "%s: success without a packet", nm);
    return g_got;
  }
  SQ_CHECK(!g_got, "%s: failed with %d although a packet was handed out", nm, e);
  if (h == POLL) SQ_CHECK(e == A0_ERR_AGAIN, "%s: poll failed with %d/%d", nm, e, sys(e));
  if (h == TIMED) SQ_CHECK(sys(e) == ETIMEDOUT, "%s: timed read failed with %d/%d", nm, e, sys(e));
  if (h == BLOCK) seq::fail("%s: blocking read failed with %d/%d", nm, e, sys(e));
  return 0;
}
struct RdZc : Rd {
  a0_reader_sync_zc_t r;
  Topic& T;
  How how;
  RdZc(Topic& t, a0_reader_options_t o, How h) : T(t), how(h) {
    nm = h == POLL ? "zero-copy poll" : h == TIMED ? "zero-copy timed" : "zero-copy blocking";
    SQ_CHECK(!a0_reader_sync_zc_init(&r, t.ar, o), "%s: init failed", nm);
  }
  ~RdZc() { a0_reader_sync_zc_close(&r); }
  bool can() override {
    bool b = false;
    SQ_CHECK(!a0_reader_sync_zc_can_read(&r, &b), "%s: can_read failed", nm);
    return b;
  }
  uint64_t read(bool expect) override {
    g_got = 0;
    a0_zero_copy_callback_t cb = {&T, on_flat};
    a0_time_mono_t p = past();
    if (how == BLOCK && !expect) return 0;
    a0_err_t e = how == POLL ? a0_reader_sync_zc_read(&r, cb) : how == TIMED ? a0_reader_sync_zc_read_blocking_timeout(&r, &p, cb) : a0_reader_sync_zc_read_blocking(&r, cb);
    return verdict(e, how, nm);
  }
};
struct RdSync : Rd {
  a0_reader_sync_t r;
  Topic& T;
  How how;
  std::vector<uint8_t> buf;
  static a0_err_t alloc(void* u, size_t n, a0_buf_t* out) {
    auto* s = (RdSync*)u;
    s->buf.assign(n, 0);
    s->buf.shrink_to_fit();
    out->data = s->buf.data();
    out->size = n;
    return A0_OK;
  }
  RdSync(Topic& t, a0_reader_options_t o, How h) : T(t), how(h) {
    nm = h == POLL ? "copying poll" : h == TIMED ? "copying timed" : "copying blocking";
    a0_alloc_t al = {this, alloc, nullptr};
    SQ_CHECK(!a0_reader_sync_init(&r, t.ar, al, o), "%s: init failed", nm);
  }
  ~RdSync() { a0_reader_sync_close(&r); }
  bool can() override {
    bool b = false;
    SQ_CHECK(!a0_reader_sync_can_read(&r, &b), "%s: can_read failed", nm);
    return b;
  }
  uint64_t read(bool expect) override {
    g_got = 0;
    a0_packet_t k;
    memset(&k, 0, sizeof k);
    a0_time_mono_t p = past();
    if (how == BLOCK && !expect) return 0;
    a0_err_t e = how == POLL ? a0_reader_sync_read(&r, &k) : how == TIMED ? a0_reader_sync_read_blocking_timeout(&r, &p, &k) : a0_reader_sync_read_blocking(&r, &k);
    if (!e) g_got = identify(T, (char*)k.id, k.payload.data, k.payload.size);
    return verdict(e, how, nm);
  }
};
static a0::Arena wrap(Topic& t) {
  a0::Arena a;
  a.c = std::make_shared<a0_arena_t>(t.ar);
  return a;
}
static a0::Reader::Options cppopts(a0_reader_options_t o) { return a0::Reader::Options((a0::Reader::Init)o.init, (a0::Reader::Iter)o.iter); }
static a0::TimeMono cpppast() {
  a0::TimeMono t;
  t.c = std::make_shared<a0_time_mono_t>(past());
  return t;
}
template <typename F>
static a0_err_t cpp_err(F f) {
  try {
    f();
    return A0_OK;
  } catch (Violation&) {
    throw;
  } catch (std::exception& e) {
    std::string w = e.what();
    if (w == a0_strerror(A0_ERR_AGAIN)) return A0_ERR_AGAIN;
    if (w == strerror(ETIMEDOUT)) {
      a0_err_syscode = ETIMEDOUT;
      return A0_ERR_SYS;
    }
    seq::fail("unexpected exception: %s", w.c_str());
  }
}
struct RdCppZc : Rd {
  Topic& T;
  a0::ReaderSyncZeroCopy r;
  How how;
  RdCppZc(Topic& t, a0_reader_options_t o, How h) : T(t), r(wrap(t), cppopts(o)), how(h) { nm = "C++ zero-copy"; }
  bool can() override { return r.can_read(); }
  uint64_t read(bool expect) override {
    g_got = 0;
    auto fn = [&](a0::TransportLocked, a0::FlatPacket fp) {
      auto pl = fp.payload();
      g_got = identify(T, std::string(fp.id()).c_str(), pl.data(), pl.size());
    };
    if (how == BLOCK && !expect) return 0;
    a0_err_t e = cpp_err([&] {
      if (how == POLL) r.read(fn);
      else if (how == TIMED) r.read_blocking(cpppast(), fn);
      else r.read_blocking(fn);
    });
    return verdict(e, how, nm);
  }
};
struct RdCpp : Rd {
  Topic& T;
  a0::ReaderSync r;
  How how;
  a0::Packet last;
  uint64_t last_seq = 0;
  RdCpp(Topic& t, a0_reader_options_t o, How h) : T(t), r(wrap(t), cppopts(o)), how(h) { nm = "C++ copying"; }
  bool can() override { return r.can_read(); }
  uint64_t read(bool expect) override {
    g_got = 0;
    if (how == BLOCK && !expect) return 0;
    a0_err_t e = cpp_err([&] {
      a0::Packet p = how == POLL ? r.read() : how == TIMED ? r.read_blocking(cpppast()) : r.read_blocking();
      auto pl = p.payload();
      g_got = identify(T, std::string(p.id()).c_str(), pl.data(), pl.size());
      // the packet handed out before is not touched by this read
      if (last_seq) {
        auto lp = last.payload();
        SQ_CHECK(identify(T, std::string(last.id()).c_str(), lp.data(), lp.size()) == last_seq, "an earlier packet changed");
      }
      last = p;
      last_seq = g_got;
    });
    return verdict(e, how, nm);
  }
};

// What the options promise.
struct Want {
  a0_reader_options_t o;
  uint64_t cur = 0;
  bool done = false;
  void start(Topic& T) {
    cur = 0;
    done = false;
    if (!T.live.empty()) cur = o.init == A0_INIT_OLDEST ? T.live[0].seq : T.high;
  }
  bool moving() const { return done || o.init == A0_INIT_AWAIT_NEW; }
  bool can(Topic& T) const { return !T.live.empty() && (!moving() || cur < T.high); }
  bool ok(Topic& T, uint64_t got) const {
    uint64_t low = T.live[0].seq;
    if (!moving() && cur >= low) return got == cur;
    uint64_t nx = cur + 1 > low ? cur + 1 : low;
    if (o.iter == A0_ITER_NEXT) return got == nx;
    // the start was evicted before the first read: the oldest is as good as the newest
    if (!moving()) return got == nx || got == T.high;
    return got == T.high;
  }
};

static const char* init_name[] = {"oldest", "most_recent", "await_new"};

// What happens, one letter each: w small write, b write that evicts the most, c clear, r all readers read.
static void run_one(Run& run, const std::string& before, const std::string& after, a0_reader_options_t o, int how, bool random) {
  Topic T;
  auto apply = [&](char c) {
    if (c == 'w') write(T, 5);
    if (c == 'm') write(T, 120);
    if (c == 'b') write(T, 230);
    if (c == 'c') clear(T);
  };
  for (char c : before) apply(c);
  std::vector<std::unique_ptr<Rd>> rd;
  std::vector<Want> want;
  How h = (How)how;
  rd.emplace_back(new RdZc(T, o, h));
  rd.emplace_back(new RdSync(T, o, h));
  rd.emplace_back(new RdCppZc(T, o, h));
  rd.emplace_back(new RdCpp(T, o, h));
  Want w;
  w.o = o;
  w.start(T);
  want.assign(rd.size(), w);
  std::string out;
  for (char c : after) {
    beat();
    if (c != 'r') {
      apply(c);
      continue;
    }
    if (random) {
      // reads by position, which must not disturb the others
      for (auto& f : T.live) {
        g_got = 0;
        a0_zero_copy_callback_t cb = {&T, on_flat};
        a0_err_t e = a0_read_random_access(T.ar, f.off, cb);
        SQ_CHECK(!e && g_got == f.seq, "random access to the live frame %lu returned %d/%d, packet %lu", (unsigned long)f.seq, e, sys(e), (unsigned long)g_got);
      }
      for (size_t off : {(size_t)8, T.mem.size() - 8, T.mem.size(), T.mem.size() + 16, (size_t)-16, (size_t)-40, (size_t)1 << 40}) {
        if (!off) continue;
        g_got = 0;
        a0_zero_copy_callback_t cb = {&T, on_flat};
        a0_err_t e = a0_read_random_access(T.ar, off, cb);
        SQ_CHECK(e && !g_got, "random access outside the frames (%zu) succeeded", off);
      }
      for (auto& f : T.gone) {
        bool reused = false;
        for (auto& l : T.live) reused |= f.off < l.off + sizeof(a0_transport_frame_hdr_t) + l.size && l.off < f.off + sizeof(a0_transport_frame_hdr_t) + f.size;
        if (reused) continue;
        g_got = 0;
        a0_zero_copy_callback_t cb = {&T, on_flat};
        a0_err_t e = a0_read_random_access(T.ar, f.off, cb);
        SQ_CHECK(e && !g_got, "random access to the removed frame %lu returned %d and packet %lu", (unsigned long)f.seq, e, (unsigned long)g_got);
      }
    }
    for (size_t i = 0; i < rd.size(); i++) {
      bool can = want[i].can(T);
      bool says = rd[i]->can();
      SQ_CHECK(says == can, "%s: can_read says %d, options %s leave %s to read", rd[i]->nm, says, init_name[o.init], can ? "something" : "nothing");
      g_far = false;
      uint64_t got = rd[i]->read(can);
      if (!got && can && how == TIMED) {
        // the deadline has passed; one that has not must do
        g_far = true;
        got = rd[i]->read(can);
      }
      if (!can) {
        SQ_CHECK(!got, "%s: returned packet %lu although nothing is left to return (at %lu)", rd[i]->nm, (unsigned long)got, (unsigned long)want[i].cur);
        if (i == 0) out += ".";
        continue;
      }
      SQ_CHECK(got, "%s: nothing returned although packets %lu..%lu are there (at %lu)", rd[i]->nm, (unsigned long)T.live[0].seq, (unsigned long)T.high, (unsigned long)want[i].cur);
      SQ_CHECK(want[i].ok(T, got), "%s: returned packet %lu (options %s/%s, at %lu, first read %s, live %lu..%lu)", rd[i]->nm, (unsigned long)got, init_name[o.init], o.iter == A0_ITER_NEXT ? "next" : "newest", (unsigned long)want[i].cur, want[i].done ? "done" : "not done", (unsigned long)T.live[0].seq, (unsigned long)T.high);
      want[i].cur = got;
      want[i].done = true;
      if (i == 0) out += fmt("%lu ", (unsigned long)got);
    }
  }
  run.execs++;
  run.transitions += before.size() + after.size();
  std::string k = fmt("%d%d%d|", o.init, o.iter, how) + out + "|" + fmt("%zu/%lu/%lu/%d", T.live.size(), (unsigned long)T.high, (unsigned long)want[0].cur, want[0].done);
  if (run.distinct.insert(hash(k.data(), k.size())).second) run.states++;
  run.validated++;
}

static void all(Run& run, const std::string& alpha, int pre, int depth, a0_reader_options_t o, int how, bool random) {
  std::vector<std::string> befores = {""};
  for (size_t i = 0; i < befores.size(); i++)
    if ((int)befores[i].size() < pre)
      for (char c : alpha)
        if (c != 'r') befores.push_back(befores[i] + c);
  for (auto& b : befores) {
    std::string a;
    std::function<void()> go = [&] {
      // a sequence ending in a read covers its prefixes
      if ((int)a.size() == depth) {
        trace_set("before the start: '" + b + "', then '" + a + "' (w/m/b write small/medium/large, c clear, r read)" + fmt(", start %s, %s, kind %d", init_name[o.init], o.iter == A0_ITER_NEXT ? "next" : "newest", how));
        try {
          run_one(run, b, a, o, how, random);
        } catch (Skip&) {
        }
        return;
      }
      for (char c : alpha) {
        if ((int)a.size() == depth - 1 && c != 'r') continue;
        a += c;
        go();
        a.pop_back();
      }
    };
    go();
  }
  run.sample(fmt("all sequences over '%s', up to %d before and %d after the start", alpha.c_str(), pre, depth));
  run.bounds = fmt("all sequences over '%s', up to %d before and %d after the start, four kinds of reader side by side", alpha.c_str(), pre, depth);
}

void define_scenarios() {
  for (int init = 0; init < 3; init++)
    for (int iter = 0; iter < 2; iter++) {
      a0_reader_options_t o;
      o.init = (a0_reader_init_t)init;
      o.iter = (a0_reader_iter_t)iter;
      std::string nm = std::string(init_name[init]) + (iter ? "_newest" : "_next");
      scenario("R01", "poll_" + nm, [=](Run& r) { all(r, "wbcr", 3, r.thorough ? 9 : 7, o, POLL, false); });
      scenario("R01", "poll_mixed_" + nm, [=](Run& r) { all(r, "wmbr", 4, r.thorough ? 8 : 6, o, POLL, false); });
      scenario("R04", "timed_" + nm, [=](Run& r) { all(r, "wbcr", 3, r.thorough ? 8 : 6, o, TIMED, false); });
      scenario("R04", "blocking_" + nm, [=](Run& r) { all(r, "wbcr", 3, r.thorough ? 8 : 6, o, BLOCK, true); });
    }
}
