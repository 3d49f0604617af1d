// Readers, their threads and concurrent writers under the controlled scheduler.
#include "harness.h"

#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/err.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/transport.h>

#include <cerrno>
using namespace mc;

static Shared sh;
static size_t asize;
static const int NP = 6;
static a0_transport_t* wh[NP];
static a0_reader_zc_t* rz[3];
static a0_reader_t* rc[3];

static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
static a0_arena_t arena(int p) {
  a0_arena_t a;
  a.buf.data = sh.at(p);
  a.buf.size = asize;
  a.mode = A0_ARENA_MODE_SHARED;
  return a;
}
static a0_time_mono_t at(uint64_t ns) {
  a0_time_mono_t t;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}

// ---- packets: the n-th committed one carries its number -------------------------
static uint8_t proto[256];
static size_t proto_size, id_at, pl_at;
static a0_err_t proto_alloc(void*, size_t n, a0_buf_t* out) {
  out->data = proto;
  out->size = n;
  proto_size = n;
  return A0_OK;
}
static const char* PL = "payload-00";
static void make_proto() {
  Atomic q;
  a0_packet_t k;
  memset(&k, 0, sizeof k);
  memcpy(k.id, "00000000-0000-4000-8000-000000000000", 37);
  k.payload.data = (uint8_t*)PL;
  k.payload.size = 10;
  a0_alloc_t al = {nullptr, proto_alloc, nullptr};
  a0_flat_packet_t fp;
  MC_CHECK(!a0_packet_serialize(k, al, &fp), "serialize failed");
  id_at = pl_at = 0;
  for (size_t i = 0; i + 10 <= proto_size; i++) {
    if (!memcmp(proto + i, "00000000-0000", 13)) id_at = i;
    if (!memcmp(proto + i, PL, 10)) pl_at = i;
  }
}

static int nlog;       // committed packets
static int writing;    // writers not yet finished
static int pending;    // user inside its commit
static bool lost_commit;
static uint64_t dl;
struct Sub {
  a0_reader_options_t o;
  int before, after;    // committed packets when the start was called and when it returned
  int got[32], ngot;
  bool in_cb, closed, started, gaps;
  int kind;             // 0 zero copy, 1 copying
  bool reclose;
};
static Sub subs[3];

static void reset(size_t size) {
  asize = size;
  nlog = pending = 0;
  writing = 0;
  lost_commit = false;
  memset(subs, 0, sizeof subs);
  dl = now_ns() + 1000000;
  make_proto();
  Atomic q;
  for (int p = 0; p < NP; p++) MC_CHECK(!a0_transport_init(wh[p], arena(p)), "init failed");
}
static void write_one(int p) {
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(wh[p], &lk), "lock failed");
  a0_transport_frame_t* f = nullptr;
  MC_CHECK(!a0_transport_alloc(lk, proto_size, &f), "alloc failed");
  {
    Atomic q;
    if (pending && died(pending)) {
      // the writer before died inside its commit: done or not
      uint64_t hi = 0;
      a0_transport_seq_high(lk, &hi);
      if ((int)hi == nlog + 2) nlog++;
      pending = 0;
    }
    memcpy(f->data, proto, proto_size);
    char b[16];
    snprintf(b, sizeof b, "%08d", nlog + 1);
    memcpy(f->data + id_at, b, 8);
    f->data[pl_at + 8] = '0' + (nlog + 1) / 10;
    f->data[pl_at + 9] = '0' + (nlog + 1) % 10;
    pending = self();
  }
  MC_CHECK(!a0_transport_commit(lk), "commit failed");
  nlog++;
  pending = 0;
  MC_CHECK(!a0_transport_unlock(lk), "unlock failed");
}
static int number(const char* id, a0_buf_t pl) {
  int n = atoi(std::string(id, 8).c_str());
  MC_CHECK(strlen(id) == 36 && !memcmp(id + 8, "-0000-4000-8000-000000000000", 28) && pl.size == 10 && !memcmp(pl.data, "payload-", 8) && (pl.data[8] - '0') * 10 + pl.data[9] - '0' == n, "a packet is delivered with damaged content");
  return n;
}
static void delivered(Sub& s, int n, uint64_t low) {
  MC_CHECK(!s.closed, "packet %d is delivered after the reader was closed", n);
  MC_CHECK(n >= 1 && n <= nlog + (pending ? 1 : 0), "packet %d is delivered before it was committed", n);
  MC_CHECK(s.ngot < 32, "too many deliveries");
  int prev = s.ngot ? s.got[s.ngot - 1] : 0;
  if (prev) {
    MC_CHECK(n != prev, "packet %d is delivered twice", n);
    MC_CHECK(n > prev, "packet %d is delivered after packet %d", n, prev);
    if (s.o.iter == A0_ITER_NEXT) {
      if (low) MC_CHECK(n == (prev + 1 > (int)low ? prev + 1 : (int)low), "packet %d is delivered after packet %d, the oldest one live is %d", n, prev, (int)low);
      else if (!s.gaps) MC_CHECK(n == prev + 1, "packet %d is delivered after packet %d", n, prev);
    }
  }
  s.got[s.ngot++] = n;
}
static void on_zc(void* u, a0_transport_locked_t lk, a0_flat_packet_t fp) {
  Sub& s = *(Sub*)u;
  {
    Atomic q;
    a0_uuid_t* id = nullptr;
    a0_buf_t b;
    uint64_t low = 0;
    MC_CHECK(!a0_flat_packet_id(fp, &id) && !a0_flat_packet_payload(fp, &b), "unreadable packet");
    a0_transport_seq_low(lk, &low);
    delivered(s, number((char*)*id, b), low);
    s.in_cb = true;
  }
  if (s.reclose) {
    a0_err_t e = a0_reader_zc_close(rz[&s - subs]);
    MC_CHECK(sys(e) == EDEADLK, "closing a reader from its own callback returned %d/%d", e, sys(e));
  }
  point();
  s.in_cb = false;
}
static void on_pkt(void* u, a0_packet_t k) {
  Sub& s = *(Sub*)u;
  {
    Atomic q;
    delivered(s, number((char*)k.id, k.payload), 0);
    s.in_cb = true;
  }
  if (s.reclose) {
    a0_err_t e = a0_reader_close(rc[&s - subs]);
    MC_CHECK(sys(e) == EDEADLK, "closing a reader from its own callback returned %d/%d", e, sys(e));
  }
  point();
  s.in_cb = false;
}
static uint8_t rbuf[3][256];
static a0_err_t r_alloc(void* u, size_t n, a0_buf_t* out) {
  out->data = (uint8_t*)u;
  out->size = n;
  return n <= 256 ? A0_OK : A0_ERR_INVALID_ARG;
}
static void start(int i, int kind, a0_reader_options_t o) {
  Sub& s = subs[i];
  s.o = o;
  s.kind = kind;
  s.before = nlog;
  a0_err_t e;
  if (kind == 0) {
    a0_zero_copy_callback_t cb = {&s, on_zc};
    e = a0_reader_zc_init(rz[i], arena(cur_proc()), o, cb);
  } else {
    a0_packet_callback_t cb = {&s, on_pkt};
    a0_alloc_t al = {rbuf[i], r_alloc, nullptr};
    e = a0_reader_init(rc[i], arena(cur_proc()), al, o, cb);
  }
  MC_CHECK(!e, "starting a reader failed (%d/%d)", e, sys(e));
  s.after = nlog + (pending ? 1 : 0);
  s.started = true;
}
static void close_(int i) {
  Sub& s = subs[i];
  a0_err_t e = s.kind == 0 ? a0_reader_zc_close(rz[i]) : a0_reader_close(rc[i]);
  MC_CHECK(!e, "closing a reader failed (%d/%d)", e, sys(e));
  MC_CHECK(!s.in_cb, "close returned while the callback runs");
  s.closed = true;
}
// the first delivery obeys the start option (nothing was evicted)
static void check_first(Sub& s) {
  if (!s.ngot) return;
  int lo, hi;
  if (s.o.init == A0_INIT_OLDEST) lo = hi = 1;
  else if (s.o.init == A0_INIT_MOST_RECENT) lo = s.before > 1 ? s.before : 1, hi = s.after > 1 ? s.after : 1;
  else lo = s.before + 1, hi = s.after + 1;
  if (s.o.iter == A0_ITER_NEWEST && (s.o.init == A0_INIT_AWAIT_NEW || !s.before)) hi = 99;
  MC_CHECK(s.got[0] >= lo && (s.gaps || s.got[0] <= hi), "the first packet delivered is %d; %d were there when the reader was started, %d when it had started", s.got[0], s.before, s.after);
}
static bool caught_up(Sub& s) {
  if (writing) return false;
  if (s.ngot && s.got[s.ngot - 1] == nlog) return true;
  if (!s.started) return false;
  if (s.o.init == A0_INIT_AWAIT_NEW) return s.after >= nlog && !s.ngot && s.before == nlog;
  return nlog == 0;
}

static a0_reader_options_t opt(int init, int iter) {
  a0_reader_options_t o;
  o.init = (a0_reader_init_t)init;
  o.iter = (a0_reader_iter_t)iter;
  return o;
}
static const char* INI[] = {"oldest", "recent", "new"};
static const char* ITE[] = {"next", "newest"};

static void writer(int p, int n, int flags = 0) {
  writing++;
  spawn(p, p == 2 ? "writer" : "writer2", [p, n] {
    for (int i = 0; i < n; i++) write_one(p);
    writing--;
  }, flags);
}

static const size_t BIG = 1500, SMALL = 144 + 112 * 2 + 8;

// n0 packets before, w1/w2 written by others meanwhile; the owner closes when everything due has come
static void deliver(const char* nm, int kind, int init, int iter, int n0, int w1, int w2, size_t size, mc::Config q, mc::Config t, bool th = false) {
  std::string n = std::string(nm) + "_" + (kind ? "copy_" : "zc_") + INI[init] + "_" + ITE[iter];
  scenario("R02", n, q, t, [=] {
    reset(size);
    subs[0].gaps = size != BIG;
    {
      Atomic qq;
      for (int i = 0; i < n0; i++) write_one(0);
    }
    if (w1) writer(2, w1);
    if (w2) writer(3, w2);
    spawn(1, "owner", [=] {
      start(0, kind, opt(init, iter));
      await([] {
        Sub& s = subs[0];
        // with a start that may have seen the last packet already there may be nothing to deliver
        if (s.o.init == A0_INIT_AWAIT_NEW && !writing && !s.ngot && s.after == nlog && s.before < nlog) return true;
        return caught_up(s);
      });
      close_(0);
    });
    run();
    Sub& s = subs[0];
    check_first(s);
    if (init == A0_INIT_AWAIT_NEW && s.after < nlog) MC_CHECK(s.ngot, "nothing delivered");
    for (int i = 0; i < s.ngot; i++) outcome(s.got[i]);
    outcome(1000 + s.ngot);
  }, th);
}
// the owner closes at any time
static void closing(const char* nm, int kind, int init, int iter, int n0, int w1, bool reclose, mc::Config q, mc::Config t, int wflags = 0) {
  std::string n = std::string(nm) + "_" + (kind ? "copy_" : "zc_") + INI[init] + "_" + ITE[iter];
  scenario("R03", n, q, t, [=] {
    reset(BIG);
    subs[0].reclose = reclose;
    {
      Atomic qq;
      for (int i = 0; i < n0; i++) write_one(0);
    }
    if (w1) writer(2, w1, wflags);
    spawn(1, "owner", [=] {
      start(0, kind, opt(init, iter));
      point();
      close_(0);
    });
    run();
    check_first(subs[0]);
    for (int i = 0; i < subs[0].ngot; i++) outcome(subs[0].got[i]);
    outcome(1000 + subs[0].ngot);
    // the topic still works
    Atomic qq;
    if (!wflags) {
      write_one(0);
      a0_transport_locked_t lk;
      uint64_t hi = 0;
      MC_CHECK(!a0_transport_lock(wh[1], &lk) && !a0_transport_seq_high(lk, &hi) && !a0_transport_unlock(lk) && (int)hi == nlog, "the topic is broken after closing a reader");
    }
  });
}
// one reader is closed while another goes on
static void closing_other(int kind, mc::Config q, mc::Config t) {
  scenario("R03", std::string("other_goes_on_") + (kind ? "copy" : "zc"), q, t, [=] {
    reset(BIG);
    writer(2, 1);
    spawn(1, "owner", [=] {
      start(0, kind, opt(A0_INIT_OLDEST, A0_ITER_NEXT));
      close_(0);
    });
    spawn(3, "other", [=] {
      start(1, kind, opt(A0_INIT_OLDEST, A0_ITER_NEXT));
      await([] { return caught_up(subs[1]); });
      close_(1);
    });
    run();
    outcome(subs[0].ngot * 10 + subs[1].ngot);
  });
}

// ---- blocking reads -----------------------------------------------------------------
static a0_reader_sync_zc_t* sz[3];
static int last_read[3];
static void on_sync(void* u, a0_transport_locked_t, a0_flat_packet_t fp) {
  Atomic q;
  a0_uuid_t* id = nullptr;
  a0_buf_t b;
  MC_CHECK(!a0_flat_packet_id(fp, &id) && !a0_flat_packet_payload(fp, &b), "unreadable packet");
  *(int*)u = number((char*)*id, b);
}
static void blocking(const char* nm, int init, int iter, int n0, int w1, int w2, int reads, bool timed, size_t size, mc::Config q, mc::Config t, int wflags = 0) {
  scenario("R04", std::string(nm) + "_" + INI[init] + "_" + ITE[iter], q, t, [=] {
    reset(size);
    bool gaps = size != BIG;
    {
      Atomic qq;
      for (int i = 0; i < n0; i++) write_one(0);
    }
    if (w1) writer(2, w1, wflags);
    if (w2) writer(3, w2);
    if (timed) add_deadline(dl);
    static int prev, after;
    prev = after = 0;
    int rd = spawn(1, "reader", [=] {
      int before = nlog;
      MC_CHECK(!a0_reader_sync_zc_init(sz[0], arena(1), opt(init, iter)), "init failed");
      after = nlog + (pending ? 1 : 0);
      for (int i = 0; i < reads; i++) {
        last_read[0] = 0;
        a0_zero_copy_callback_t cb = {&last_read[0], on_sync};
        a0_time_mono_t d = at(dl);
        int floor = nlog;
        a0_err_t e = timed ? a0_reader_sync_zc_read_blocking_timeout(sz[0], &d, cb) : a0_reader_sync_zc_read_blocking(sz[0], cb);
        outcome(e * 100 + last_read[0]);
        if (e) {
          MC_CHECK(timed && sys(e) == ETIMEDOUT, "a blocking read failed (%d/%d)", e, sys(e));
          MC_CHECK(now_ns() >= dl, "a timed read timed out before its deadline");
          MC_CHECK(!last_read[0], "a timed read timed out and handed out a packet");
          break;
        }
        int n = last_read[0];
        MC_CHECK(n, "a blocking read returned nothing");
        int lo, hi;
        if (!prev) {
          if (init == A0_INIT_OLDEST) lo = hi = 1;
          else if (init == A0_INIT_MOST_RECENT) lo = before > 1 ? before : 1, hi = after > 1 ? after : 1;
          else lo = before + 1, hi = after + 1;
          if (iter == A0_ITER_NEWEST && (init == A0_INIT_AWAIT_NEW || !before || gaps)) hi = 99;
        } else {
          lo = prev + 1;
          hi = iter == A0_ITER_NEXT ? prev + 1 : 99;
          if (iter == A0_ITER_NEWEST && floor > lo) lo = floor;
        }
        MC_CHECK(n >= lo && (gaps || n <= hi), "a blocking read returned packet %d, expected %d..%d (previous %d)", n, lo, hi, prev);
        prev = n;
      }
      MC_CHECK(!a0_reader_sync_zc_close(sz[0]), "close failed");
    }, timed ? 0 : MAY_BLOCK);
    run();
    // blocked for good only if nothing is due
    if (blocked(rd)) MC_CHECK(prev ? prev == nlog : init == A0_INIT_AWAIT_NEW ? after >= nlog : nlog == 0, "a blocking read sleeps although a packet is due (last returned %d, %d written, %d at the start)", prev, nlog, after);
    outcome(blocked(rd));
  });
}

void define_scenarios() {
  sh = make_shared(1536, NP);
  for (auto& h : wh) h = (a0_transport_t*)make_handle(sizeof(a0_transport_t));
  for (auto& h : rz) h = (a0_reader_zc_t*)make_handle(sizeof(a0_reader_zc_t));
  for (auto& h : rc) h = (a0_reader_t*)make_handle(sizeof(a0_reader_t));
  for (auto& h : sz) h = (a0_reader_sync_zc_t*)make_handle(sizeof(a0_reader_sync_zc_t));
  for (int kind = 0; kind < 2; kind++)
    for (int init = 0; init < 3; init++)
      for (int iter = 0; iter < 2; iter++) {
        deliver("empty_w2", kind, init, iter, 0, 2, 0, BIG, cfg(3), cfg(4));
        deliver("one_w2", kind, init, iter, 1, 2, 0, BIG, cfg(3), cfg(4));
        deliver("two_w1w1", kind, init, iter, 2, 1, 1, BIG, cfg(2), cfg(3));
        deliver("evict_w3", kind, init, iter, 1, 3, 0, SMALL, cfg(2), cfg(3));
        deliver("evict_w2w1", kind, init, iter, 2, 2, 1, SMALL, cfg(1), cfg(2));
      }
  for (int kind = 0; kind < 2; kind++) {
    for (int init = 0; init < 3; init++) {
      closing("idle", kind, init, 0, 0, 0, false, cfg(5), cfg(7));
      closing("one", kind, init, 0, 1, 0, false, cfg(5), cfg(7));
      closing("w1", kind, init, 0, 0, 1, false, cfg(3), cfg(4));
      closing("one_w1", kind, init, 1, 1, 1, false, cfg(3), cfg(4));
    }
    closing("in_callback", kind, 0, 0, 1, 0, true, cfg(4), cfg(5));
    closing("in_callback_w1", kind, 2, 0, 0, 1, true, cfg(3), cfg(4));
    closing("writer_dies", kind, 0, 0, 0, 1, false, cfg(2, 1), cfg(3, 1), KILLABLE);
    closing_other(kind, cfg(1), cfg(2));
  }
  for (int init = 0; init < 3; init++)
    for (int iter = 0; iter < 2; iter++) {
      blocking("w2", init, iter, 0, 2, 0, iter ? 1 : 2, false, BIG, cfg(4), cfg(6));
      blocking("one_w1w1", init, iter, 1, 1, 1, iter ? 1 : 2, false, BIG, cfg(3), cfg(4));
      blocking("timed_w1", init, iter, 0, 1, 0, 2, true, BIG, cfg(4, 0, 1), cfg(6, 0, 1));
      blocking("timed_one_w1", init, iter, 1, 1, 0, 2, true, BIG, cfg(4, 0, 1), cfg(6, 0, 1));
      blocking("evict_w3", init, iter, 1, 3, 0, 1, false, SMALL, cfg(4), cfg(6));
    }
  blocking("timed_writer_dies", 0, 0, 0, 1, 0, 1, true, BIG, cfg(3, 1, 1), cfg(4, 1, 1), KILLABLE);
}
