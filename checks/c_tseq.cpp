// Transport: reachable layouts and operation sequences against the reference model.
#include "tmodel.h"
using namespace tmod;

static const size_t H = 144;  // only to pick interesting arena sizes

static void space(const char* prop, unsigned g, const char* nm, Alpha al, size_t maxq, size_t maxt) {
  scenario(prop, nm, [=](Run& r) {
    active = g;
    Arena ar(al.asize);
    Sys s(ar);
    r.bounds = fmt("arena %zu bytes; ", al.asize);
    bfs(r, ar, s, al, g, r.thorough ? maxt : maxq, true);
  });
}
static void seqs(const char* prop, unsigned g, const char* nm, Alpha al, int dq, int dt) {
  scenario(prop, nm, [=](Run& r) {
    active = g;
    Arena ar(al.asize);
    Sys s(ar);
    r.bounds = fmt("arena %zu bytes; ", al.asize);
    deep(r, ar, s, al, g, r.thorough ? dt : dq);
  });
}
static Alpha mk(size_t n, std::vector<size_t> sizes, std::vector<std::pair<size_t, size_t>> d = {}) {
  Alpha a;
  a.asize = n;
  a.sizes = sizes;
  a.doubles = d;
  return a;
}

// All sequences in an arena too large for 32-bit arithmetic; memory is only touched where frames start and end.
static void huge(const char* prop, unsigned g, bool reader) {
  scenario(prop, "huge", [=](Run& r) {
    active = g;
    const size_t G = (size_t)1 << 30;
    Alpha al = mk(9 * G + 1000, {100, 2 * G - 40, 5 * G, 9 * G + 1000 - H - 40}, {});
    al.reader = reader;
    al.too_large = !!(g & T03);
    al.clear = false;
    Arena ar(al.asize);
    int depth = r.thorough ? 5 : 4;
    r.bounds = fmt("arena of 9 GiB, all sequences of %d operations", depth);
    std::vector<Op> path;
    std::function<void()> go = [&] {
      ar.fresh();
      Sys s(ar);
      s.use_reader = reader;
      s.open(A0_ARENA_MODE_SHARED);
      trace_set("9 GiB arena: ");
      for (Op o : path) {
        trace_add("%s; ", str(o).c_str());
        s.exec(o);
        s.check(g);
        r.transitions++;
      }
      r.execs++;
      r.validated++;
      std::string k = s.key();
      if (r.distinct.insert(hash(k.data(), k.size())).second) r.states++;
      if ((int)path.size() == depth) return;
      for (Op o : enabled(s, al)) {
        path.push_back(o);
        try {
          go();
        } catch (Skip&) {
        }
        path.pop_back();
      }
    };
    go();
  });
}

// ---- T10: what read-only and exclusive users get to see -------------------------
static a0_err_t pred_false(void*, bool* out) {
  *out = false;
  return A0_OK;
}
static void check_modes(Sys& s, const uint8_t* snap, size_t n, const Model& want, const char* when) {
  // read-only, on memory that cannot be written
  {
    Arena c(n);
    memcpy(c.data, snap, n);
    c.readonly(true);
    Sys q(c);
    q.m = want;
    q.use_reader = false;
    a0_transport_t t;
    a0_err_t e = a0_transport_init(&t, c.a0(A0_ARENA_MODE_READONLY));
    CK(T10, !e, "read-only, %s: open failed (%d/%d)", when, e, sys(e));
    q.view(&t, T10);
    a0_transport_locked_t lk = q.lock(&t);
    a0_transport_frame_t* p;
    CK(T10, a0_transport_alloc(lk, 1, &p), "read-only, %s: allocation was not refused", when);
    for (size_t z : {(size_t)0, (size_t)8}) CK(T10, a0_transport_alloc(lk, z, &p), "read-only: allocation was not refused");
    a0_predicate_t pr = {nullptr, pred_false};
    a0_time_mono_t far;
    far.ts.tv_sec = 1ll << 40;
    far.ts.tv_nsec = 0;
    CK(T10, a0_transport_wait(lk, pr), "read-only: waiting succeeded");
    CK(T10, a0_transport_timedwait(lk, pr, &far), "read-only: timed waiting succeeded");
    // whatever these answer, they do not touch the arena (it would crash)
    a0_transport_commit(lk);
    a0_transport_clear(lk);
    a0_transport_resize(lk, n);
    q.view_locked(lk, T10);
    q.unlock(lk);
    CK(T10, !memcmp(c.data, snap, n), "read-only, %s: the arena was modified", when);
  }
  {
    Arena c(n);
    memcpy(c.data, snap, n);
    Sys q(c);
    q.m = want;
    q.use_reader = false;
    a0_err_t e = a0_transport_init(&q.w, c.a0(A0_ARENA_MODE_EXCLUSIVE));
    CK(T10, !e, "exclusive, %s: open failed (%d/%d)", when, e, sys(e));
    e = a0_transport_init(&q.v, c.a0(A0_ARENA_MODE_EXCLUSIVE));
    CK(T10, !e, "exclusive, %s: open failed (%d/%d)", when, e, sys(e));
    q.empty_used = s.empty_used;
    q.view(&q.w, T10);
    a0_transport_locked_t lk = q.lock(&q.w);
    a0_predicate_t pr = {nullptr, pred_false};
    CK(T10, a0_transport_wait(lk, pr), "exclusive: waiting succeeded");
    q.unlock(lk);
    unsigned keep = active;
    q.exec({'A', 1});
    q.view(&q.w, T10);
    q.exec({'W', 1});
    q.view(&q.w, T10);
    q.exec({'A', 1});
    // opened once more
    e = a0_transport_init(&q.w, c.a0(A0_ARENA_MODE_EXCLUSIVE));
    CK(T10, !e, "exclusive: second open failed");
    q.view(&q.w, T10);
    // and shared again
    e = a0_transport_init(&q.w, c.a0(A0_ARENA_MODE_SHARED));
    CK(T10, !e, "shared after exclusive: open failed");
    q.view(&q.w, T10);
    q.exec({'W', 1});
    q.view(&q.w, T10);
    active = keep;
  }
}
static void modes(const char* nm, Alpha al, size_t maxq, size_t maxt) {
  scenario("T10", nm, [=](Run& r) {
    active = T10;
    Arena ar(al.asize);
    Sys s(ar);
    r.bounds = fmt("arena %zu bytes, opened in each mode at rest, with an unfinished allocation, and with unfinished allocation and clear by a dead owner; ", al.asize);
    bfs(r, ar, s, al, T10, r.thorough ? maxt : maxq, true, [&](Sys& z, int) {
      check_modes(z, ar.data, ar.size, z.m, "at rest");
      r.execs++;
      Saved keep = save(z, 0, {'U'});
      for (size_t sz : al.sizes) {
        if (!z.fits(sz)) continue;
        load(z, keep);
        // a writer holds the lock with an allocation in progress, and is gone
        a0_transport_locked_t lk = z.lock(&z.w);
        std::vector<Fr> p;
        z.alloc(lk, sz, p);
        std::vector<uint8_t> snap(ar.data, ar.data + ar.size);
        Model m = z.m;
        z.unlock(lk);
        try {
          check_modes(z, snap.data(), snap.size(), m, "with an unfinished allocation left behind");
        } catch (Skip&) {
        }
        r.execs++;
      }
      load(z, keep);
    });
  });
}
static void fresh_modes() {
  scenario("T10", "fresh_arena", [=](Run& r) {
    active = T10;
    r.bounds = "a zeroed arena opened first in each mode";
    {
      trace_set("open a zeroed arena read-only");
      Arena c(512);
      c.readonly(true);
      a0_transport_t t;
      a0_err_t e = a0_transport_init(&t, c.a0(A0_ARENA_MODE_READONLY));
      if (!e) {
        Sys q(c);
        q.use_reader = false;
        q.m.asize = 512;
        q.view(&t, T10);
      }
      for (size_t i = 0; i < 512; i++) CK(T10, !c.data[i], "a read-only open wrote to the arena");
      r.execs++;
      r.distinct.insert(1);
    }
    {
      trace_set("open a zeroed arena exclusively");
      Arena c(512);
      Sys q(c);
      q.use_reader = false;
      q.open(A0_ARENA_MODE_EXCLUSIVE);
      q.check(T10);
      q.exec({'W', 8});
      q.check(T10);
      r.execs++;
      r.distinct.insert(2);
    }
    r.transitions = r.states = r.validated = r.execs;
  });
}

// ---- T11: the same layouts under a 0.2 header --------------------------------------
static void to_0_2(uint8_t* a, size_t n, Model& m, int page, uint64_t base) {
  // shift all sequence numbers
  if (m.high)
    for (auto& f : m.live) {
      auto* h = (a0_transport_frame_hdr_t*)(a + f.off);
      h->seq += base;
      f.seq += base;
      for (size_t k = 0; k < f.size; k++) a[f.off + sizeof *h + k] = byte_of(f.seq, k);
    }
  if (m.high) m.high += base;
  memset(a, 0, 136);
  a[0] = 1;
  a[1] = 1;
  struct Pg {
    uint64_t lo, hi, head, tail;
  } pg[2];
  memset(pg, 0, sizeof pg);
  Pg& c = pg[page];
  if (m.high) {
    c.hi = m.high;
    c.lo = m.live.empty() ? m.high + 1 : m.live[0].seq;
    c.head = m.live.empty() ? 0 : m.live[0].off;
    c.tail = m.live.empty() ? 0 : m.live.back().off;
  }
  pg[!page] = c;
  // the other page: something unfinished
  pg[!page].hi += 1;
  pg[!page].tail = 16;
  memcpy(a + 56, pg, sizeof pg);
  uint32_t idx = page;
  memcpy(a + 120, &idx, 4);
  uint64_t sz = n;
  memcpy(a + 128, &sz, 8);
}
static void upgrades(const char* nm, Alpha al, size_t maxq, size_t maxt, int dq, int dt) {
  scenario("T11", nm, [=](Run& r) {
    active = T11;
    Arena ar(al.asize), c(al.asize);
    Sys s(ar);
    Run inner;
    inner.thorough = r.thorough;
    bfs(inner, ar, s, al, ALL, r.thorough ? maxt : maxq, false, [&](Sys& z, int) {
      for (int page = 0; page < 2; page++)
        for (uint64_t base : {(uint64_t)0, (uint64_t)1 << 40})
          for (auto mode : {A0_ARENA_MODE_SHARED, A0_ARENA_MODE_EXCLUSIVE}) {
            Sys q(c);
            memcpy(c.data, ar.data, ar.size);
            q.m = z.m;
            to_0_2(c.data, c.size, q.m, page, base);
            q.m.rseq = 0;
            q.use_reader = true;
            q.empty_used = z.empty_used;
            // checks on allocation and stepping also belong to this property here
            active = T11 | T02 | T03 | T04 | T08;
            uint32_t tl = trace_len();
            trace_add(" rewritten as 0.2 (page %d, base %lu, mode %d); ", page, (unsigned long)base, (int)mode);
            for (auto* t : {&q.w, &q.r, &q.v}) {
              a0_err_t e = a0_transport_init(t, c.a0(mode));
              CK(T11, !e, "open failed (%d/%d)", e, sys(e));
            }
            q.m.asize = c.size;
            q.check(T11);
            r.states++;
            std::string k = q.key() + fmt("%d%lu%d", page, (unsigned long)base, (int)mode);
            r.distinct.insert(hash(k.data(), k.size()));
            Alpha after = al;
            after.reader = true;
            std::function<void(int)> go = [&](int d) {
              if (!d) return;
              Saved sv = save(q, 0, {'U'});
              uint32_t t2 = trace_len();
              for (Op o : enabled(q, after)) {
                load(q, sv);
                trace_cut(t2);
                trace_add("%s; ", str(o).c_str());
                r.transitions++;
                r.execs++;
                q.exec(o);
                q.check(T11);
                go(d - 1);
              }
              load(q, sv);
              trace_cut(t2);
            };
            go(r.thorough ? dt : dq);
            active = T11;
            trace_cut(tl);
            r.validated++;
          }
    });
    r.bounds = fmt("arena %zu bytes; %s all sequences of %d operations after the upgrade", al.asize, inner.bounds.c_str(), r.thorough ? dt : dq);
    r.sample(inner.samples.empty() ? "" : inner.samples[0] + "rewritten as 0.2, opened");
  });
}

void define_scenarios() {
  auto small = mk(H + 160, {0, 8, 9, 40, 72, 120}, {{0, 8}, {72, 0}, {8, 72}});
  auto odd = mk(H + 201, {0, 7, 25, 88, 160, 161}, {{7, 88}});
  auto tiny = mk(H + 40, {0, 1}, {{0, 0}});
  auto mid = mk(H + 48 * 5, {1, 24, 56, 100}, {{1, 1}, {24, 100}});
  auto many = mk(H + 48 * 7 + 8, {1, 24, 56}, {});
  struct P {
    const char* id;
    unsigned g;
  };
  for (P p : {P{"T02", T02}, P{"T03", T03}, P{"T04", T04}}) {
    auto f = [&](Alpha a) {
      a.reader = p.g == T04;
      a.too_large = p.g == T03;
      return a;
    };
    space(p.id, p.g, "small", f(small), 60000, 1000000);
    space(p.id, p.g, "odd", f(odd), 60000, 1000000);
    space(p.id, p.g, "tiny", f(tiny), 60000, 1000000);
    space(p.id, p.g, "mid", f(mid), 60000, 1000000);
    space(p.id, p.g, "many", f(many), 60000, 1000000);
    space(p.id, p.g, "uneven", f(mk(H + 331, {0, 3, 16, 47, 90, 291}, {{3, 90}, {47, 0}})), 400000, 1000000);
    Alpha d = mk(H + 48 * 3 + 1, {1, 24}, {});
    Alpha d2 = f(d);
    d2.too_large = false;
    seqs(p.id, p.g, "sequences", d2, p.g == T04 ? 6 : 9, p.g == T04 ? 8 : 11);
    Alpha e = mk(H + 160, {0, 9, 72, 120}, {{8, 8}});
    huge(p.id, p.g, p.g == T04);
    seqs(p.id, p.g, "sequences_wide", f(e), p.g == T02 ? 6 : 5, p.g == T02 ? 7 : 6);
  }
  {
    auto f = [&](Alpha a, std::vector<size_t> rs) {
      a.reader = false;
      a.too_large = false;
      a.resize = rs;
      a.resize_used = true;
      return a;
    };
    space("T08", T08, "small", f(mk(H + 160, {0, 8, 40, 72}), {H + 160, H, 0, H - 1}), 60000, 1000000);
    space("T08", T08, "odd", f(mk(H + 201, {0, 7, 25, 88}), {H + 201, H + 200}), 60000, 1000000);
    space("T08", T08, "mid", f(mk(H + 240, {1, 24, 100}), {H + 240, H + 239, H + 96}), 60000, 1000000);
    space("T08", T08, "doubles", f(mk(H + 160, {8, 40}, {{0, 8}, {72, 0}, {8, 72}}), {H + 160, H}), 60000, 1000000);
    seqs("T08", T08, "sequences", f(mk(H + 48 * 3 + 1, {1, 24}), {H + 48 * 3 + 1, H + 96}), 6, 7);
  }
  {
    auto f = [&](Alpha a) {
      a.reader = false;
      return a;
    };
    modes("small", f(mk(H + 160, {0, 8, 40, 72}, {{0, 8}})), 60000, 1000000);
    modes("odd", f(mk(H + 201, {0, 25, 88}, {})), 60000, 1000000);
    modes("mid", f(mk(H + 240, {1, 24, 100}, {{1, 1}})), 60000, 1000000);
    Alpha x = mk(H + 160, {0, 9, 40, 72, 120}, {{0, 8}, {8, 72}});
    x.mode = A0_ARENA_MODE_EXCLUSIVE;
    space("T10", T10 | T02 | T03 | T04, "exclusive_space", x, 60000, 1000000);
    Alpha y = mk(H + 48 * 3 + 1, {1, 24}, {});
    y.mode = A0_ARENA_MODE_EXCLUSIVE;
    y.reader = false;
    y.too_large = false;
    seqs("T10", T10 | T02 | T03 | T04, "exclusive_sequences", y, 7, 9);
    fresh_modes();
  }
  {
    auto f = [&](Alpha a) {
      a.reader = false;
      a.too_large = false;
      return a;
    };
    upgrades("small", f(mk(H + 160, {0, 8, 40, 72}, {{0, 8}})), 60000, 1000000, 2, 3);
    upgrades("odd", f(mk(H + 201, {0, 25, 88}, {})), 60000, 1000000, 2, 3);
    upgrades("mid", f(mk(H + 240, {1, 24, 100}, {{1, 1}})), 60000, 1000000, 1, 2);
  }
}
