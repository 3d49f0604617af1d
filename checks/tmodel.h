// Reference model of a transport and an executor that runs operations on the real one and compares.
#pragma once
#include "seq.h"

#include <a0/arena.h>
#include <a0/callback.h>
#include <a0/err.h>
#include <a0/transport.h>

#include <map>

namespace tmod {
using namespace seq;

enum : unsigned { T02 = 1, T03 = 2, T04 = 4, T08 = 8, T10 = 16, T11 = 32, T01 = 64, ALL = 0xffff };
static unsigned active = ALL;  // properties judged by this scenario
#define CK(group, cond, ...) do { if (!(cond)) { if (tmod::active & (group)) seq::fail(__VA_ARGS__); throw seq::Skip{}; } } while (0)

static int sys(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }

struct Fr {
  uint64_t seq;
  size_t size, off;
};
// payload bytes that are written and compared: all, or the two ends of a very large frame
static size_t step_of(size_t size, size_t k) { return size > 65536 && k == 64 ? size - 64 : k; }
static uint8_t byte_of(uint64_t seq, size_t k) { return (uint8_t)(seq * 37 + k * 11 + 5); }

struct Model {
  std::vector<Fr> live;
  uint64_t high = 0;
  size_t asize = 0;
  uint64_t commits = 0;
  uint64_t rseq = 0;  // reader's position; 0: never set
  bool has(uint64_t s) const { return !live.empty() && live[0].seq <= s && s <= high; }
};

// An arena that ends at a guard page.
struct Arena {
  uint8_t *base, *data;
  size_t maplen, size;
  Arena(size_t n) : size(n) {
    maplen = ((n + 4095) / 4096 + 2) * 4096;
    base = nullptr;
    fresh();
  }
  // new zeroed memory at the same place
  void fresh() {
    size_t n = size;
    base = (uint8_t*)mmap(base, maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (base ? MAP_FIXED : 0), -1, 0);
    if (base == MAP_FAILED) die("mmap");
    mprotect(base, 4096, PROT_NONE);
    mprotect(base + maplen - 4096, 4096, PROT_NONE);
    data = base + maplen - 4096 - ((n + 15) / 16 * 16);
    memset(base + 4096, 0xEE, data - (base + 4096));
    memset(data + n, 0xEE, base + maplen - 4096 - (data + n));
  }
  ~Arena() { munmap(base, maplen); }
  void readonly(bool on) { mprotect(base + 4096, maplen - 8192, on ? PROT_READ : PROT_READ | PROT_WRITE); }
  void check_edges() {
    for (uint8_t* p = base + 4096; p < data; p++) CK(T03, *p == 0xEE, "memory before the arena was written");
    for (uint8_t* p = data + size; p < base + maplen - 4096; p++) CK(T03, *p == 0xEE, "memory after the arena was written");
  }
  a0_arena_t a0(a0_arena_mode_t m) {
    a0_arena_t a;
    a.buf.data = data;
    a.buf.size = size;
    a.mode = m;
    return a;
  }
};

struct Op {
  char k;
  size_t a = 0, b = 0;
};
inline std::string str(Op o) {
  switch (o.k) {
    case 'W': return fmt("write %zu", o.a);
    case 'D': return fmt("write %zu and %zu in one commit", o.a, o.b);
    case 'A': return fmt("allocate %zu, never commit", o.a);
    case 'L': return fmt("allocate too much (%zu)", o.a);
    case 'C': return "clear";
    case 'Z': return fmt("resize to %zu", o.a);
    case 'H': return "reader: to oldest";
    case 'T': return "reader: to newest";
    case 'N': return "reader: next";
    case 'P': return "reader: previous";
    case 'J': return fmt("reader: jump to live frame %zu", o.a);
    case 'U': return "lock and unlock";
  }
  return "?";
}

// Real transport plus model.
struct Sys {
  Arena& ar;
  a0_transport_t w, r, v;  // writer, reader under test, viewer
  Model m;
  size_t empty_used = 0;  // used space of an empty transport
  bool use_reader = true;
  Sys(Arena& a) : ar(a) {}
  void open(a0_arena_mode_t mode) {
    for (auto* t : {&w, &r, &v}) {
      a0_err_t e = a0_transport_init(t, ar.a0(mode));
      CK(ALL, !e, "open failed (%d/%d)", e, sys(e));
    }
    m.asize = ar.size;
    a0_transport_locked_t lk = lock(&v);
    CK(T08 | T03, !a0_transport_used_space(lk, &empty_used), "used space query failed");
    unlock(lk);
  }
  a0_transport_locked_t lock(a0_transport_t* t) {
    a0_transport_locked_t lk;
    a0_err_t e = a0_transport_lock(t, &lk);
    CK(ALL, !e, "lock failed (%d/%d)", e, sys(e));
    return lk;
  }
  void unlock(a0_transport_locked_t lk) {
    a0_err_t e = a0_transport_unlock(lk);
    CK(ALL, !e, "unlock failed (%d/%d)", e, sys(e));
  }
  void check_frame(a0_transport_locked_t lk, const Fr& f, unsigned g, const char* who) {
    a0_transport_frame_t* p = nullptr;
    a0_err_t e = a0_transport_frame(lk, &p);
    CK(g, !e, "%s: frame %lu cannot be read (%d/%d)", who, (unsigned long)f.seq, e, sys(e));
    size_t off = (uint8_t*)p - ar.data;
    CK(g, (uint8_t*)p >= ar.data && off + sizeof(a0_transport_frame_hdr_t) <= ar.size, "%s: frame %lu lies outside the arena", who, (unsigned long)f.seq);
    CK(g, p->hdr.seq == f.seq, "%s: frame %lu has sequence number %lu", who, (unsigned long)f.seq, (unsigned long)p->hdr.seq);
    CK(g, p->hdr.data_size == f.size && off == f.off && p->hdr.off == f.off, "%s: frame %lu moved or changed size (offset %zu size %zu, was %zu %zu)", who, (unsigned long)f.seq, off, (size_t)p->hdr.data_size, f.off, f.size);
    for (size_t k = 0; k < f.size; k = step_of(f.size, k + 1)) CK(g, p->data[k] == byte_of(f.seq, k), "%s: byte %zu of frame %lu is damaged", who, k, (unsigned long)f.seq);
  }
  // everything the transport shows, through handle t
  void view(a0_transport_t* t, unsigned g) {
    a0_transport_locked_t lk = lock(t);
    view_locked(lk, g);
    unlock(lk);
  }
  void view_locked(a0_transport_locked_t lk, unsigned g) {
    bool em = false, ne = false;
    uint64_t lo = 0, hi = 0;
    CK(g, !a0_transport_empty(lk, &em) && !a0_transport_nonempty(lk, &ne) && !a0_transport_seq_low(lk, &lo) && !a0_transport_seq_high(lk, &hi), "query failed");
    CK(g, hi == m.high, "the highest sequence number is %lu, expected %lu", (unsigned long)hi, (unsigned long)m.high);
    CK(g, em == m.live.empty() && ne == !em, "empty=%d nonempty=%d with %zu live frames", em, ne, m.live.size());
    if (!m.live.empty()) CK(g, lo == m.live[0].seq, "the lowest sequence number is %lu, expected %lu", (unsigned long)lo, (unsigned long)m.live[0].seq);
    size_t used = 0;
    CK(g, !a0_transport_used_space(lk, &used), "used space query failed");
    for (auto& f : m.live) CK(g | T08, used >= f.off + sizeof(a0_transport_frame_hdr_t) + f.size, "used space %zu does not cover the live frame at %zu of size %zu", used, f.off, f.size);
    CK(g | T08, used <= m.asize, "used space %zu exceeds the size %zu", used, m.asize);
    if (m.live.empty()) {
      CK(g | T04, a0_transport_jump_head(lk) == A0_ERR_RANGE && a0_transport_jump_tail(lk) == A0_ERR_RANGE, "going to the oldest or newest frame of an empty transport is not refused");
      return;
    }
    a0_err_t e = a0_transport_jump_head(lk);
    CK(g | T04, !e, "cannot go to the oldest frame (%d)", e);
    for (size_t i = 0; i < m.live.size(); i++) {
      check_frame(lk, m.live[i], g | T04, "forward");
      bool nx = false, pv = false;
      CK(g | T04, !a0_transport_has_next(lk, &nx) && nx == (i + 1 < m.live.size()), "forward: more=%d at frame %zu of %zu", nx, i + 1, m.live.size());
      CK(g | T04, !a0_transport_has_prev(lk, &pv) && pv == (i > 0), "forward: earlier=%d at frame %zu of %zu", pv, i + 1, m.live.size());
      e = a0_transport_step_next(lk);
      CK(g | T04, nx ? !e : e == A0_ERR_RANGE, "forward: step returned %d at frame %zu of %zu", e, i + 1, m.live.size());
    }
    e = a0_transport_jump_tail(lk);
    CK(g | T04, !e, "cannot go to the newest frame (%d)", e);
    for (size_t i = m.live.size(); i-- > 0;) {
      check_frame(lk, m.live[i], g | T04, "backward");
      e = a0_transport_step_prev(lk);
      CK(g | T04, i ? !e : e == A0_ERR_RANGE, "backward: step returned %d at frame %zu of %zu", e, i + 1, m.live.size());
    }
  }
  void check_reader() {
    if (!use_reader) return;
    a0_transport_locked_t lk = lock(&r);
    bool b = false;
    uint64_t low = m.live.empty() ? 0 : m.live[0].seq;
    bool ok = m.has(m.rseq);
    CK(T04, !a0_transport_iter_valid(lk, &b) && b == ok, "reader at %lu: position valid=%d, live %lu..%lu", (unsigned long)m.rseq, b, (unsigned long)low, (unsigned long)m.high);
    CK(T04, !a0_transport_has_next(lk, &b) && b == (!m.live.empty() && m.rseq < m.high), "reader at %lu: more=%d, live %lu..%lu", (unsigned long)m.rseq, b, (unsigned long)low, (unsigned long)m.high);
    CK(T04, !a0_transport_has_prev(lk, &b) && b == (!m.live.empty() && m.rseq > low), "reader at %lu: earlier=%d, live %lu..%lu", (unsigned long)m.rseq, b, (unsigned long)low, (unsigned long)m.high);
    if (ok) {
      check_frame(lk, m.live[m.rseq - low], T04, "reader");
    } else {
      a0_transport_frame_t* p = nullptr;
      a0_err_t e = a0_transport_frame(lk, &p);
      CK(T04, e, "reader at %lu, which is gone, is given a frame", (unsigned long)m.rseq);
    }
    unlock(lk);
  }
  void check(unsigned g = T02) {
    view(&v, g);
    check_reader();
    ar.check_edges();
  }
  static size_t al(size_t x) { return (x + 15) & ~(size_t)15; }
  bool fits(size_t size) { return size <= m.asize && empty_used + sizeof(a0_transport_frame_hdr_t) + size <= m.asize; }

  // allocation of one frame under lk; pend: earlier ones of this lock
  Fr alloc(a0_transport_locked_t lk, size_t size, std::vector<Fr>& pend) {
    bool ev = false;
    uint64_t lo0 = 0, lo = 0, hi = 0;
    a0_err_t e = a0_transport_alloc_evicts(lk, size, &ev);
    CK(T03, !e, "eviction query for %zu failed (%d)", size, e);
    a0_transport_seq_low(lk, &lo0);
    a0_transport_frame_t* p = nullptr;
    e = a0_transport_alloc(lk, size, &p);
    CK(T03, !e, "allocation of %zu, which fits, failed (%d/%d)", size, e, sys(e));
    size_t off = (uint8_t*)p - ar.data;
    CK(T03, (uint8_t*)p >= ar.data && off < ar.size, "the frame lies outside the arena");
    CK(T03, off >= empty_used, "the frame at offset %zu overlaps the header", off);
    CK(T03, off % 16 == 0, "the frame at offset %zu is not aligned", off);
    size_t end = off + sizeof(a0_transport_frame_hdr_t) + size;
    CK(T03, end <= m.asize, "the frame at %zu of size %zu ends behind the arena (%zu)", off, size, m.asize);
    CK(T03, p->hdr.data_size == size && p->hdr.off == off, "the frame says offset %zu size %zu, is at %zu for %zu", (size_t)p->hdr.off, (size_t)p->hdr.data_size, off, size);
    a0_transport_seq_low(lk, &lo);
    a0_transport_seq_high(lk, &hi);
    Fr f = {m.high + pend.size() + 1, size, off};
    CK(T02, p->hdr.seq == f.seq && hi == f.seq, "the new frame has sequence number %lu, expected %lu", (unsigned long)p->hdr.seq, (unsigned long)f.seq);
    // frames removed for it
    std::vector<Fr> all = m.live;
    all.insert(all.end(), pend.begin(), pend.end());
    size_t n = 0;
    while (n < all.size() && all[n].seq < lo) n++;
    CK(T03, ev == (n > 0), "eviction query said %d, %zu frames were removed", ev, n);
    auto hit = [&](const Fr& q) { return off < q.off + sizeof(a0_transport_frame_hdr_t) + q.size && q.off < end; };
    for (size_t i = n; i < all.size(); i++) CK(T03, !hit(all[i]), "the new frame %zu..%zu overlaps the live frame %lu at %zu of size %zu", off, end, (unsigned long)all[i].seq, all[i].off, all[i].size);
    if (n) CK(T02, hit(all[n - 1]), "frame %lu was removed although the new frame %zu..%zu did not need its space", (unsigned long)all[n - 1].seq, off, end);
    m.commits += n;
    size_t gone = n < m.live.size() ? n : m.live.size();
    m.live.erase(m.live.begin(), m.live.begin() + gone);
    pend.erase(pend.begin(), pend.begin() + (n - gone));
    for (size_t k = 0; k < size; k = step_of(size, k + 1)) p->data[k] = byte_of(f.seq, k);
    return f;
  }
  void commit(a0_transport_locked_t lk, std::vector<Fr>& pend, uint64_t total) {
    a0_err_t e = a0_transport_commit(lk);
    CK(T02, !e, "commit failed (%d/%d)", e, sys(e));
    m.live.insert(m.live.end(), pend.begin(), pend.end());
    m.high += total;
    m.commits++;
  }
  void exec(Op o) {
    beat();
    switch (o.k) {
      case 'W': {
        a0_transport_locked_t lk = lock(&w);
        std::vector<Fr> p;
        Fr f = alloc(lk, o.a, p);
        p.push_back(f);
        commit(lk, p, 1);
        unlock(lk);
        break;
      }
      case 'D': {
        a0_transport_locked_t lk = lock(&w);
        std::vector<Fr> p;
        p.push_back(alloc(lk, o.a, p));
        Model before = m;
        Fr f;
        {
          uint64_t h = m.high;
          // the second one continues the numbering even if the first had to go
          size_t had = p.size();
          std::vector<Fr> q = p;
          f = alloc2(lk, o.b, q, h + had);
          p = q;
        }
        p.push_back(f);
        commit(lk, p, 2);
        unlock(lk);
        break;
      }
      case 'A': {
        a0_transport_locked_t lk = lock(&w);
        std::vector<Fr> p;
        alloc(lk, o.a, p);
        unlock(lk);
        break;
      }
      case 'L': {
        a0_transport_locked_t lk = lock(&w);
        bool ev = false;
        a0_transport_frame_t* p = nullptr;
        a0_err_t e = a0_transport_alloc_evicts(lk, o.a, &ev), e2 = a0_transport_alloc(lk, o.a, &p);
        CK(T03, e == A0_ERR_FRAME_LARGE && e2 == A0_ERR_FRAME_LARGE, "a request for %zu, which cannot fit, returned %d (query %d)", o.a, e2, e);
        unlock(lk);
        break;
      }
      case 'C': {
        a0_transport_locked_t lk = lock(&w);
        a0_err_t e = a0_transport_clear(lk);
        CK(T08 | T02, !e, "clear failed (%d)", e);
        size_t used = 0;
        a0_transport_used_space(lk, &used);
        CK(T08, used == empty_used, "after clear the used space is %zu, of an empty transport %zu", used, empty_used);
        unlock(lk);
        m.live.clear();
        m.commits++;
        break;
      }
      case 'Z': {
        a0_transport_locked_t lk = lock(&w);
        size_t used = 0;
        a0_transport_used_space(lk, &used);
        a0_err_t e = a0_transport_resize(lk, o.a);
        if (o.a >= used) {
          CK(T08, !e, "resize to %zu with %zu used failed (%d)", o.a, used, e);
          m.asize = o.a;
        } else {
          CK(T08, e, "resize to %zu with %zu used was not refused", o.a, used);
        }
        unlock(lk);
        break;
      }
      case 'H': case 'T': case 'N': case 'P': case 'J': {
        a0_transport_locked_t lk = lock(&r);
        a0_err_t e = A0_OK;
        uint64_t low = m.live.empty() ? 0 : m.live[0].seq, to = m.rseq;
        bool ok = true;
        if (o.k == 'H') e = a0_transport_jump_head(lk), ok = !m.live.empty(), to = low;
        if (o.k == 'T') e = a0_transport_jump_tail(lk), ok = !m.live.empty(), to = m.high;
        if (o.k == 'N') {
          e = a0_transport_step_next(lk);
          ok = !m.live.empty() && m.rseq < m.high;
          to = m.rseq < low ? low : m.rseq + 1;
        }
        if (o.k == 'P') e = a0_transport_step_prev(lk), ok = !m.live.empty() && m.rseq > low, to = m.rseq - 1;
        if (o.k == 'J') e = a0_transport_jump(lk, m.live[o.a].off), to = m.live[o.a].seq;
        CK(T04, ok ? !e : e == A0_ERR_RANGE, "reader at %lu of live %lu..%lu: '%s' returned %d", (unsigned long)m.rseq, (unsigned long)low, (unsigned long)m.high, str(o).c_str(), e);
        if (ok) m.rseq = to;
        unlock(lk);
        break;
      }
      case 'U': {
        a0_transport_locked_t lk = lock(&w);
        unlock(lk);
        break;
      }
    }
  }
  // as alloc, but the expected sequence number counts pending frames that were removed again
  Fr alloc2(a0_transport_locked_t lk, size_t size, std::vector<Fr>& pend, uint64_t last) {
    size_t had = pend.size();
    uint64_t save = m.high;
    m.high = last - had;
    Fr f;
    try {
      f = alloc(lk, size, pend);
    } catch (...) {
      m.high = save;
      throw;
    }
    m.high = save;
    return f;
  }
  std::string key() {
    std::string s = fmt("%zu %d|", m.asize, (int)(m.commits & 1));
    a0_transport_locked_t lk = lock(&v);
    size_t used = 0;
    a0_transport_used_space(lk, &used);
    unlock(lk);
    s += fmt("%zu|", used);
    for (auto& f : m.live) s += fmt("%zu,%zu;", f.off, f.size);
    if (m.live.empty()) s += m.high ? "e" : "n";
    if (use_reader) s += fmt("|%d", m.rseq == 0 ? -2 : m.has(m.rseq) ? (int)(m.rseq - m.live[0].seq) : -1);
    return s;
  }
};

struct Saved {
  std::vector<uint8_t> arena;
  a0_transport_t w, r, v;
  Model m;
  int parent;
  Op op;
};
inline Saved save(Sys& s, int parent, Op op) {
  Saved z;
  z.arena.assign(s.ar.data, s.ar.data + s.ar.size);
  z.w = s.w;
  z.r = s.r;
  z.v = s.v;
  z.m = s.m;
  z.parent = parent;
  z.op = op;
  return z;
}
inline void load(Sys& s, const Saved& z) {
  memcpy(s.ar.data, z.arena.data(), z.arena.size());
  s.w = z.w;
  s.r = z.r;
  s.v = z.v;
  s.m = z.m;
}

struct Space {
  std::vector<Saved> st;
  std::string path(int i) const {
    std::vector<std::string> v;
    for (; i >= 0 && st[i].parent >= 0; i = st[i].parent) v.push_back(str(st[i].op));
    std::string s;
    for (size_t k = v.size(); k-- > 0;) s += v[k] + "; ";
    return s;
  }
  std::vector<Op> ops(int i) const {
    std::vector<Op> v;
    for (; i >= 0 && st[i].parent >= 0; i = st[i].parent) v.insert(v.begin(), st[i].op);
    return v;
  }
};

struct Alpha {
  size_t asize;
  std::vector<size_t> sizes;
  std::vector<std::pair<size_t, size_t>> doubles;
  bool abandon = true, clear = true, reader = true, too_large = true;
  std::vector<size_t> resize;  // absolute; plus around the used space
  bool resize_used = false;
  a0_arena_mode_t mode = A0_ARENA_MODE_SHARED;
};
inline std::vector<Op> enabled(Sys& s, const Alpha& al) {
  std::vector<Op> o;
  for (size_t z : al.sizes) {
    if (!s.fits(z)) {
      if (al.too_large) o.push_back({'L', z});
      continue;
    }
    o.push_back({'W', z});
    if (al.abandon) o.push_back({'A', z});
  }
  for (auto& d : al.doubles)
    if (s.fits(d.first) && s.fits(d.second)) o.push_back({'D', d.first, d.second});
  if (al.too_large)
    for (size_t z : {s.m.asize - s.empty_used - sizeof(a0_transport_frame_hdr_t) + 1, s.m.asize, ~(size_t)0, ~(size_t)0 - 39, ~(size_t)0 - 40, ~(size_t)0 - 200, (size_t)1 << 63})
      if (!s.fits(z)) o.push_back({'L', z});
  if (al.clear) o.push_back({'C'});
  std::vector<size_t> rs = al.resize;
  if (al.resize_used) {
    a0_transport_locked_t lk = s.lock(&s.v);
    size_t used = 0;
    a0_transport_used_space(lk, &used);
    s.unlock(lk);
    for (size_t z : {used, used - 1, used + 16, used + 40, used + 48, used + 49}) rs.push_back(z);
  }
  for (size_t z : rs)
    if (z <= s.ar.size && z != s.m.asize) o.push_back({'Z', z});
  if (al.reader) {
    for (char c : {'H', 'T', 'N', 'P'}) o.push_back({c});
    for (size_t i = 0; i < s.m.live.size(); i++) o.push_back({'J', i});
  }
  return o;
}

// All states reachable with the alphabet, each transition executed on the real code and compared with the model.
inline Space bfs(Run& run, Arena& ar, Sys& s, const Alpha& al, unsigned group, size_t max_states, bool validate, std::function<void(Sys&, int)> each = nullptr) {
  Space sp;
  std::unordered_set<uint64_t> seen;
  memset(ar.data, 0, ar.size);
  s.m = Model();
  s.use_reader = al.reader;
  trace_set("open");
  s.open(al.mode);
  s.check(group);
  auto h = [&] {
    std::string k = s.key();
    return hash(k.data(), k.size());
  };
  seen.insert(h());
  sp.st.push_back(save(s, -1, {'U'}));
  bool full = false;
  for (size_t i = 0; i < sp.st.size(); i++) {
    load(s, sp.st[i]);
    if (each) {
      trace_set(sp.path(i));
      each(s, (int)i);
      load(s, sp.st[i]);
    }
    std::vector<Op> ops = enabled(s, al);
    trace_set(sp.path(i));
    uint32_t tl = trace_len();
    for (Op o : ops) {
      load(s, sp.st[i]);
      trace_cut(tl);
      trace_add("%s", str(o).c_str());
      run.transitions++;
      run.execs++;
      try {
        s.exec(o);
        s.check(o.k == 'Z' || o.k == 'C' ? group | T08 : o.k == 'L' ? group | T03 : group);
      } catch (Skip&) {
        continue;
      }
      uint64_t k = h();
      if (seen.count(k)) continue;
      if (sp.st.size() >= max_states) {
        full = true;
        continue;
      }
      seen.insert(k);
      sp.st.push_back(save(s, (int)i, o));
    }
  }
  run.states += sp.st.size();
  for (auto k : seen) run.distinct.insert(k);
  if (full) run.bounds += fmt("first %zu states in breadth-first order; ", max_states);
  else run.bounds += "all reachable states; ";
  if (validate) {
    // the stored states are reached by running their history from a fresh arena
    for (size_t i = 0; i < sp.st.size(); i++) {
      memset(ar.data, 0, ar.size);
      s.m = Model();
      trace_set("replayed: " + sp.path(i));
      bool skip = false;
      try {
        s.open(al.mode);
        for (Op o : sp.ops(i)) s.exec(o);
        s.check(group);
      } catch (Skip&) {
        skip = true;
      }
      if (skip) continue;
      bool same = s.m.high == sp.st[i].m.high && s.m.live.size() == sp.st[i].m.live.size() && s.m.rseq == sp.st[i].m.rseq;
      for (size_t k = 0; same && k < s.m.live.size(); k++) same = s.m.live[k].off == sp.st[i].m.live[k].off && s.m.live[k].seq == sp.st[i].m.live[k].seq;
      CK(T02, same, "the same history leads to two different layouts");
      run.validated++;
    }
  }
  for (size_t i : {sp.st.size() / 3, sp.st.size() - 1}) run.sample(sp.path((int)i));
  return sp;
}

// All operation sequences of exactly the given depth, nothing merged.
inline void deep(Run& run, Arena& ar, Sys& s, const Alpha& al, unsigned group, int depth) {
  memset(ar.data, 0, ar.size);
  s.m = Model();
  s.use_reader = al.reader;
  trace_set("");
  s.open(al.mode);
  std::function<void(int)> go = [&](int d) {
    if (!d) {
      run.execs++;
      std::string k = s.key() + fmt("%lu", (unsigned long)s.m.high);
      run.distinct.insert(hash(k.data(), k.size()));
      return;
    }
    Saved z = save(s, 0, {'U'});
    uint32_t tl = trace_len();
    for (Op o : enabled(s, al)) {
      load(s, z);
      trace_cut(tl);
      trace_add("%s; ", str(o).c_str());
      run.transitions++;
      try {
        s.exec(o);
        s.check(o.k == 'Z' || o.k == 'C' ? group | T08 : group);
      } catch (Skip&) {
        continue;
      }
      go(d - 1);
    }
    load(s, z);
    trace_cut(tl);
  };
  go(depth);
  run.bounds += fmt("all sequences of %d operations; ", depth);
}
}  // namespace tmod
