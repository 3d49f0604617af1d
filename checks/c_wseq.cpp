// Writers and middleware: every way of composing them, every packet size, every sequence of writes.
#include "seq.h"

#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/arena.hpp>
#include <a0/err.h>
#include <a0/middleware.h>
#include <a0/middleware.hpp>
#include <a0/packet.h>
#include <a0/packet.hpp>
#include <a0/time.h>
#include <a0/transport.h>
#include <a0/writer.h>
#include <a0/writer.hpp>

#include <algorithm>
#include <memory>
#include <nlohmann/json.hpp>
using namespace seq;

typedef std::vector<std::pair<std::string, std::string>> Pairs;
struct Got {
  std::string id, payload;
  Pairs hdr;
  int count(const char* k) const {
    int n = 0;
    for (auto& h : hdr) n += h.first == k;
    return n;
  }
  std::string get(const char* k) const {
    for (auto& h : hdr)
      if (h.first == k) return h.second;
    return "";
  }
  bool operator==(const Got& o) const { return id == o.id && payload == o.payload && hdr == o.hdr; }
};
struct Topic {
  std::unique_ptr<uint8_t[]> mem;
  a0_arena_t ar;
  a0_transport_t t;  // the judge's own handle
  Topic(size_t size) : mem(new uint8_t[size]()) {
    ar.buf.data = mem.get();
    ar.buf.size = size;
    ar.mode = A0_ARENA_MODE_SHARED;
    if (a0_transport_init(&t, ar)) throw Skip{};
  }
  bool lock_free() {
    a0_transport_locked_t lk;
    a0_err_t e = a0_transport_lock(&t, &lk);
    if (e) return false;
    a0_transport_unlock(lk);
    return true;
  }
  void clear() {
    a0_transport_locked_t lk;
    if (a0_transport_lock(&t, &lk)) throw Skip{};
    if (a0_transport_clear(lk)) throw Skip{};
    a0_transport_unlock(lk);
  }
  // all packets, oldest first
  std::vector<Got> dump() {
    std::vector<Got> v;
    a0_transport_locked_t lk;
    if (a0_transport_lock(&t, &lk)) fail("the topic lock is still held");
    bool empty = true;
    a0_transport_empty(lk, &empty);
    if (!empty) {
      a0_transport_jump_head(lk);
      while (1) {
        a0_transport_frame_t* f;
        if (a0_transport_frame(lk, &f)) throw Skip{};
        a0_flat_packet_t fp = {{f->data, f->hdr.data_size}};
        Got g;
        a0_uuid_t* id;
        a0_flat_packet_id(fp, &id);
        g.id = std::string(*id, 36);
        a0_buf_t pl;
        a0_flat_packet_payload(fp, &pl);
        g.payload.assign((char*)pl.data, pl.size);
        a0_packet_stats_t st;
        a0_flat_packet_stats(fp, &st);
        for (size_t i = 0; i < st.num_hdrs; i++) {
          a0_packet_header_t h;
          a0_flat_packet_header(fp, i, &h);
          g.hdr.push_back({h.key, h.val});
        }
        v.push_back(g);
        bool next = false;
        a0_transport_has_next(lk, &next);
        if (!next) break;
        a0_transport_step_next(lk);
      }
    }
    a0_transport_unlock(lk);
    return v;
  }
};
static a0_packet_t packet(int n, const std::string& p, a0_packet_header_t* h = nullptr) {
  a0_packet_t k;
  memset(&k, 0, sizeof k);
  snprintf((char*)k.id, sizeof k.id, "%08x-0000-4000-8000-%012x", n, n);
  if (h) {
    k.headers_block.headers = h;
    k.headers_block.size = 1;
  }
  k.payload.data = (uint8_t*)p.data();
  k.payload.size = p.size();
  return k;
}

// ---- W01: compositions ---------------------------------------------------------------
struct Leaf {
  int id, kind;  // kind: bit 0 has an unlocked step, bit 1 has a locked step
  int fail_phase = -1;
  int closed = 0;
};
static std::vector<std::pair<int, int>>* wlog;
static Topic* cur;
static std::vector<std::unique_ptr<Leaf>>* leaves;
static a0_err_t leaf_close(void* u) {
  ((Leaf*)u)->closed++;
  return A0_OK;
}
static a0_err_t leaf_step(Leaf* l, int phase, a0_packet_t* pkt, a0_middleware_chain_t chain) {
  wlog->push_back({l->id, phase});
  std::string k = fmt("leaf%d.%d", l->id, phase), v = fmt("value%d", l->id);
  a0_packet_header_t h = {k.c_str(), v.c_str()};
  a0_packet_headers_block_t prev = pkt->headers_block;
  pkt->headers_block.headers = &h;
  pkt->headers_block.size = 1;
  pkt->headers_block.next_block = &prev;
  return a0_middleware_chain(chain, pkt);
}
static a0_err_t leaf_process(void* u, a0_packet_t* pkt, a0_middleware_chain_t chain) {
  Leaf* l = (Leaf*)u;
  if (l->fail_phase == 0) return A0_ERR_INVALID_ARG;
  return leaf_step(l, 0, pkt, chain);
}
static a0_err_t leaf_locked(void* u, a0_transport_locked_t tlk, a0_packet_t* pkt, a0_middleware_chain_t chain) {
  Leaf* l = (Leaf*)u;
  SQ_CHECK(!cur->lock_free(), "a step promised to run under the topic lock runs without it");
  uint64_t hi;
  SQ_CHECK(!a0_transport_seq_high(tlk, &hi), "the locked topic handed to a step is unusable");
  if (l->fail_phase == 1) {
    a0_transport_unlock(tlk);
    return A0_ERR_INVALID_ARG;
  }
  return leaf_step(l, 1, pkt, chain);
}
static a0_middleware_t leaf(int kind) {
  leaves->emplace_back(new Leaf);
  Leaf* l = leaves->back().get();
  l->id = leaves->size() - 1;
  l->kind = kind;
  a0_middleware_t m;
  m.user_data = l;
  m.close = leaf_close;
  m.process = kind & 1 ? leaf_process : nullptr;
  m.process_locked = kind & 2 ? leaf_locked : nullptr;
  return m;
}
static a0_middleware_t comp(a0_middleware_t a, a0_middleware_t b) {
  a0_middleware_t o;
  SQ_CHECK(!a0_middleware_compose(a, b, &o), "composing failed");
  return o;
}
// shape: leaf kinds in order of processing and how they are bracketed
struct Mid {
  std::vector<int> kinds;
  int shape;  // 0 flat or left, 1 right
};
static std::string show(const Mid& m) {
  static const char* nm = "NULB";
  std::string s;
  if (m.kinds.size() == 1) return std::string(1, nm[m.kinds[0]]);
  if (m.kinds.size() == 2) return fmt("(%c%c)", nm[m.kinds[0]], nm[m.kinds[1]]);
  return m.shape ? fmt("(%c(%c%c))", nm[m.kinds[0]], nm[m.kinds[1]], nm[m.kinds[2]]) : fmt("((%c%c)%c)", nm[m.kinds[0]], nm[m.kinds[1]], nm[m.kinds[2]]);
}
static a0_middleware_t make(const Mid& m, std::vector<int>& order) {
  std::vector<a0_middleware_t> v;
  for (int k : m.kinds) {
    v.push_back(leaf(k));
    order.push_back(leaves->size() - 1);
  }
  if (v.size() == 1) return v[0];
  if (v.size() == 2) return comp(v[0], v[1]);
  return m.shape ? comp(v[0], comp(v[1], v[2])) : comp(comp(v[0], v[1]), v[2]);
}
struct Step {
  char how;  // P push, W wrap, I push on the innermost writer
  Mid m;
};
static void composition(Run& r, const std::vector<Step>& steps, int fail_leaf, int fail_phase) {
  beat();
  r.execs++;
  std::string tr = "writer";
  for (auto& s : steps) tr += fmt("; %s %s", s.how == 'P' ? "push" : s.how == 'W' ? "wrap" : "push innermost", show(s.m).c_str());
  if (fail_leaf >= 0) tr += fmt("; piece %d fails %s", fail_leaf, fail_phase ? "under the lock" : "before the lock");
  trace_set(tr);
  Topic T(4096);
  cur = &T;
  std::vector<std::unique_ptr<Leaf>> ls;
  leaves = &ls;
  std::vector<std::pair<int, int>> lg;
  wlog = &lg;
  a0_writer_t w[5];
  int top = 0;
  SQ_CHECK(!a0_writer_init(&w[0], T.ar), "writer init failed");
  std::vector<std::vector<int>> order(1);  // per writer: its own pieces in order
  for (auto& s : steps) {
    std::vector<int> o;
    a0_middleware_t m = make(s.m, o);
    if (s.how == 'W') {
      SQ_CHECK(!a0_writer_wrap(&w[top], m, &w[top + 1]), "wrap failed");
      top++;
      order.push_back(o);
    } else {
      int at = s.how == 'P' ? top : 0;
      SQ_CHECK(!a0_writer_push(&w[at], m), "push failed");
      order[at].insert(order[at].begin(), o.begin(), o.end());
    }
  }
  if (fail_leaf >= 0) ls[fail_leaf]->fail_phase = fail_phase;
  size_t committed = 0;
  // through every writer of the stack, twice through the outermost
  for (int via = 0; via <= top + 1; via++) {
    int at = via > top ? top : via;
    std::vector<int> want;
    for (int i = at; i >= 0; i--) want.insert(want.end(), order[i].begin(), order[i].end());
    std::vector<std::pair<int, int>> wl;
    bool fails = false;
    for (int ph = 0; ph < 2 && !fails; ph++)
      for (int l : want)
        if (ls[l]->kind >> ph & 1) {
          if (ls[l]->fail_phase == ph) {
            fails = true;
            break;
          }
          wl.push_back({l, ph});
        }
    lg.clear();
    std::string body = fmt("body%d", via);
    a0_packet_header_t h0 = {"user", "header"};
    a0_err_t e = a0_writer_write(&w[at], packet(via + 1, body, &h0));
    SQ_CHECK(T.lock_free(), "the topic lock is held after a write");
    SQ_CHECK(lg == wl, "pieces ran in the wrong order or number (%zu runs, should be %zu)", lg.size(), wl.size());
    auto d = T.dump();
    if (fails) {
      SQ_CHECK(e == A0_ERR_INVALID_ARG, "the error of a failing piece is not reported (%d)", e);
      SQ_CHECK(d.size() == committed, "a failed write adds a packet");
    } else {
      SQ_CHECK(!e, "write failed with %d", e);
      SQ_CHECK(d.size() == ++committed, "%zu packets in the topic, should be %zu", d.size(), committed);
      Got& g = d.back();
      SQ_CHECK(g.payload == body && g.id == packet(via + 1, body).id, "the packet is damaged");
      Pairs p = {{"user", "header"}};
      for (auto& x : wl) p.push_back({fmt("leaf%d.%d", x.first, x.second), fmt("value%d", x.first)});
      std::sort(p.begin(), p.end());
      std::sort(g.hdr.begin(), g.hdr.end());
      SQ_CHECK(g.hdr == p, "the packet does not carry the effect of all pieces");
    }
    r.transitions++;
  }
  for (int i = top; i >= 0; i--) SQ_CHECK(!a0_writer_close(&w[i]), "close failed");
  for (auto& l : ls) SQ_CHECK(l->closed == 1, "piece %d is closed %d times", l->id, l->closed);
  r.distinct.insert(hash(tr.data(), tr.size()));
}
static std::vector<Mid> mids(int maxleaves, bool all_kinds) {
  std::vector<Mid> v;
  std::vector<int> ks = all_kinds ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{1, 2, 3};
  for (int a : ks) {
    v.push_back({{a}, 0});
    if (maxleaves >= 2)
      for (int b : ks) {
        v.push_back({{a, b}, 0});
        if (maxleaves >= 3)
          for (int c : ks)
            for (int s = 0; s < 2; s++) v.push_back({{a, b, c}, s});
      }
  }
  return v;
}
static void compositions(Run& r, int nsteps, const std::vector<Mid>& ms, bool faults) {
  r.bounds = fmt("all sequences of up to %d of push, wrap, push on the innermost writer, each with one of %zu pieces or compositions%s", nsteps, ms.size(), faults ? "; each piece failing in each of its phases" : "");
  std::vector<Step> st;
  std::function<void(int)> rec = [&](int left) {
    if (!faults) composition(r, st, -1, 0);
    else {
      int n = 0;
      for (auto& s : st)
        for (int k : s.m.kinds) {
          for (int ph = 0; ph < 2; ph++)
            if (k >> ph & 1) {
              composition(r, st, n, ph);
              r.faults++;
            }
          n++;
        }
    }
    if (!left) return;
    for (char how : {'P', 'W', 'I'})
      for (auto& m : ms) {
        st.push_back({how, m});
        rec(left - 1);
        st.pop_back();
      }
  };
  rec(nsteps);
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}

// ---- topic operations ---------------------------------------------------------------
static void check_std(const Got& g) {
  for (const char* k : {"a0_time_mono", "a0_time_wall", "a0_writer_id", "a0_writer_seq", "a0_transport_seq"}) SQ_CHECK(g.count(k) == 1, "header %s occurs %d times", k, g.count(k));
  a0_time_mono_t m;
  a0_time_wall_t w;
  SQ_CHECK(g.get("a0_time_mono").size() == 19 && !a0_time_mono_parse(g.get("a0_time_mono").c_str(), &m), "monotonic time header is malformed");
  SQ_CHECK(g.get("a0_time_wall").size() == 35 && !a0_time_wall_parse(g.get("a0_time_wall").c_str(), &w), "wall time header is malformed");
  SQ_CHECK(g.get("a0_writer_id").size() == 36, "writer id header is malformed");
}
// W02: writers w0 w1 (own standard headers), w2 wrapping w0, sequences of writes, clears and evictions
static void std_sequences(Run& r, int depth, size_t size) {
  r.bounds = fmt("all sequences of up to %d of write through 3 writers and clear; topic of %zu bytes", depth, size);
  std::vector<int> s;
  for (int d = 1; d <= depth; d++) {
    s.assign(d, 0);
    while (1) {
      beat();
      r.execs++;
      Topic T(size);
      a0_writer_t w[3];
      for (int i = 0; i < 2; i++) {
        SQ_CHECK(!a0_writer_init(&w[i], T.ar), "writer init failed");
        SQ_CHECK(!a0_writer_push(&w[i], a0_add_standard_headers()), "push failed");
      }
      SQ_CHECK(!a0_writer_wrap(&w[1], a0_write_if_empty(nullptr), &w[2]), "wrap failed");
      uint64_t committed = 0, nw[2] = {0, 0};
      std::string ids[2], mono, first_tseq;
      trace_set("");
      for (int i = 0; i < d; i++) {
        if (s[i] == 3) {
          trace_add("clear; ");
          T.clear();
          continue;
        }
        trace_add("write via %d; ", s[i]);
        auto before = T.dump();
        SQ_CHECK(!a0_writer_write(&w[s[i]], packet(i, "x")), "write failed");
        auto after = T.dump();
        int o = s[i] == 0 ? 0 : 1;
        if (s[i] == 2 && !before.empty()) {
          SQ_CHECK(after == before, "a write-if-empty changed a topic that is not empty");
          nw[1] = ~0ull;  // whether it counts is not specified
          continue;
        }
        SQ_CHECK(!after.empty(), "nothing was written");
        Got& g = after.back();
        check_std(g);
        if (ids[o].empty()) ids[o] = g.get("a0_writer_id");
        SQ_CHECK(g.get("a0_writer_id") == ids[o], "the writer id changed");
        SQ_CHECK(ids[0] != ids[1], "two writers have the same id");
        uint64_t ts = strtoull(g.get("a0_transport_seq").c_str(), nullptr, 10), ws = strtoull(g.get("a0_writer_seq").c_str(), nullptr, 10);
        SQ_CHECK(ts == committed, "transport sequence is %lu after %lu packets", ts, committed);
        if (nw[o] != ~0ull) SQ_CHECK(ws == nw[o], "writer sequence is %lu after %lu packets of this writer", ws, nw[o]);
        committed++;
        if (nw[o] != ~0ull) nw[o]++;
        SQ_CHECK(g.get("a0_time_mono") >= mono, "monotonic time decreases along the topic");
        mono = g.get("a0_time_mono");
        r.transitions++;
      }
      for (int i = 2; i >= 0; i--) a0_writer_close(&w[i]);
      r.distinct.insert(hash(s.data(), s.size() * sizeof(int)));
      int i = d - 1;
      while (i >= 0 && ++s[i] == 4) s[i--] = 0;
      if (i < 0) break;
    }
  }
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
// W03
static void if_empty_sequences(Run& r, int depth) {
  r.bounds = fmt("all sequences of up to %d of: write-if-empty with and without result, composed with other middleware in 3 ways, plain write, clear", depth);
  std::vector<int> s;
  for (int d = 1; d <= depth; d++) {
    s.assign(d, 0);
    while (1) {
      beat();
      r.execs++;
      Topic T(2048);
      bool wr[5];
      a0_writer_t w[5];
      for (int i = 0; i < 5; i++) SQ_CHECK(!a0_writer_init(&w[i], T.ar), "writer init failed");
      a0_writer_push(&w[0], a0_write_if_empty(&wr[0]));
      a0_writer_push(&w[1], a0_write_if_empty(nullptr));
      a0_writer_push(&w[2], a0_add_standard_headers());
      a0_writer_push(&w[2], a0_write_if_empty(&wr[2]));
      a0_writer_push(&w[3], a0_write_if_empty(&wr[3]));
      a0_writer_push(&w[3], a0_add_standard_headers());
      std::vector<std::string> live;
      trace_set("");
      for (int i = 0; i < d; i++) {
        if (s[i] == 5) {
          trace_add("clear; ");
          T.clear();
          live.clear();
        } else {
          trace_add("write via %d; ", s[i]);
          bool cond = s[i] < 4;
          wr[s[i]] = live.empty() ? false : true;  // the wrong answer
          SQ_CHECK(!a0_writer_write(&w[s[i]], packet(i, fmt("p%d", i))), "write failed");
          if (s[i] == 0 || s[i] == 2 || s[i] == 3) SQ_CHECK(wr[s[i]] == live.empty(), "the caller is told %s, there were %zu packets", wr[s[i]] ? "written" : "not written", live.size());
          if (!cond || live.empty()) live.push_back(fmt("p%d", i));
        }
        auto g = T.dump();
        SQ_CHECK(g.size() == live.size(), "%zu packets in the topic, should be %zu", g.size(), live.size());
        for (size_t k = 0; k < g.size(); k++) SQ_CHECK(g[k].payload == live[k], "packet %zu is %s", k, g[k].payload.c_str());
        SQ_CHECK(T.lock_free(), "the topic lock is held after a write");
        r.transitions++;
      }
      for (int i = 0; i < 5; i++) a0_writer_close(&w[i]);
      r.distinct.insert(hash(s.data(), s.size() * sizeof(int)));
      int i = d - 1;
      while (i >= 0 && ++s[i] == 6) s[i--] = 0;
      if (i < 0) break;
    }
  }
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
// W04
static const char* docs[] = {"{}", "{\"a\":1}", "{\"a\":2}", "{\"a\":null}", "{\"b\":{\"c\":1}}", "{\"b\":{\"c\":null,\"d\":\"x\"}}", "{\"a\":{\"z\":[1,2]}}", "3", "[1]", "\"s\"", "{\"a\":1,\"b\":{\"c\":3},\"e\":true}"};
static const char* bad[] = {"", "{", "{\"a\":}", "nope", "{\"a\":1}}", "[1,2", "\"abc", "{\"a\" 1}"};
enum { NDOC = sizeof docs / sizeof *docs, NBAD = sizeof bad / sizeof *bad };
static void patch_sequences(Run& r, int depth, int variant) {
  r.bounds = fmt("every initial value of %d, then every sequence of up to %d patches of %d well-formed and %d malformed ones", NDOC, depth, NDOC, NBAD);
  std::vector<int> s;
  for (int d = 1; d <= depth; d++)
    for (int init = 0; init < NDOC; init++) {
      s.assign(d, 0);
      while (1) {
        beat();
        r.execs++;
        Topic T(4096);
        a0_writer_t raw, w;
        a0_writer_init(&raw, T.ar);
        a0_writer_init(&w, T.ar);
        if (variant == 0) a0_writer_push(&w, a0_json_mergepatch());
        if (variant == 1) {
          a0_writer_push(&w, a0_add_standard_headers());
          a0_writer_push(&w, a0_json_mergepatch());
        }
        if (variant == 2) {
          a0_writer_push(&w, a0_json_mergepatch());
          a0_writer_push(&w, a0_add_standard_headers());
        }
        trace_set(fmt("value %s; ", docs[init]));
        SQ_CHECK(!a0_writer_write(&raw, packet(0, docs[init])), "write failed");
        nlohmann::json v = nlohmann::json::parse(docs[init]);
        size_t n = 1;
        for (int i = 0; i < d; i++) {
          bool ok = s[i] < NDOC;
          std::string p = ok ? docs[s[i]] : bad[s[i] - NDOC];
          trace_add("patch %s; ", p.c_str());
          auto before = T.dump();
          a0_err_t e = a0_writer_write(&w, packet(i + 1, p));
          SQ_CHECK(T.lock_free(), "the topic lock is held after a write");
          auto g = T.dump();
          if (!ok) {
            SQ_CHECK(e, "a malformed patch is accepted");
            SQ_CHECK(g == before, "a refused patch changed the topic");
            continue;
          }
          SQ_CHECK(!e, "a patch is refused with %d", e);
          SQ_CHECK(g.size() == ++n, "%zu packets in the topic, should be %zu", g.size(), n);
          v.merge_patch(nlohmann::json::parse(p));
          nlohmann::json now = nlohmann::json::parse(g.back().payload, nullptr, false);
          SQ_CHECK(!now.is_discarded() && now == v, "the value is %s, should be %s", g.back().payload.c_str(), v.dump().c_str());
          SQ_CHECK(g.back().id == packet(i + 1, p).id, "the packet has another id");
          if (variant) check_std(g.back());
          for (size_t k = 0; k + 1 < n; k++) SQ_CHECK(g[k] == before[k], "an older packet changed");
          r.transitions++;
        }
        a0_writer_close(&w);
        a0_writer_close(&raw);
        std::string o = v.dump();
        r.distinct.insert(mix(hash(s.data(), s.size() * sizeof(int)), init));
        r.outcomes.insert(hash(o.data(), o.size()));
        int i = d - 1;
        while (i >= 0 && ++s[i] == NDOC + NBAD) s[i--] = 0;
        if (i < 0) break;
      }
    }
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
// W05
static void sizes(Run& r, size_t asize, int step) {
  r.bounds = fmt("topic of %zu bytes with 0..3 packets of 3 sizes, then a packet of every %ssize from 0 to beyond the topic, through 6 kinds of writer", asize, step > 1 ? "third " : "");
  for (int kind = 0; kind < 6; kind++)
    for (int pre = 0; pre < 4; pre++)
      for (size_t presize : {0, 40, 120})
        for (size_t n = 0; n <= asize + 300; n += step) {
          if (!pre && presize) continue;
          if (kind == 4 && pre) continue;
          beat();
          r.execs++;
          Topic T(asize);
          a0_writer_t raw, w, ww;
          bool wrapped = false;
          a0_writer_init(&raw, T.ar);
          a0_writer_init(&w, T.ar);
          if (kind == 1) a0_writer_push(&w, a0_add_standard_headers());
          if (kind == 2) a0_writer_push(&w, a0_add_transport_seq_header());
          if (kind == 3) {
            wrapped = true;
            a0_writer_wrap(&w, a0_add_standard_headers(), &ww);
          }
          if (kind == 4) a0_writer_push(&w, a0_write_if_empty(nullptr));
          if (kind == 5) a0_writer_push(&w, a0_json_mergepatch());
          trace_set(fmt("writer kind %d, %d packets of %zu bytes, then one of %zu bytes", kind, pre, presize, n));
          std::string p0 = "\"" + std::string(presize, 'p') + "\"";
          for (int i = 0; i < pre; i++)
            if (a0_writer_write(&raw, packet(i, p0))) throw Skip{};
          auto before = T.dump();
          std::string body(n, 'q');
          if (n >= 2) body[0] = body[n - 1] = '"';
          else if (n == 1) body = "7";
          a0_err_t e = a0_writer_write(wrapped ? &ww : &w, packet(77, body));
          SQ_CHECK(T.lock_free(), "the topic lock is held after a write that returned %d", e);
          auto after = T.dump();
          if (n >= asize) SQ_CHECK(e, "a packet larger than the topic was accepted");
          if (n <= 200 && n && asize >= 1024) SQ_CHECK(!e, "a packet that fits was refused with %d", e);
          if (e) {
            SQ_CHECK(after == before, "a failed write changed the topic: %zu packets, were %zu", after.size(), before.size());
            r.faults++;
          } else SQ_CHECK(!after.empty() && after.back().payload == body, "the packet is not in the topic after a successful write");
          // the next proper write
          std::string last = "8";
          SQ_CHECK(!a0_writer_write(&raw, packet(78, last)), "the write after it failed");
          auto fin = T.dump();
          SQ_CHECK(!fin.empty() && fin.back().payload == last, "the write after it is not in the topic");
          if (e) SQ_CHECK(fin.size() <= before.size() + 1, "packets appeared");
          if (wrapped) a0_writer_close(&ww);
          a0_writer_close(&w);
          a0_writer_close(&raw);
          r.transitions++;
          r.distinct.insert(mix(mix(mix(kind, pre), presize), mix(n, (int)e)));
        }
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
static void readonly(Run& r) {
  r.bounds = "read-only topics with 0..2 packets; 4 kinds of writer";
  for (int pre = 0; pre < 3; pre++)
    for (int kind = 0; kind < 4; kind++)
      if (!(kind == 2 && pre)) {  // nothing to write there
        beat();
        r.execs++;
        trace_set(fmt("read-only topic with %d packets, writer kind %d", pre, kind));
        Topic T(1024);
        a0_writer_t raw, w;
        a0_writer_init(&raw, T.ar);
        for (int i = 0; i < pre; i++) a0_writer_write(&raw, packet(i, "1"));
        auto before = T.dump();
        std::string img((char*)T.mem.get(), 1024);
        a0_arena_t ro = T.ar;
        ro.mode = A0_ARENA_MODE_READONLY;
        a0_err_t e = a0_writer_init(&w, ro);
        if (!e) {
          if (kind == 1) a0_writer_push(&w, a0_add_standard_headers());
          if (kind == 2) a0_writer_push(&w, a0_write_if_empty(nullptr));
          if (kind == 3) a0_writer_push(&w, a0_json_mergepatch());
          e = a0_writer_write(&w, packet(9, "2"));
          SQ_CHECK(e, "a write to a read-only topic succeeds");
          a0_writer_close(&w);
        }
        SQ_CHECK(!memcmp(img.data(), T.mem.get(), 1024), "a write to a read-only topic changes it");
        SQ_CHECK(T.dump() == before, "a write to a read-only topic changes it");
        SQ_CHECK(!a0_writer_write(&raw, packet(10, "3")), "the write after it failed");
        a0_writer_close(&raw);
        r.transitions++;
        r.faults++;
        r.distinct.insert(pre * 10 + kind);
      }
  r.states = r.distinct.size();
}
static void cpp(Run& r) {
  r.bounds = "C++ writers: all orders of pushing and wrapping 3 middlewares";
  for (int ord = 0; ord < 6; ord++)
    for (int wrap = 0; wrap < 8; wrap++) {
      beat();
      r.execs++;
      trace_set(fmt("C++ writer, order %d, wraps %d", ord, wrap));
      Topic T(4096);
      a0::Arena ar;
      ar.c = std::shared_ptr<a0_arena_t>(new a0_arena_t(T.ar));
      bool wr = false;
      {
        a0::Writer w(ar);
        int p[3] = {0, 1, 2};
        for (int k = 0; k < ord; k++) std::next_permutation(p, p + 3);
        for (int i = 0; i < 3; i++) {
          a0::Middleware m = p[i] == 0 ? a0::add_time_mono_header() : p[i] == 1 ? a0::write_if_empty(&wr) : a0::add_transport_seq_header();
          if (wrap >> i & 1) w = w.wrap(m);
          else w.push(m);
        }
        w.write("first");
        SQ_CHECK(wr, "not told that the packet was written");
        w.write("second");
        SQ_CHECK(!wr, "told that the packet was written");
      }
      auto g = T.dump();
      SQ_CHECK(g.size() == 1 && g[0].payload == "first" && g[0].hdr.size() == 2 && g[0].count("a0_time_mono") == 1 && g[0].get("a0_transport_seq") == "0", "the topic is wrong after writing");
      r.transitions += 2;
      r.distinct.insert(ord * 10 + wrap);
    }
  r.states = r.distinct.size();
}

void define_scenarios() {
  scenario("W01", "three_steps", [](Run& r) { compositions(r, 3, mids(1, true), false); });
  scenario("W01", "three_steps_composed", [](Run& r) { compositions(r, 3, mids(2, r.thorough), false); });
  scenario("W01", "two_steps", [](Run& r) { compositions(r, 2, mids(3, r.thorough), false); });
  scenario("W01", "deep", [](Run& r) { compositions(r, 1, mids(3, true), false); });
  scenario("W01", "four_steps", [](Run& r) { compositions(r, 4, mids(1, false), false); });
  scenario("W01", "failing", [](Run& r) { compositions(r, 2, mids(2, false), true); });
  scenario("W01", "failing_deep", [](Run& r) { compositions(r, 1, mids(3, false), true); });
  scenario("W05", "failing_middleware", [](Run& r) { compositions(r, 2, mids(2, false), true); });
  scenario("W01", "cpp", cpp);
  scenario("W02", "sequences", [](Run& r) { std_sequences(r, 7, 8192); });
  scenario("W02", "sequences_small", [](Run& r) { std_sequences(r, 7, 1400); });
  scenario("W03", "sequences", [](Run& r) { if_empty_sequences(r, 6); });
  scenario("W04", "patches", [](Run& r) { patch_sequences(r, 3, 0); });
  scenario("W04", "patches_std_inside", [](Run& r) { patch_sequences(r, 2, 1); });
  scenario("W04", "patches_std_outside", [](Run& r) { patch_sequences(r, 2, 2); });
  scenario("W05", "sizes", [](Run& r) { sizes(r, 1024, 1); });
  scenario("W05", "sizes_small", [](Run& r) { sizes(r, 600, 1); });
  scenario("W05", "readonly", readonly);
}
