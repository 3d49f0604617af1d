// Topics without a file system: each opening of a topic file gets its own mapping of the shared object
// that stands for the file, in the simulated process that opens it.
#pragma once
#include "harness.h"

#include <a0/alloc.h>
#include <a0/arena.h>
#include <a0/err.h>
#include <a0/file.h>
#include <a0/packet.h>
#include <a0/transport.h>

#include <cerrno>
#include <map>

namespace sim {
static const int NT = 3, NV = 12;
static mc::Shared file[NT];
static std::string path[NT];
static int nviews[NT], nopen;
static size_t fsize;

static void setup(size_t max) {
  for (auto& f : file) f = mc::make_shared(max, NV);
}
static void reset(size_t size) {
  fsize = size;
  for (int i = 0; i < NT; i++) {
    path[i].clear();
    nviews[i] = 0;
  }
  nopen = 0;
}
static int topic(const char* p) {
  for (int i = 0; i < NT; i++) {
    if (path[i].empty()) path[i] = p;
    if (path[i] == p) return i;
  }
  mc::die("too many topics");
}
// every packet of the i-th topic opened, oldest first (judge's own mapping: the last one)
struct Got {
  uint64_t seq;
  std::string id, payload;
  std::vector<std::pair<std::string, std::string>> hdr;
};
static Got read_packet(a0_packet_t k) {
  mc::Atomic q;
  Got g;
  g.seq = 0;
  g.id = std::string(k.id, strnlen(k.id, 36));
  g.payload.assign((char*)k.payload.data, k.payload.size);
  a0_packet_header_iterator_t it;
  a0_packet_header_t h;
  a0_packet_header_iterator_init(&it, &k);
  while (!a0_packet_header_iterator_next(&it, &h)) g.hdr.push_back({h.key, h.val});
  return g;
}
static a0_err_t keep_alloc(void* u, size_t n, a0_buf_t* out) {
  ((std::string*)u)->assign(n, 0);
  out->data = (uint8_t*)&(*(std::string*)u)[0];
  out->size = n;
  return A0_OK;
}
static Got read_flat(a0_flat_packet_t fp) {
  mc::Atomic q;
  std::string buf;
  a0_alloc_t al = {&buf, keep_alloc, nullptr};
  a0_packet_t k;
  a0_buf_t b;
  MC_CHECK(!a0_packet_deserialize(fp, al, &k, &b), "unreadable packet");
  return read_packet(k);
}
static std::vector<Got> dump(int i) {
  mc::Atomic q;
  std::vector<Got> v;
  a0_transport_t t;
  a0_arena_t a;
  a.buf.data = file[i].at(NV - 1);
  a.buf.size = fsize;
  a.mode = A0_ARENA_MODE_SHARED;
  MC_CHECK(!a0_transport_init(&t, a), "init failed");
  a0_transport_locked_t lk;
  MC_CHECK(!a0_transport_lock(&t, &lk), "lock failed");
  bool empty = true;
  a0_transport_empty(lk, &empty);
  if (!empty) {
    a0_transport_jump_head(lk);
    while (1) {
      a0_transport_frame_t* f;
      MC_CHECK(!a0_transport_frame(lk, &f), "frame failed");
      a0_flat_packet_t fp = {{f->data, f->hdr.data_size}};
      Got g = read_flat(fp);
      g.seq = f->hdr.seq;
      v.push_back(g);
      bool next = false;
      a0_transport_has_next(lk, &next);
      if (!next) break;
      a0_transport_step_next(lk);
    }
  }
  a0_transport_unlock(lk);
  return v;
}
static int count(const Got& g, const char* k) {
  int n = 0;
  for (auto& h : g.hdr) n += h.first == k;
  return n;
}
static std::string get(const Got& g, const char* k) {
  for (auto& h : g.hdr)
    if (h.first == k) return h.second;
  return "";
}
static void id_for(a0_uuid_t id, int user, int nth) {
  mc::Atomic q;
  char b[64];
  snprintf(b, sizeof b, "%02d%02d0000-0000-4000-8000-000000000000", user, nth);
  memcpy(id, b, 37);
}
// The user's header h comes with another one, in a block of its own or behind an empty block.
static bool intact(const Got& g, const char* k = "user-key", const char* v = "user-val") {
  return count(g, k) == 1 && get(g, k) == v && count(g, "m") == 1 && get(g, "m") == "1";
}
static a0_packet_t packet(int user, int nth, const char* p, a0_packet_header_t* h = nullptr) {
  mc::Atomic q;
  a0_packet_t k;
  memset(&k, 0, sizeof k);
  id_for(k.id, user, nth);
  if (h) {
    static a0_packet_header_t more = {"m", "1"};
    static a0_packet_headers_block_t last = {&more, 1, nullptr};
    static std::map<a0_packet_header_t*, a0_packet_headers_block_t> first;
    if (!first.count(h)) first[h] = {h, 1, &last};
    k.headers_block = first[h];
    if (nth % 2) k.headers_block = {nullptr, 0, &first[h]};
  }
  k.payload.data = (uint8_t*)p;
  k.payload.size = strlen(p);
  return k;
}
static int err(a0_err_t e) { return e == A0_ERR_SYS ? a0_err_syscode : 0; }
static a0_time_mono_t at(uint64_t ns) {
  a0_time_mono_t t;
  t.ts.tv_sec = ns / 1000000000ull;
  t.ts.tv_nsec = ns % 1000000000ull;
  return t;
}
}  // namespace sim

extern "C" a0_err_t a0_file_open(const char* p, const a0_file_options_t* o, a0_file_t* out) {
  mc::Atomic q;
  int i = sim::topic(p);
  if (sim::nviews[i] == sim::NV - 1) mc::die("too many openings of one topic");
  memset(out, 0, sizeof *out);
  out->path = sim::path[i].c_str();
  out->fd = 100 + i;
  out->arena.buf.data = sim::file[i].at(sim::nviews[i]++);
  out->arena.buf.size = sim::fsize;
  out->arena.mode = o ? o->open_options.arena_mode : A0_ARENA_MODE_SHARED;
  sim::nopen++;
  return A0_OK;
}
extern "C" a0_err_t a0_file_close(a0_file_t* f) {
  mc::point();
  mc::Atomic q;
  if (!f->path) return A0_ERR_SYS;
  f->path = nullptr;
  mc::unmap(f->arena.buf.data);
  sim::nopen--;
  return A0_OK;
}
