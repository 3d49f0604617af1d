// Maps, comparisons, times, packets, path patterns, topic names: exhaustive enumeration of operation
// sequences and inputs against reference models, with every memory access checked.
#include "seq.h"

#include <a0/alloc.h>
#include <a0/buf.h>
#include <a0/cmp.h>
#include <a0/err.h>
#include <a0/map.h>
#include <a0/packet.h>
#include <a0/packet.hpp>
#include <a0/pathglob.h>
#include <a0/pathglob.hpp>
#include <a0/time.h>
#include <a0/time.hpp>
#include <a0/uuid.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>

using namespace seq;

// ---- H01: maps ----------------------------------------------------------------------
enum { HASHES = 9 };
static const char* hash_name[HASHES] = {"identity", "all_equal", "all_last", "pairs", "multiples_of_4", "high_bits", "descending", "halves", "mixed"};
static int hash_kind;
static size_t hash_of(size_t k) {
  switch (hash_kind) {
    case 0: return k;
    case 1: return 0;
    case 2: return ~(size_t)0;
    case 3: return k / 2;
    case 4: return k * 4;
    case 5: return k << 60;
    case 6: return ~k;
    case 7: return k % 2 ? ~(size_t)0 : 0;
    default: return k * 0x9E3779B97F4A7C15ull >> 3;
  }
}
static size_t ksize, vsize;
static void put_le(uint8_t* p, size_t n, size_t v) {
  memset(p, 0xA5, n);
  for (size_t i = 0; i < n && i < 8; i++) p[i] = v >> (8 * i);
}
static size_t get_le(const void* q, size_t n) {
  const uint8_t* p = (const uint8_t*)q;
  size_t v = 0;
  for (size_t i = 0; i < n && i < 8; i++) v |= (size_t)p[i] << (8 * i);
  for (size_t i = 8; i < n; i++) SQ_CHECK(p[i] == 0xA5, "bytes of an entry changed");
  return v;
}
static a0_err_t h_fn(void*, const void* d, size_t* out) {
  *out = hash_of(get_le(d, ksize));
  return A0_OK;
}
static a0_err_t c_fn(void*, const void* a, const void* b, int* out) {
  size_t x = get_le(a, ksize), y = get_le(b, ksize);
  *out = x < y ? -1 : x > y;
  return A0_OK;
}
struct MapTest {
  a0_map_t m;
  std::map<size_t, size_t> ref;
  MapTest() {
    a0_hash_t h = {nullptr, h_fn};
    a0_cmp_t c = {nullptr, c_fn};
    SQ_CHECK(!a0_map_init(&m, ksize, vsize, h, c), "map init failed");
  }
  ~MapTest() { a0_map_close(&m); }
  // exact-size copies, so that reads past them are noticed
  struct Bytes {
    std::unique_ptr<uint8_t[]> p;
    Bytes(size_t n, size_t v) : p(new uint8_t[n]) { put_le(p.get(), n, v); }
  };
  void put(size_t k, size_t v) {
    SQ_CHECK(!a0_map_put(&m, Bytes(ksize, k).p.get(), Bytes(vsize, v).p.get()), "put failed");
    ref[k] = v;
  }
  void del(size_t k) {
    a0_err_t e = a0_map_del(&m, Bytes(ksize, k).p.get());
    SQ_CHECK(e == (ref.count(k) ? A0_OK : A0_ERR_NOT_FOUND), "delete of key %zu returned %d", k, e);
    ref.erase(k);
  }
  void pop(size_t k) {
    Bytes v(vsize, 0);
    a0_err_t e = a0_map_pop(&m, Bytes(ksize, k).p.get(), v.p.get());
    SQ_CHECK(e == (ref.count(k) ? A0_OK : A0_ERR_NOT_FOUND), "pop of key %zu returned %d", k, e);
    if (!e) SQ_CHECK(get_le(v.p.get(), vsize) == ref[k], "pop of key %zu gave %zu, should be %zu", k, get_le(v.p.get(), vsize), ref[k]);
    ref.erase(k);
  }
  void check(size_t nkeys) {
    size_t n;
    bool b;
    SQ_CHECK(!a0_map_size(&m, &n) && n == ref.size(), "size is %zu, should be %zu", n, ref.size());
    SQ_CHECK(!a0_map_empty(&m, &b) && b == ref.empty(), "emptiness is wrong");
    for (size_t k = 0; k < nkeys; k++) {
      Bytes kb(ksize, k);
      SQ_CHECK(!a0_map_has(&m, kb.p.get(), &b) && b == !!ref.count(k), "key %zu: present=%d", k, b);
      void* v;
      a0_err_t e = a0_map_get(&m, kb.p.get(), &v);
      if (!ref.count(k)) SQ_CHECK(e == A0_ERR_NOT_FOUND, "lookup of absent key %zu returned %d", k, e);
      else {
        SQ_CHECK(!e, "lookup of key %zu returned %d", k, e);
        SQ_CHECK(get_le(v, vsize) == ref[k], "key %zu has value %zu, should be %zu", k, get_le(v, vsize), ref[k]);
      }
    }
    a0_map_iterator_t it;
    a0_map_iterator_init(&it, &m);
    const void* kp;
    void* vp;
    std::set<size_t> seen;
    a0_err_t e;
    while (!(e = a0_map_iterator_next(&it, &kp, &vp))) {
      size_t k = get_le(kp, ksize);
      SQ_CHECK(seen.insert(k).second, "iteration visits key %zu twice", k);
      SQ_CHECK(ref.count(k) && ref[k] == get_le(vp, vsize), "iteration shows key %zu with value %zu", k, get_le(vp, vsize));
    }
    SQ_CHECK(e == A0_ERR_ITER_DONE, "iteration ends with error %d", e);
    SQ_CHECK(seen.size() == ref.size(), "iteration visits %zu of %zu entries", seen.size(), ref.size());
    SQ_CHECK(a0_map_iterator_next(&it, &kp, &vp) == A0_ERR_ITER_DONE, "iteration goes on after its end");
  }
};
// prefill: keys 1000.. already there; then every sequence of put/delete/pop over nk keys
static void map_seqs(Run& r, int kind, int prefill, size_t nk, int depth, size_t ks, size_t vs) {
  hash_kind = kind;
  ksize = ks;
  vsize = vs;
  size_t nops = nk * 3;
  r.bounds = fmt("%d entries present, then every sequence of put/delete/pop on %zu keys to length %d", prefill, nk, depth);
  std::vector<int> s;
  for (int d = 0; d <= depth; d++) {
    s.assign(d, 0);
    while (1) {
      // a delete and a pop differ only in what they return: vary them in the last position only
      bool skip = false;
      for (int i = 0; i + 1 < d; i++) skip |= s[i] % 3 == 2;
      if (!skip) {
        beat();
        r.execs++;
        MapTest t;
        trace_set(fmt("hash %s, %d entries; ", hash_name[kind], prefill));
        for (int i = 0; i < prefill; i++) t.put(ks == 1 ? 100 + i : 1000 + i, i);
        uint64_t h = 7;
        for (int i = 0; i < d; i++) {
          size_t k = s[i] / 3;
          h = mix(h, s[i]);
          trace_add("%s %zu; ", s[i] % 3 == 0 ? "put" : s[i] % 3 == 1 ? "delete" : "pop", k);
          if (s[i] % 3 == 0) t.put(k, (i + 1) * 3 + k);
          else if (s[i] % 3 == 1) t.del(k);
          else t.pop(k);
        }
        t.check(nk + 2);
        r.transitions += d + prefill;
        uint64_t o = 3;
        for (auto& e : t.ref) o = mix(mix(o, e.first), e.second);
        r.distinct.insert(o);
        r.outcomes.insert(o);
      }
      int i = d - 1;
      while (i >= 0 && ++s[i] == (int)nops) s[i--] = 0;
      if (i < 0) break;
    }
  }
  r.states = r.distinct.size();
  r.sample(shm()->trace);
}
// long scripted histories: fill to n, remove in every rotation, refill
static void map_long(Run& r, int kind) {
  hash_kind = kind;
  ksize = 8;
  vsize = 8;
  r.bounds = "fill to n<=70 entries, delete starting from every position in both directions, put again; checked after every step";
  for (size_t n = 1; n <= 70; n += n < 20 ? 1 : 10)
    for (size_t start = 0; start < n; start += n < 20 ? 1 : 7)
      for (int dir = 0; dir < 2; dir++) {
        beat();
        MapTest t;
        trace_set(fmt("hash %s: put 0..%zu, delete from %zu %s", hash_name[kind], n - 1, start, dir ? "down" : "up"));
        for (size_t i = 0; i < n; i++) {
          t.put(i, i * 5);
          r.transitions++;
        }
        t.check(n);
        for (size_t i = 0; i < n; i++) {
          size_t k = dir ? (start + n - i) % n : (start + i) % n;
          i % 2 ? t.pop(k) : t.del(k);
          r.transitions++;
          if (n < 20) t.check(n);
          if (i % 3 == 0) t.put(k + 100, i);
        }
        t.check(n + 100);
        r.execs++;
        r.distinct.insert(mix(mix(n, start), dir));
      }
  r.states = r.distinct.size();
}

// comparisons
template <class T>
static void order(Run& r, const char* what, const std::vector<T>& v, std::function<int(const T&, const T&)> cmp, std::function<bool(const T&, const T&)> eq, std::function<size_t(const T&)> hash, std::function<std::string(const T&)> show) {
  auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
  size_t n = v.size();
  std::vector<int> c(n * n);
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      trace_set(fmt("%s %s %s", what, show(v[i]).c_str(), show(v[j]).c_str()));
      c[i * n + j] = sg(cmp(v[i], v[j]));
      SQ_CHECK((c[i * n + j] == 0) == eq(v[i], v[j]), "comparison says %s", c[i * n + j] ? "different" : "equal");
      if (eq(v[i], v[j])) SQ_CHECK(hash(v[i]) == hash(v[j]), "equal values have different hashes");
      r.execs++;
      r.transitions++;
    }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      trace_set(fmt("%s %s %s", what, show(v[i]).c_str(), show(v[j]).c_str()));
      SQ_CHECK(c[i * n + j] == -c[j * n + i], "comparison is not antisymmetric");
    }
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      if (c[i * n + j] <= 0)
        for (size_t k = 0; k < n; k++)
          if (c[j * n + k] <= 0 && !(c[i * n + k] <= 0)) {
            trace_set(fmt("%s %s <= %s <= %s", what, show(v[i]).c_str(), show(v[j]).c_str(), show(v[k]).c_str()));
            fail("comparison is not transitive");
          }
  r.distinct.insert(hash_kind + n);
  r.states += n;
  beat();
}
static int ev(a0_cmp_t c, const void* a, const void* b) {
  int o = 99;
  SQ_CHECK(!a0_cmp_eval(c, a, b, &o), "comparison failed");
  return o;
}
static size_t hv(a0_hash_t h, const void* a) {
  size_t o = 99;
  SQ_CHECK(!a0_hash_eval(h, a, &o), "hash failed");
  return o;
}
static void orders(Run& r) {
  r.bounds = "all pairs and triples of boundary values of each key type";
  std::vector<uint32_t> u;
  for (int b = 0; b < 32; b++)
    for (int d = -1; d <= 1; d++) u.push_back((1u << b) + d);
  u.push_back(~0u);
  order<uint32_t>(r, "u32", u, [](const uint32_t& a, const uint32_t& b) { return ev(A0_CMP_U32, &a, &b); }, [](const uint32_t& a, const uint32_t& b) { return a == b; }, [](const uint32_t& a) { return hv(A0_HASH_U32, &a); }, [](const uint32_t& a) { return fmt("%x", a); });
  std::vector<uintptr_t> p;
  for (int b = 0; b < 64; b++)
    for (int d = -1; d <= 1; d++) p.push_back((1ull << b) + d);
  p.push_back(~0ull);
  order<uintptr_t>(r, "ptr", p, [](const uintptr_t& a, const uintptr_t& b) { return ev(A0_CMP_PTR, &a, &b); }, [](const uintptr_t& a, const uintptr_t& b) { return a == b; }, [](const uintptr_t& a) { return hv(A0_HASH_PTR, &a); }, [](const uintptr_t& a) { return fmt("%zx", a); });
  // strings over {a, \x80, \xff} to length 3
  std::vector<std::string> s = {""};
  for (size_t i = 0; i < s.size() && s[i].size() < 3; i++)
    for (char c : {'a', 'b', '\x80', '\xff'}) s.push_back(s[i] + c);
  order<std::string>(r, "str", s, [](const std::string& a, const std::string& b) { const char *x = a.c_str(), *y = b.c_str(); return ev(A0_CMP_STR, &x, &y); }, [](const std::string& a, const std::string& b) { return a == b; }, [](const std::string& a) { const char* x = a.c_str(); return hv(A0_HASH_STR, &x); }, [](const std::string& a) { return fmt("len%zu:%02x", a.size(), a.empty() ? 0 : (uint8_t)a[0]); });
  // buffers, including zero bytes
  std::vector<std::string> z = {""};
  for (size_t i = 0; i < z.size() && z[i].size() < 3; i++)
    for (char c : {'\0', 'a', '\x80', '\xff'}) z.push_back(z[i] + c);
  auto mk = [](const std::string& a, std::unique_ptr<uint8_t[]>& m) {
    m.reset(new uint8_t[a.size()]);
    memcpy(m.get(), a.data(), a.size());
    return a0_buf_t{m.get(), a.size()};
  };
  order<std::string>(r, "buf", z, [&](const std::string& a, const std::string& b) { std::unique_ptr<uint8_t[]> m, n; a0_buf_t x = mk(a, m), y = mk(b, n); return ev(A0_CMP_BUF, &x, &y); }, [](const std::string& a, const std::string& b) { return a == b; }, [&](const std::string& a) { std::unique_ptr<uint8_t[]> m; a0_buf_t x = mk(a, m); return hv(A0_HASH_BUF, &x); }, [](const std::string& a) { return fmt("len%zu:%02x", a.size(), a.empty() ? 0 : (uint8_t)a[0]); });
  // buffers of huge sizes: zero pages, never all read
  size_t big = (5ull << 32) + 4096;
  uint8_t* m = (uint8_t*)mmap(nullptr, big, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) die("mmap");
  std::vector<size_t> zs = {0, 1, 4096, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 3ull << 31, 1ull << 33, 5ull << 32};
  for (size_t a : zs)
    for (size_t b : zs) {
      if (a == b) continue;
      a0_buf_t x = {m, a}, y = {m, b};
      trace_set(fmt("buffers of sizes %zu and %zu", a, b));
      int c = ev(A0_CMP_BUF, &x, &y), d = ev(A0_CMP_BUF, &y, &x);
      SQ_CHECK(c && d, "buffers of different sizes compare equal");
      SQ_CHECK((c < 0) == (d > 0), "comparison is not antisymmetric");
      for (size_t e : zs)
        if (c < 0) {
          a0_buf_t w = {m, e};
          if (e != b && e != a && ev(A0_CMP_BUF, &y, &w) < 0) SQ_CHECK(ev(A0_CMP_BUF, &x, &w) < 0, "comparison is not transitive");
        }
    }
  munmap(m, big);
  struct U {
    a0_uuid_t id;
  };
  std::vector<U> us;
  const char* base = "01234567-89AB-4CDE-8F01-23456789ABCD";
  for (int i = -1; i < 36; i++)
    for (const char* q = "0F"; *q; q++) {
      U x;
      memcpy(x.id, base, 37);
      if (i >= 0) {
        if (base[i] == '-') continue;
        x.id[i] = *q;
      }
      us.push_back(x);
    }
  order<U>(r, "uuid", us, [](const U& a, const U& b) { return ev(A0_CMP_UUID, &a.id, &b.id); }, [](const U& a, const U& b) { return !strcmp(a.id, b.id); }, [](const U& a) { return hv(A0_HASH_UUID, &a.id); }, [](const U& a) { return std::string(a.id); });
  r.validated = r.execs;
}

// ---- S01, S02: times --------------------------------------------------------------------
typedef __int128 i128;
static std::vector<uint64_t> mono_values() {
  std::set<uint64_t> v;
  const uint64_t top = 9999999999999999999ull;
  uint64_t p = 1;
  for (int i = 0; i < 19; i++, p *= 10)
    for (int m = 1; m < 10; m++)
      for (int d = -11; d <= 11; d++) {
        uint64_t x = p * m + d;
        if (x <= top) v.insert(x);
      }
  for (uint64_t i = 0; i < 3000; i++) v.insert(i);
  for (int b = 0; b < 63; b++)
    for (int d = -1; d <= 1; d++) v.insert((1ull << b) + d);
  for (uint64_t s : {1ull, 2ull, 9ull, 10ull, 99ull, 4294967295ull, 4294967296ull, 9999999998ull})
    for (uint64_t n : {0ull, 1ull, 9ull, 10ull, 99999999ull, 100000000ull, 999999999ull}) v.insert(s * 1000000000ull + n);
  for (uint64_t d = 0; d < 100; d++)
    for (int pos = 0; pos < 18; pos += 2) {
      uint64_t q = 1;
      for (int i = 0; i < pos; i++) q *= 10;
      v.insert(d * q);
      v.insert(d * q + 1111111111111111111ull % q);
    }
  v.insert(top);
  v.erase(v.upper_bound(top), v.end());
  return std::vector<uint64_t>(v.begin(), v.end());
}
struct Str {  // exact-size heap copy
  std::unique_ptr<char[]> p;
  size_t n;
  Str(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};
static void mono_strings(Run& r) {
  auto v = mono_values();
  std::string prev;
  r.bounds = fmt("%zu times around all powers and digit patterns below 1e19 ns; every single-character change and every truncation of 3 strings", v.size());
  for (uint64_t x : v) {
    beat();
    r.execs++;
    trace_set(fmt("%lu ns", x));
    a0_time_mono_t t, u;
    t.ts.tv_sec = x / 1000000000;
    t.ts.tv_nsec = x % 1000000000;
    std::unique_ptr<char[]> b(new char[20]);
    memset(b.get(), '#', 20);
    SQ_CHECK(!a0_time_mono_str(t, b.get()), "conversion failed");
    SQ_CHECK(memchr(b.get(), 0, 20) == b.get() + 19, "string is not 19 characters long");
    SQ_CHECK(std::string(b.get()) == fmt("%019lu", x), "string is %s", b.get());
    SQ_CHECK(!a0_time_mono_parse(b.get(), &u), "parsing failed");
    SQ_CHECK(u.ts.tv_sec == t.ts.tv_sec && u.ts.tv_nsec == t.ts.tv_nsec, "parses back to %ld.%09ld", u.ts.tv_sec, u.ts.tv_nsec);
    SQ_CHECK(prev.empty() || strcmp(prev.c_str(), b.get()) < 0, "strings do not order as times");
    prev = b.get();
    a0::TimeMono c = a0::TimeMono::parse(prev);
    SQ_CHECK(c.c->ts.tv_sec == t.ts.tv_sec && c.c->ts.tv_nsec == t.ts.tv_nsec, "C++ parse gives another time");
    SQ_CHECK(c.to_string() == prev, "C++ string is %s", c.to_string().c_str());
    r.distinct.insert(x);
  }
  for (std::string base : {"0000000000000000000", "1234567890123456789", "0000012345678901234"}) {
    for (int i = 0; i < 19; i++)
      for (int ch = 0; ch < 256; ch++) {
        std::string s = base;
        s[i] = ch;
        s.push_back(0);
        trace_set(fmt("parse with character %d = 0x%02x", i, ch));
        Str h(s);
        a0_time_mono_t t;
        a0_err_t e = a0_time_mono_parse(h.p.get(), &t);
        if (ch < '0' || ch > '9') SQ_CHECK(e, "malformed string was accepted");
        else {
          SQ_CHECK(!e, "well-formed string was refused");
          SQ_CHECK(fmt("%019lu", t.ts.tv_sec * 1000000000ull + t.ts.tv_nsec) == std::string(s.c_str()), "parsed to %ld.%09ld", t.ts.tv_sec, t.ts.tv_nsec);
        }
        r.execs++;
        r.distinct.insert(hash(s.data(), s.size()));
      }
    beat();
    for (size_t n = 0; n < 19; n++) {
      trace_set(fmt("parse of the first %zu characters", n));
      std::string s = base.substr(0, n);
      Str z(s + std::string(20 - n, 0)), v(s);
      a0_time_mono_t t;
      SQ_CHECK(a0_time_mono_parse(z.p.get(), &t), "a string that is too short was accepted");
      bool threw = false;
      try {
        a0::TimeMono::parse(a0::string_view(v.p.get(), v.n));
      } catch (std::exception&) {
        threw = true;
      }
      SQ_CHECK(threw, "C++: a string that is too short was accepted");
      r.execs++;
    }
  }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static bool leap(long y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static void wall_strings(Run& r, int from, int to) {
  static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  r.bounds = fmt("every day of the years %d..%d at 6 times of day with 5 nanosecond parts; every single-character change and every truncation of 3 strings", from, to - 1);
  // days from 1970 to the start of `from`
  long day = 0;
  for (long y = 1970; y < from; y++) day += 365 + leap(y);
  for (long y = 1969; y >= from; y--) day -= 365 + leap(y);
  std::string prev;
  for (long y = from; y < to; y++)
    for (int m = 0; m < 12; m++)
      for (int d = 1; d <= md[m] + (m == 1 && leap(y)); d++, day++) {
        beat();
        for (int sod : {0, 1, 59 * 60 + 59, 12 * 3600, 23 * 3600 + 59 * 60, 86399})
          for (long ns : {0l, 1l, 10l, 123456789l, 999999999l}) {
            if ((sod == 1 || sod == 12 * 3600) && ns != 10) continue;
            r.execs++;
            a0_time_wall_t t, u;
            t.ts.tv_sec = day * 86400 + sod;
            t.ts.tv_nsec = ns;
            std::unique_ptr<char[]> b(new char[36]);
            memset(b.get(), '#', 36);
            trace_set(fmt("time %ld.%09ld", t.ts.tv_sec, ns));
            SQ_CHECK(!a0_time_wall_str(t, b.get()), "conversion failed");
            SQ_CHECK(memchr(b.get(), 0, 36) == b.get() + 35, "string is not 35 characters long");
            std::string want = fmt("%04ld-%02d-%02dT%02d:%02d:%02d.%09ld-00:00", y, m + 1, d, sod / 3600, sod / 60 % 60, sod % 60, ns);
            SQ_CHECK(want == b.get(), "string is %s, should be %s", b.get(), want.c_str());
            SQ_CHECK(!a0_time_wall_parse(b.get(), &u), "parsing %s failed", b.get());
            SQ_CHECK(u.ts.tv_sec == t.ts.tv_sec && u.ts.tv_nsec == ns, "%s parses back to %ld.%09ld", b.get(), u.ts.tv_sec, u.ts.tv_nsec);
            SQ_CHECK(prev < want, "strings do not order as times");
            prev = want;
            if (d == 1) {
              a0::TimeWall c = a0::TimeWall::parse(prev);
              SQ_CHECK(c.c->ts.tv_sec == t.ts.tv_sec && c.c->ts.tv_nsec == ns && c.to_string() == prev, "C++ round trip gives %s", c.to_string().c_str());
            }
            r.distinct.insert(t.ts.tv_sec * 1000003ull + ns);
          }
      }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static void wall_malformed(Run& r) {
  r.bounds = "every single-character change, every value of each two-digit field and every truncation of 3 strings";
  for (std::string base : {"2020-02-28T13:07:09.123456789-00:00", "1999-12-31T23:59:59.999999999-00:00", "2038-01-19T03:14:08.000000000-00:00"}) {
    auto judge = [&](const std::string& s) {
      beat();
      r.execs++;
      r.distinct.insert(hash(s.data(), s.size()));
      std::string z = s;
      z.push_back(0);
      Str h(z);
      trace_set("parse " + s);
      a0_time_wall_t t;
      a0_err_t e = a0_time_wall_parse(h.p.get(), &t);
      static const char* shape = "dddd-dd-ddTdd:dd:dd.ddddddddd-00:00";
      bool lex = true;
      for (int i = 0; i < 35; i++) lex &= shape[i] == 'd' ? s[i] >= '0' && s[i] <= '9' : s[i] == shape[i];
      if (!lex) {
        SQ_CHECK(e, "malformed string was accepted");
        return;
      }
      int y, mo, d, hh, mi, se;
      long ns;
      sscanf(s.c_str(), "%d-%d-%dT%d:%d:%d.%ld", &y, &mo, &d, &hh, &mi, &se, &ns);
      static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      bool bad = mo < 1 || mo > 12 || d < 1 || d > 31 || hh > 24 || mi > 60 || se > 61;
      if (bad) {
        SQ_CHECK(e, "string with an impossible date or time was accepted");
        return;
      }
      bool good = d <= md[mo - 1] + (mo == 2 && leap(y)) && hh < 24 && mi < 60 && se < 60 && y >= 1970;
      if (!good) return;  // leap seconds and the like: either way
      SQ_CHECK(!e, "well-formed string was refused");
      long day = 0;
      for (long k = 1970; k < y; k++) day += 365 + leap(k);
      for (int k = 0; k + 1 < mo; k++) day += md[k] + (k == 1 && leap(y));
      day += d - 1;
      SQ_CHECK(t.ts.tv_sec == day * 86400 + hh * 3600 + mi * 60 + se && t.ts.tv_nsec == ns, "parsed to %ld.%09ld", t.ts.tv_sec, t.ts.tv_nsec);
    };
    for (int i = 0; i < 35; i++)
      for (int ch = 1; ch < 256; ch++) {
        std::string s = base;
        s[i] = ch;
        judge(s);
      }
    for (int at : {5, 8, 11, 14, 17})
      for (int v = 0; v < 100; v++) {
        std::string s = base;
        s[at] = '0' + v / 10;
        s[at + 1] = '0' + v % 10;
        judge(s);
      }
    for (size_t n = 0; n < 35; n++) {
      trace_set(fmt("parse of the first %zu characters", n));
      std::string s = base.substr(0, n);
      Str z(s + std::string(36 - n, 0)), v(s);
      a0_time_wall_t t;
      SQ_CHECK(a0_time_wall_parse(z.p.get(), &t), "a string that is too short was accepted");
      bool threw = false;
      try {
        a0::TimeWall::parse(a0::string_view(v.p.get(), v.n));
      } catch (std::exception&) {
        threw = true;
      }
      SQ_CHECK(threw, "C++: a string that is too short was accepted");
      r.execs++;
    }
  }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static void time_add(Run& r) {
  std::vector<int64_t> secs, nss = {0, 1, 2, 499999999, 500000000, 500000001, 999999998, 999999999}, durs;
  for (int b = 0; b < 62; b++)
    for (int d = -1; d <= 1; d++) secs.push_back((1ll << b) / 4 + d);
  secs.push_back(0);
  for (int b = 0; b < 63; b++)
    for (int d = -1; d <= 1; d++) {
      durs.push_back((1ll << b) + d);
      durs.push_back(-((1ll << b) + d));
    }
  for (int64_t m : {1ll, 2ll, 3ll, 10ll, 59ll, 86400ll, 9223372036ll})
    for (int64_t d : {-999999999ll, -500000000ll, -1ll, 0ll, 1ll, 500000000ll, 854775806ll}) {
      durs.push_back(m * 1000000000 + d);
      durs.push_back(-(m * 1000000000 + d));
    }
  durs.push_back(INT64_MAX);
  durs.push_back(INT64_MIN);
  std::sort(secs.begin(), secs.end());
  secs.erase(std::unique(secs.begin(), secs.end()), secs.end());
  r.bounds = fmt("%zu seconds x %zu nanoseconds x %zu durations", secs.size(), nss.size(), durs.size());
  for (int64_t s : secs) {
    if (s < 0) continue;
    for (int64_t n : nss)
      for (int64_t d : durs) {
        i128 tot = (i128)s * 1000000000 + n + d;
        trace_set(fmt("%ld.%09ld + %ld ns", s, n, d));
        a0_time_mono_t t, o;
        t.ts.tv_sec = s;
        t.ts.tv_nsec = n;
        SQ_CHECK(!a0_time_mono_add(t, d, &o), "addition failed");
        SQ_CHECK(o.ts.tv_nsec >= 0 && o.ts.tv_nsec < 1000000000, "result %ld.%ld is not normalised", o.ts.tv_sec, o.ts.tv_nsec);
        SQ_CHECK((i128)o.ts.tv_sec * 1000000000 + o.ts.tv_nsec == tot, "result is %ld.%09ld", o.ts.tv_sec, o.ts.tv_nsec);
        // in place
        SQ_CHECK(!a0_time_mono_add(t, d, &t) && t.ts.tv_sec == o.ts.tv_sec && t.ts.tv_nsec == o.ts.tv_nsec, "addition in place gives another result");
        r.execs++;
        r.distinct.insert(mix(o.ts.tv_sec, o.ts.tv_nsec));
      }
    beat();
  }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static void time_cmp(Run& r) {
  std::vector<int64_t> secs = {0, 1, 2, 59, 2147483646, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 9223372035ll, 9223372036ll, 9223372037ll, 1ll << 40};
  std::vector<int64_t> nss = {0, 1, 499999999, 999999998, 999999999};
  std::vector<a0::TimeMono> v;
  std::vector<i128> k;
  for (auto s : secs)
    for (auto n : nss) {
      a0::TimeMono t = a0::TimeMono::parse("0000000000000000000");
      t.c->ts.tv_sec = s;
      t.c->ts.tv_nsec = n;
      v.push_back(t);
      k.push_back((i128)s * 1000000000 + n);
    }
  r.bounds = fmt("all pairs of %zu times; sums and differences with 13 durations", v.size());
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < v.size(); j++) {
      trace_set(fmt("%ld.%09ld and %ld.%09ld", v[i].c->ts.tv_sec, v[i].c->ts.tv_nsec, v[j].c->ts.tv_sec, v[j].c->ts.tv_nsec));
      SQ_CHECK((v[i] < v[j]) == (k[i] < k[j]), "< is wrong");
      SQ_CHECK((v[i] > v[j]) == (k[i] > k[j]), "> is wrong");
      SQ_CHECK((v[i] <= v[j]) == (k[i] <= k[j]), "<= is wrong");
      SQ_CHECK((v[i] >= v[j]) == (k[i] >= k[j]), ">= is wrong");
      SQ_CHECK((v[i] == v[j]) == (k[i] == k[j]), "== is wrong");
      SQ_CHECK((v[i] != v[j]) == (k[i] != k[j]), "!= is wrong");
      r.execs++;
      r.distinct.insert(mix(i, j));
      beat();
    }
  for (size_t i = 0; i < v.size(); i++)
    for (int64_t d : {0ll, 1ll, -1ll, 999999999ll, -999999999ll, 1000000000ll, -1000000000ll, 1000000001ll, -1000000001ll, 4294967296ll, -4294967296ll, 5000000000000ll, -5000000000000ll}) {
      std::chrono::nanoseconds n(d);
      auto tot = [](const a0::TimeMono& t) { return (i128)t.c->ts.tv_sec * 1000000000 + t.c->ts.tv_nsec; };
      trace_set(fmt("%ld.%09ld and %ld ns", v[i].c->ts.tv_sec, v[i].c->ts.tv_nsec, d));
      i128 before = tot(v[i]);
      SQ_CHECK(tot(v[i] + n) == k[i] + d, "+ is wrong");
      SQ_CHECK(tot(v[i] - n) == k[i] - d, "- is wrong");
      SQ_CHECK(tot(v[i]) == before, "operand changed");
      a0::TimeMono a = v[i], b = v[i];
      a += n;
      b -= n;
      SQ_CHECK(tot(a) == k[i] + d, "+= is wrong");
      SQ_CHECK(tot(b) == k[i] - d, "-= is wrong");
      SQ_CHECK(tot(v[i]) == before, "+= on a copy changed the original");
      r.execs++;
    }
  r.states = v.size();
  r.transitions = r.execs;
}

// ---- P01, P02: packets --------------------------------------------------------------------
struct Pkt {
  a0_packet_t p;
  std::vector<std::vector<a0_packet_header_t>> hdr;
  std::vector<a0_packet_headers_block_t> blk;
  std::vector<std::unique_ptr<char[]>> mem;
  std::vector<std::pair<std::string, std::string>> pairs;
  std::string payload;
};
static const char* strs(int i) {
  static std::string big(300, 'x');
  switch (i) {
    case 0: return "";
    case 1: return "k";
    case 2: return "key";
    case 3: return "\xc3\xa9t\xc3\xa9";
    default: return big.c_str();
  }
}
static void build(Pkt& k, const std::vector<int>& blocks, const std::vector<int>& hs, size_t psize) {
  memset(&k.p, 0, sizeof k.p);
  memcpy(k.p.id, "A1234567-89AB-4CDE-8F01-23456789ABCD", 37);
  k.hdr.resize(blocks.size());
  k.blk.resize(blocks.size());
  size_t n = 0;
  auto copy = [&](const char* s) {
    k.mem.emplace_back(new char[strlen(s) + 1]);
    strcpy(k.mem.back().get(), s);
    return k.mem.back().get();
  };
  for (size_t b = 0; b < blocks.size(); b++) {
    for (int i = 0; i < blocks[b]; i++, n++) {
      int c = hs[n];
      k.hdr[b].push_back({copy(strs(c % 5)), copy(strs(c / 5))});
      k.pairs.push_back({strs(c % 5), strs(c / 5)});
    }
    k.blk[b].headers = k.hdr[b].empty() ? nullptr : k.hdr[b].data();
    k.blk[b].size = k.hdr[b].size();
    k.blk[b].next_block = nullptr;
    if (b) k.blk[b - 1].next_block = &k.blk[b];
  }
  k.p.headers_block = k.blk[0];
  for (size_t i = 0; i < psize; i++) k.payload.push_back((char)(i * 37 + 11));
  if (psize) {
    k.mem.emplace_back(new char[psize]);
    memcpy(k.mem.back().get(), k.payload.data(), psize);
    k.p.payload.data = (uint8_t*)k.mem.back().get();
  }
  k.p.payload.size = psize;
}
struct Exact {  // allocator giving exactly what is asked for, or failing
  std::unique_ptr<uint8_t[]> p;
  size_t n = 0;
  int calls = 0;
  bool fail = false;
  a0_alloc_t get() { return {this, fn, nullptr}; }
  static a0_err_t fn(void* u, size_t n, a0_buf_t* out) {
    Exact* e = (Exact*)u;
    e->calls++;
    if (e->fail) return A0_ERR_FRAME_LARGE;
    e->p.reset(new uint8_t[n]);
    memset(e->p.get(), 0xEE, n);
    e->n = n;
    out->data = e->p.get();
    out->size = n;
    return A0_OK;
  }
};
typedef std::vector<std::pair<std::string, std::string>> Pairs;
static Pairs sorted(Pairs v) {
  std::sort(v.begin(), v.end());
  return v;
}
static Pairs headers_of(a0_packet_t* p, const char* what) {
  Pairs v;
  a0_packet_header_iterator_t it;
  a0_packet_header_iterator_init(&it, p);
  a0_packet_header_t h;
  a0_err_t e;
  while (!(e = a0_packet_header_iterator_next(&it, &h))) {
    v.push_back({h.key, h.val});
    SQ_CHECK(v.size() < 100, "%s: header iteration does not end", what);
  }
  SQ_CHECK(e == A0_ERR_ITER_DONE, "%s: header iteration ends with error %d", what, e);
  SQ_CHECK(a0_packet_header_iterator_next(&it, &h) == A0_ERR_ITER_DONE, "%s: header iteration goes on after its end", what);
  return v;
}
static void same(Pkt& k, a0_packet_t* q, const char* what) {
  SQ_CHECK(!memcmp(q->id, k.p.id, 37), "%s: id differs", what);
  SQ_CHECK(sorted(headers_of(q, what)) == sorted(k.pairs), "%s: headers differ", what);
  SQ_CHECK(q->payload.size == k.payload.size() && !memcmp(q->payload.data ? q->payload.data : (uint8_t*)"", k.payload.data(), k.payload.size()), "%s: payload differs", what);
}
static void packet_round(Run& r, Pkt& k) {
  r.execs++;
  // stats
  a0_packet_stats_t st;
  SQ_CHECK(!a0_packet_stats(k.p, &st), "stats failed");
  size_t content = k.payload.size();
  for (auto& h : k.pairs) content += h.first.size() + h.second.size() + 2;
  SQ_CHECK(st.num_hdrs == k.pairs.size(), "stats: %zu headers, should be %zu", st.num_hdrs, k.pairs.size());
  SQ_CHECK(st.content_size == content, "stats: content size %zu, should be %zu", st.content_size, content);
  // serialise
  Exact a;
  a0_flat_packet_t f;
  memset(&f, 0, sizeof f);
  SQ_CHECK(!a0_packet_serialize(k.p, a.get(), &f), "serialising failed");
  SQ_CHECK(a.calls == 1 && f.buf.data == a.p.get() && f.buf.size == a.n, "serialising returns another buffer than it allocated");
  SQ_CHECK(a.n == st.serial_size, "serialised size %zu, announced %zu", a.n, st.serial_size);
  Exact a2;
  SQ_CHECK(!a0_packet_serialize(k.p, a2.get(), nullptr) && a2.n == a.n && !memcmp(a2.p.get(), a.p.get(), a.n), "serialising without output pointer differs");
  // the flat form
  a0_packet_stats_t fs;
  SQ_CHECK(!a0_flat_packet_stats(f, &fs), "flat stats failed");
  SQ_CHECK(fs.num_hdrs == st.num_hdrs && fs.content_size == st.content_size && fs.serial_size == st.serial_size, "flat stats differ");
  a0_uuid_t* id;
  SQ_CHECK(!a0_flat_packet_id(f, &id) && !memcmp(*id, k.p.id, 37), "flat id differs");
  a0_buf_t pl;
  SQ_CHECK(!a0_flat_packet_payload(f, &pl) && pl.size == k.payload.size() && !memcmp(pl.data, k.payload.data(), pl.size), "flat payload differs");
  Pairs fv;
  a0_packet_header_t h;
  for (size_t i = 0; i < st.num_hdrs; i++) {
    SQ_CHECK(!a0_flat_packet_header(f, i, &h), "flat header %zu missing", i);
    fv.push_back({h.key, h.val});
  }
  SQ_CHECK(sorted(fv) == sorted(k.pairs), "flat headers differ");
  SQ_CHECK(a0_flat_packet_header(f, st.num_hdrs, &h), "flat header past the end is returned");
  // deserialise
  Exact d;
  a0_packet_t q;
  memset(&q, 0x5A, sizeof q);
  a0_buf_t ob = {nullptr, 0};
  SQ_CHECK(!a0_packet_deserialize(f, d.get(), &q, &ob), "deserialising failed");
  same(k, &q, "deserialised packet");
  // it does not point into the flat packet
  Exact keep;
  std::swap(keep.p, a.p);
  memset(keep.p.get(), 0xDD, a.n);
  same(k, &q, "deserialised packet after its source is gone");
  // deep copy, twice over
  Exact e;
  a0_packet_t c;
  memset(&c, 0x5A, sizeof c);
  SQ_CHECK(!a0_packet_deep_copy(k.p, e.get(), &c, &ob), "deep copy failed");
  same(k, &c, "deep copy");
  Exact e2;
  a0_packet_t c2;
  memset(&c2, 0x5A, sizeof c2);
  SQ_CHECK(!a0_packet_deep_copy(q, e2.get(), &c2, &ob), "deep copy failed");
  d.p.reset();
  same(k, &c2, "deep copy of the deserialised packet");
  // failing allocations
  for (int op = 0; op < 3; op++) {
    Exact x;
    x.fail = true;
    static uint8_t* const bad = (uint8_t*)16;
    a0_flat_packet_t ff = {{bad, 1 << 20}};
    a0_packet_t pp;
    memset(&pp, 0, sizeof pp);
    a0_buf_t oo = {bad, 1 << 20};
    trace_add(" [allocation fails in %s]", op == 0 ? "serialise" : op == 1 ? "deserialise" : "deep copy");
    Exact fa;
    a0_flat_packet_t good;
    a0_err_t err;
    if (op == 1) SQ_CHECK(!a0_packet_serialize(k.p, fa.get(), &good), "serialising failed");
    if (op == 0) err = a0_packet_serialize(k.p, x.get(), &ff);
    else if (op == 1) err = a0_packet_deserialize(good, x.get(), &pp, &oo);
    else err = a0_packet_deep_copy(k.p, x.get(), &pp, &oo);
    SQ_CHECK(err, "a failing allocation is not reported");
    r.faults++;
  }
  r.distinct.insert(hash(keep.p.get(), 0) ^ hash(k.payload.data(), k.payload.size(), k.pairs.size() * 31 + content));
}
static void cpp_round(Run& r, Pkt& k) {
  // C -> C++ -> C
  int deleted = 0;
  {
    a0::Packet p(k.p, [&](a0_packet_t*) { deleted++; });
    SQ_CHECK(std::string(p.id().data(), p.id().size()) == k.p.id, "C++: id differs");
    SQ_CHECK(std::string(p.payload().data(), p.payload().size()) == k.payload, "C++: payload differs");
    Pairs v;
    for (auto& h : p.headers()) v.push_back(h);
    SQ_CHECK(sorted(v) == sorted(k.pairs), "C++: headers differ");
    same(k, &*p.c, "C view of the C++ packet");
    a0::Packet cp = p;
    same(k, &*cp.c, "C view of a copy of the C++ packet");
    SQ_CHECK(!deleted, "C++: deleter called while the packet is in use");
  }
  SQ_CHECK(deleted == 1, "C++: deleter called %d times", deleted);
  std::unordered_multimap<std::string, std::string> hm(k.pairs.begin(), k.pairs.end());
  a0::Packet own(hm, k.payload), view(hm, a0::string_view(k.payload), a0::ref);
  Pkt k2;
  k2.pairs = k.pairs;
  k2.payload = k.payload;
  memcpy(k2.p.id, own.c->id, 37);
  same(k2, &*own.c, "new C++ packet");
  memcpy(k2.p.id, view.c->id, 37);
  same(k2, &*view.c, "new C++ packet referring to its payload");
  SQ_CHECK(strcmp(own.c->id, view.c->id), "two new C++ packets have the same id");
  // flat
  Exact a;
  std::shared_ptr<a0_flat_packet_t> f(new a0_flat_packet_t);
  SQ_CHECK(!a0_packet_serialize(k.p, a.get(), f.get()), "serialising failed");
  a0::FlatPacket fp;
  fp.c = f;
  SQ_CHECK(std::string(fp.id().data(), fp.id().size()) == k.p.id, "C++ flat: id differs");
  SQ_CHECK(std::string(fp.payload().data(), fp.payload().size()) == k.payload, "C++ flat: payload differs");
  SQ_CHECK(fp.num_headers() == k.pairs.size(), "C++ flat: number of headers differs");
  Pairs v;
  for (size_t i = 0; i < fp.num_headers(); i++) v.push_back({std::string(fp.header(i).first.data()), std::string(fp.header(i).second.data())});
  SQ_CHECK(sorted(v) == sorted(k.pairs), "C++ flat: headers differ");
  r.transitions++;
}
static void headers_exact(Run& r, Pkt& k) {
  r.execs++;
  SQ_CHECK(headers_of(&k.p, "packet") == k.pairs, "header iteration differs from the headers put in");
  // matching, with a key that is absent and one that is only a prefix
  for (const char* key : {"", "k", "key", "ke", "nope", "\xc3\xa9t\xc3\xa9"}) {
    Pairs want, got;
    for (auto& h : k.pairs)
      if (h.first == key) want.push_back(h);
    a0_packet_header_iterator_t it;
    a0_packet_header_iterator_init(&it, &k.p);
    a0_packet_header_t h;
    std::unique_ptr<char[]> kc(new char[strlen(key) + 1]);
    strcpy(kc.get(), key);
    a0_err_t e;
    while (!(e = a0_packet_header_iterator_next_match(&it, kc.get(), &h))) {
      got.push_back({h.key, h.val});
      SQ_CHECK(got.size() < 100, "matching headers never end");
    }
    SQ_CHECK(e == A0_ERR_ITER_DONE, "matching headers end with error %d", e);
    SQ_CHECK(got == want, "lookup of '%s' yields %zu pairs, should be %zu", key, got.size(), want.size());
    SQ_CHECK(a0_packet_header_iterator_next_match(&it, kc.get(), &h) == A0_ERR_ITER_DONE, "matching headers go on after the end");
    r.transitions += got.size() + 1;
    // match first, then plain iteration: continues right after the match
    a0_packet_header_iterator_init(&it, &k.p);
    size_t at = 0;
    while (at < k.pairs.size() && k.pairs[at].first != key) at++;
    if (at < k.pairs.size()) {
      SQ_CHECK(!a0_packet_header_iterator_next_match(&it, kc.get(), &h), "match not found");
      for (size_t i = at + 1; i < k.pairs.size(); i++) SQ_CHECK(!a0_packet_header_iterator_next(&it, &h) && k.pairs[i].first == h.key && k.pairs[i].second == h.val, "iteration after a match is wrong");
      SQ_CHECK(a0_packet_header_iterator_next(&it, &h) == A0_ERR_ITER_DONE, "iteration after a match does not end");
    }
  }
  // the flat packet: same pairs, and lookup agrees with its own iteration order
  Exact a;
  a0_flat_packet_t f;
  SQ_CHECK(!a0_packet_serialize(k.p, a.get(), &f), "serialising failed");
  Pairs order;
  a0_flat_packet_header_iterator_t it;
  a0_flat_packet_header_iterator_init(&it, &f);
  a0_packet_header_t h;
  while (!a0_flat_packet_header_iterator_next(&it, &h)) {
    order.push_back({h.key, h.val});
    SQ_CHECK(order.size() < 100, "flat header iteration does not end");
  }
  SQ_CHECK(a0_flat_packet_header_iterator_next(&it, &h), "flat header iteration goes on after its end");
  SQ_CHECK(sorted(order) == sorted(k.pairs), "flat header iteration differs from the headers put in");
  for (const char* key : {"", "k", "key", "ke", "nope"}) {
    Pairs want, got;
    for (auto& p : order)
      if (p.first == key) want.push_back(p);
    a0_flat_packet_header_iterator_init(&it, &f);
    while (!a0_flat_packet_header_iterator_next_match(&it, key, &h)) {
      got.push_back({h.key, h.val});
      SQ_CHECK(got.size() < 100, "matching flat headers never end");
    }
    SQ_CHECK(got == want, "flat lookup of '%s' yields %zu pairs, should be %zu", key, got.size(), want.size());
  }
  uint64_t o = 5;
  for (auto& p : k.pairs) o = mix(mix(o, hash(p.first.data(), p.first.size())), hash(p.second.data(), p.second.size()));
  for (auto& b : k.hdr) o = mix(o, b.size());
  r.distinct.insert(o);
}
static void all_packets(Run& r, int nblocks, int per_block, const std::vector<int>& hset, const std::vector<size_t>& ps, std::function<void(Run&, Pkt&)> fn) {
  std::vector<int> b(nblocks, 0);
  while (1) {
    size_t n = 0;
    for (int x : b) n += x;
    std::vector<size_t> c(n, 0);
    while (1) {
      std::vector<int> hs;
      for (size_t x : c) hs.push_back(hset[x]);
      for (size_t p : ps) {
        beat();
        std::string t = "packet: blocks";
        for (int x : b) t += fmt(" %d", x);
        t += "; headers";
        for (int x : hs) t += fmt(" %d:%d", x % 5, x / 5);
        t += fmt("; payload %zu", p);
        trace_set(t);
        Pkt k;
        build(k, b, hs, p);
        fn(r, k);
      }
      size_t i = 0;
      while (i < n && ++c[i] == hset.size()) c[i++] = 0;
      if (i == n) break;
    }
    int i = 0;
    while (i < nblocks && ++b[i] > per_block) b[i++] = 0;
    if (i == nblocks) break;
  }
  r.states = r.distinct.size();
  if (!r.transitions) r.transitions = r.execs;
  r.sample(shm()->trace);
  r.bounds = fmt("%d linked header blocks of 0..%d headers, %zu different headers, %zu payload sizes", nblocks, per_block, hset.size(), ps.size());
}

// ---- G01: path patterns -----------------------------------------------------------------
static std::vector<std::string> split(const std::string& s) {  // s starts with '/'
  std::vector<std::string> v;
  size_t i = 1;
  while (1) {
    size_t j = s.find('/', i);
    v.push_back(s.substr(i, j == std::string::npos ? j : j - i));
    if (j == std::string::npos) return v;
    i = j + 1;
  }
}
static bool seg_match(const char* g, const char* r) {
  if (*g == '*') return seg_match(g + 1, r) || (*r && seg_match(g, r + 1));
  if (!*r) return !*g;
  return *g == *r && seg_match(g + 1, r + 1);
}
static bool ref_match(const std::vector<std::string>& g, size_t i, const std::vector<std::string>& r, size_t j) {
  if (i == g.size()) return j == r.size();
  // "**" stands for directories: the last part of a path is never one
  if (g[i] == "**" && i + 1 < g.size()) return ref_match(g, i + 1, r, j) || (j + 1 < r.size() && ref_match(g, i, r, j + 1));
  if (j == r.size()) return false;
  return seg_match(g[i].c_str(), r[j].c_str()) && ref_match(g, i + 1, r, j + 1);
}
struct Glob {
  a0_pathglob_t g;
  a0_err_t err;
  Glob(const std::string& s) { err = a0_pathglob_init(&g, s.c_str()); }
  ~Glob() {
    if (!err) a0_pathglob_close(&g);
  }
};
static std::vector<std::string> words(const std::string& alpha, int n) {
  std::vector<std::string> v = {"/"};
  for (size_t i = 0; i < v.size(); i++)
    if ((int)v[i].size() <= n)
      for (char c : alpha) v.push_back(v[i] + c);
  return v;
}
static void glob_words(Run& r, const std::string& pa, int pn, const std::string& ra, int rn, int part, int parts) {
  auto ps = words(pa, pn), rs = words(ra, rn);
  std::vector<std::vector<std::string>> rsp;
  for (auto& s : rs) rsp.push_back(split(s));
  r.bounds = fmt("all patterns '/' + up to %d characters of {%s} x all paths '/' + up to %d characters of {%s}", pn, pa.c_str(), rn, ra.c_str());
  for (size_t i = part; i < ps.size(); i += parts) {
    beat();
    trace_set("pattern " + ps[i]);
    Glob g(ps[i]);
    SQ_CHECK(!g.err, "pattern refused");
    auto gs = split(ps[i]);
    uint64_t o = 0;
    for (size_t j = 0; j < rs.size(); j++) {
      bool m = false;
      a0_err_t e = a0_pathglob_match(&g.g, rs[j].c_str(), &m);
      bool want = ref_match(gs, 0, rsp[j], 0);
      r.execs++;
      if (e || m != want) {
        trace_add(" path %s", rs[j].c_str());
        SQ_CHECK(!e, "matching failed with error %d", e);
        fail("%s, should %smatch", m ? "matches" : "does not match", want ? "" : "not ");
      }
      o = o * 31 + m;
    }
    r.distinct.insert(o);
  }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static void glob_segments(Run& r, int gn, int rn) {
  // segment level: more directories than the character-level enumeration reaches
  std::vector<std::string> ga = {"a", "b", "*", "**", "a*", "*a*b"}, ra = {"a", "b", "ab", "xaxb"};
  auto seqs = [](const std::vector<std::string>& a, int n) {
    std::vector<std::vector<std::string>> v = {{}}, out;
    for (size_t i = 0; i < v.size(); i++)
      if ((int)v[i].size() < n)
        for (auto& s : a) {
          auto w = v[i];
          w.push_back(s);
          v.push_back(w);
        }
    for (auto& s : v)
      if (!s.empty()) out.push_back(s);
    return out;
  };
  auto join = [](const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) s += "/" + x;
    return s;
  };
  auto gs = seqs(ga, gn), rs = seqs(ra, rn);
  std::vector<std::string> rj;
  for (auto& x : rs) rj.push_back(join(x));
  r.bounds = fmt("all patterns of up to %d parts from {a b * ** a* *a*b} x all paths of up to %d parts from {a b ab xaxb}", gn, rn);
  for (auto& p : gs) {
    beat();
    std::string pj = join(p);
    trace_set("pattern " + pj);
    Glob g(pj);
    SQ_CHECK(!g.err, "pattern refused");
    uint64_t o = 0;
    for (size_t j = 0; j < rs.size(); j++) {
      bool m = false;
      a0_err_t e = a0_pathglob_match(&g.g, rj[j].c_str(), &m);
      bool want = ref_match(p, 0, rs[j], 0);
      r.execs++;
      if (e || m != want) {
        trace_add(" path %s", rj[j].c_str());
        SQ_CHECK(!e, "matching failed with error %d", e);
        fail("%s, should %smatch", m ? "matches" : "does not match", want ? "" : "not ");
      }
      o = o * 31 + m;
    }
    r.distinct.insert(o);
  }
  r.states = r.distinct.size();
  r.transitions = r.execs;
}
static void glob_misc(Run& r) {
  r.bounds = "depths 1..40 and beyond for pattern and path, long segments, relative names, unusable names";
  setenv("A0_ROOT", "/root/dir", 1);
  auto deep = [](size_t n, const char* s) {
    std::string o;
    for (size_t i = 0; i < n; i++) o += std::string("/") + s;
    return o;
  };
  for (size_t gd = 1; gd <= 140; gd += gd < 40 ? 1 : 33)
    for (size_t rd = 1; rd <= 140; rd += rd < 40 ? 1 : 33)
      for (const char* mid : {"a", "*", "**"}) {
        beat();
        std::string p = deep(gd - 1, mid) + "/a", q = deep(rd, "a");
        trace_set(fmt("pattern of %zu parts '%s', path of %zu parts", gd, mid, rd));
        Glob g(p);
        r.execs++;
        if (gd <= A0_PATHGLOB_MAX_DEPTH) SQ_CHECK(!g.err, "pattern refused");
        if (g.err) continue;
        bool m = false;
        a0_err_t e = a0_pathglob_match(&g.g, q.c_str(), &m);
        if (rd <= A0_PATHGLOB_MAX_DEPTH) SQ_CHECK(!e, "matching failed with error %d", e);
        if (e) continue;
        SQ_CHECK(m == (!strcmp(mid, "**") && gd > 1 ? rd >= 1 : gd == rd), "%s", m ? "matches" : "does not match");
        r.distinct.insert(mix(mix(gd, rd), m));
      }
  for (size_t n : {0, 1, 255, 4095, 70000}) {
    std::string s(n, 'q');
    for (const char* f : {"/x%s", "/%s*", "/*%s", "/**/%s*", "/d/%s"}) {
      std::string p = std::string(f);
      size_t at = p.find("%s");
      p.replace(at, 2, s);
      std::string path = p;
      for (size_t i = 0; (i = path.find('*')) != std::string::npos;) path.replace(i, 1, "z");
      trace_set(fmt("pattern %s with a run of %zu", f, n));
      Glob g(p);
      SQ_CHECK(!g.err, "pattern refused");
      bool m = false;
      SQ_CHECK(!a0_pathglob_match(&g.g, path.c_str(), &m) && m, "does not match");
      bool more = ref_match(split(p), 0, split(path + "/more"), 0);
      SQ_CHECK(!a0_pathglob_match(&g.g, (path + "/more").c_str(), &m) && m == more, "%s a longer path", m ? "matches" : "does not match");
      r.execs++;
      a0::PathGlob cg(p);
      SQ_CHECK(cg.match(path) && cg.match(path + "/more") == more, "C++ answer differs");
    }
  }
  // relative names are below the root, for pattern and path alike
  for (std::string rel : {"a", "a/b", "*", "a/*", "**/b", "a/**/b"})
    for (std::string path : {"a", "a/b", "b", "a/x/b", "/root/dir/a", "/root/dir/a/b", "/root/a", "/a", "/root/dir/b"}) {
      trace_set("root /root/dir, pattern " + rel + " path " + path);
      Glob g(rel);
      SQ_CHECK(!g.err, "pattern refused");
      std::string ap = path[0] == '/' ? path : "/root/dir/" + path;
      bool m, want = ref_match(split("/root/dir/" + rel), 0, split(ap), 0);
      SQ_CHECK(!a0_pathglob_match(&g.g, path.c_str(), &m), "matching failed");
      SQ_CHECK(m == want, "%s", m ? "matches" : "does not match");
      r.execs++;
    }
  trace_set("null and empty patterns");
  a0_pathglob_t g;
  SQ_CHECK(a0_pathglob_init(&g, nullptr), "a missing pattern is accepted");
  SQ_CHECK(a0_pathglob_init(&g, ""), "an empty pattern is accepted");
  SQ_CHECK(!a0_pathglob_init(&g, "/a"), "a pattern is refused");
  bool m;
  SQ_CHECK(a0_pathglob_match(&g, "", &m), "an empty path is accepted");
  SQ_CHECK(a0_pathglob_match(&g, nullptr, &m), "a missing path is accepted");
  a0_pathglob_close(&g);
  r.states = r.distinct.size();
  r.transitions = r.execs;
}

void define_scenarios() {
  for (int h = 0; h < HASHES; h++) {
    scenario("H01", std::string("sequences_") + hash_name[h], [=](Run& r) {
      map_seqs(r, h, 0, 4, r.thorough ? 7 : h == 1 || h >= 7 ? 6 : 5, 8, 8);
    });
    scenario("H01", std::string("around_growth_") + hash_name[h], [=](Run& r) {
      for (int pre = 1; pre <= 9; pre++) map_seqs(r, h, pre, 3, r.thorough ? 5 : 4, 4, 20);
      map_seqs(r, h, 17, 2, 5, 1, 1);
      map_seqs(r, h, 3, 2, 5, 37, 3);
      r.bounds = "1..9 and 17 entries present, then every sequence of put/delete/pop on 2-3 keys to length 4-5; key and value sizes 1..37";
    });
    scenario("H01", std::string("long_") + hash_name[h], [=](Run& r) { map_long(r, h); });
  }
  scenario("H01", "orders", orders);
  scenario("S01", "mono", mono_strings);
  for (int i = 0; i < 7; i++) scenario("S01", fmt("wall_%d", 1970 + i * 20), [=](Run& r) { wall_strings(r, 1970 + i * 20, 1990 + i * 20); });
  scenario("S01", "wall_far", [](Run& r) { wall_strings(r, 9990, 10000); });
  scenario("S01", "wall_malformed", wall_malformed);
  scenario("S02", "add", time_add);
  scenario("S02", "compare", time_cmp);
  scenario("P01", "blocks3", [](Run& r) {
    all_packets(r, 3, 2, r.thorough ? std::vector<int>{0, 6, 7, 24, 18} : std::vector<int>{0, 6, 24}, {0, 1, 300}, packet_round);
  });
  scenario("P01", "blocks1", [](Run& r) {
    std::vector<int> all;
    for (int i = 0; i < 25; i++) all.push_back(i);
    all_packets(r, 1, 2, all, {0, 1, 7, 8, 9, 63, 64, 65, 1000, 65536}, packet_round);
  });
  scenario("P01", "many_headers", [](Run& r) {
    for (int n : {3, 8, 17, 64}) all_packets(r, 1, 0, {0}, {0}, [&](Run& q, Pkt&) {
      for (int split = 0; split <= n; split += 1 + n / 9) {
        std::vector<int> hs;
        for (int i = 0; i < n; i++) hs.push_back((i * 7 + split) % 25);
        Pkt k;
        trace_set(fmt("packet: %d headers, %d in the first block", n, split));
        build(k, {split, n - split}, hs, 40);
        packet_round(q, k);
      }
    });
    r.bounds = "up to 64 headers in two blocks, every ninth way to divide them";
  });
  scenario("P01", "cpp", [](Run& r) {
    all_packets(r, 2, 2, r.thorough ? std::vector<int>{0, 6, 7, 8, 24, 18} : std::vector<int>{0, 6, 7, 24}, {0, 1, 300}, [](Run& q, Pkt& k) {
      q.execs++;
      cpp_round(q, k);
      q.distinct.insert(k.pairs.size() * 1000 + k.payload.size());
    });
  });
  scenario("P02", "blocks4", [](Run& r) { all_packets(r, 4, 2, r.thorough ? std::vector<int>{5, 6, 12} : std::vector<int>{6, 12}, {0}, headers_exact); });
  scenario("P02", "blocks3", [](Run& r) { all_packets(r, 3, 2, {0, 6, 11, 7}, {0}, headers_exact); });
  scenario("P02", "blocks1", [](Run& r) { all_packets(r, 1, r.thorough ? 6 : 5, {0, 6, 11, 7}, {1}, headers_exact); });
  for (int i = 0; i < 8; i++) {
    scenario("G01", fmt("words_%d", i), [=](Run& r) { glob_words(r, "a*/b", r.thorough ? 8 : 7, "ab/", r.thorough ? 8 : 7, i, 8); });
    scenario("G01", fmt("words_stars_%d", i), [=](Run& r) { glob_words(r, "a*/", r.thorough ? 10 : 8, "ab/", 7, i, 8); }, false);
  }
  scenario("G01", "segments", [](Run& r) { glob_segments(r, r.thorough ? 5 : 4, r.thorough ? 6 : 5); });
  scenario("G01", "misc", glob_misc);
}
