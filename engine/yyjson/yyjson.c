#include "yyjson.h"
#include <stdlib.h>
#include <string.h>

typedef struct pool_s { char* cur; char* end; } pool_t;
static void* pool_malloc(void* ctx, size_t n) {
  pool_t* p = (pool_t*)ctx;
  n = (n + 15) & ~(size_t)15;
  if ((size_t)(p->end - p->cur) < n) return NULL;
  void* r = p->cur;
  p->cur += n;
  return r;
}
static void* pool_realloc(void* ctx, void* q, size_t n) { (void)ctx; (void)q; (void)n; return NULL; }
static void pool_free(void* ctx, void* q) { (void)ctx; (void)q; }
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size) {
  uintptr_t b = ((uintptr_t)buf + 15) & ~(uintptr_t)15;
  if (size < sizeof(pool_t) + 64) return false;
  pool_t* p = (pool_t*)b;
  p->cur = (char*)(b + ((sizeof(pool_t) + 15) & ~(size_t)15));
  p->end = (char*)buf + size;
  alc->malloc = pool_malloc;
  alc->realloc = pool_realloc;
  alc->free = pool_free;
  alc->ctx = p;
  return true;
}
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag flg) {
  (void)flg;
  return len * 96 + 512;
}

typedef struct { const char* p; const char* e; const yyjson_alc* a; yyjson_read_flag f; const char* msg; } rd_t;
static void ws(rd_t* r) {
  while (r->p < r->e) {
    char c = *r->p;
    if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { r->p++; continue; }
    if ((r->f & YYJSON_READ_ALLOW_COMMENTS) && c == '/' && r->p + 1 < r->e) {
      if (r->p[1] == '/') { while (r->p < r->e && *r->p != '\n') r->p++; continue; }
      if (r->p[1] == '*') {
        const char* q = r->p + 2;
        while (q + 1 < r->e && !(q[0] == '*' && q[1] == '/')) q++;
        if (q + 1 >= r->e) return;
        r->p = q + 2;
        continue;
      }
    }
    return;
  }
}
static bool str(rd_t* r, const char** s, size_t* n) {
  // escape sequences are kept verbatim
  if (r->p >= r->e || *r->p != '"') { r->msg = "expected string"; return false; }
  const char* b = ++r->p;
  while (r->p < r->e && *r->p != '"') {
    if (*r->p == '\\') r->p++;
    r->p++;
  }
  if (r->p >= r->e) { r->msg = "unclosed string"; return false; }
  size_t len = r->p - b;
  char* c = (char*)r->a->malloc(r->a->ctx, len + 1);
  if (!c) { r->msg = "memory allocation failed"; return false; }
  memcpy(c, b, len);
  c[len] = 0;
  *s = c;
  *n = len;
  r->p++;
  return true;
}
static yyjson_val* val(rd_t* r, int depth) {
  if (depth > 64) { r->msg = "too deep"; return NULL; }
  ws(r);
  if (r->p >= r->e) { r->msg = "unexpected end of data"; return NULL; }
  yyjson_val* v = (yyjson_val*)r->a->malloc(r->a->ctx, sizeof *v);
  if (!v) { r->msg = "memory allocation failed"; return NULL; }
  memset(v, 0, sizeof *v);
  char c = *r->p;
  if (c == '{' || c == '[') {
    char close = c == '{' ? '}' : ']';
    v->type = c == '{' ? 'o' : 'a';
    r->p++;
    yyjson_val** tail = &v->child;
    ws(r);
    if (r->p < r->e && *r->p == close) { r->p++; return v; }
    while (true) {
      const char* k = NULL;
      size_t kn = 0;
      ws(r);
      if (c == '{') {
        if (!str(r, &k, &kn)) return NULL;
        ws(r);
        if (r->p >= r->e || *r->p != ':') { r->msg = "expected ':'"; return NULL; }
        r->p++;
      }
      yyjson_val* x = val(r, depth + 1);
      if (!x) return NULL;
      x->key = k;
      x->key_len = kn;
      *tail = x;
      tail = &x->next;
      ws(r);
      if (r->p < r->e && *r->p == ',') {
        r->p++;
        ws(r);
        if ((r->f & YYJSON_READ_ALLOW_TRAILING_COMMAS) && r->p < r->e && *r->p == close) { r->p++; return v; }
        continue;
      }
      if (r->p < r->e && *r->p == close) { r->p++; return v; }
      r->msg = "unexpected character";
      return NULL;
    }
  }
  if (c == '"') {
    v->type = 's';
    return str(r, &v->str, &v->len) ? v : NULL;
  }
  const char* b = r->p;
  while (r->p < r->e && (strchr("+-.", *r->p) ? *r->p != 0 : ((*r->p >= '0' && *r->p <= '9') || (*r->p >= 'a' && *r->p <= 'z') || (*r->p >= 'A' && *r->p <= 'Z')))) r->p++;
  size_t n = r->p - b;
  bool num = n && (*b == '-' || (*b >= '0' && *b <= '9'));
  bool kw = (n == 4 && !memcmp(b, "true", 4)) || (n == 5 && !memcmp(b, "false", 5)) || (n == 4 && !memcmp(b, "null", 4));
  if (!kw && !num && (r->f & YYJSON_READ_ALLOW_INF_AND_NAN)) kw = (n == 3 && !memcmp(b, "nan", 3)) || (n == 3 && !memcmp(b, "inf", 3));
  if (!num && !kw) { r->msg = "unexpected character"; return NULL; }
  char* s = (char*)r->a->malloc(r->a->ctx, n + 1);
  if (!s) { r->msg = "memory allocation failed"; return NULL; }
  memcpy(s, b, n);
  s[n] = 0;
  v->str = s;
  v->len = n;
  v->type = (n == 4 && !memcmp(b, "null", 4)) ? 'n' : 'r';
  return v;
}
static void* std_malloc(void* c, size_t n) { (void)c; return malloc(n); }
static void* std_realloc(void* c, void* p, size_t n) { (void)c; return realloc(p, n); }
static void std_free(void* c, void* p) { (void)c; free(p); }
static const yyjson_alc std_alc = {std_malloc, std_realloc, std_free, NULL};

yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err) {
  rd_t r = {dat, dat + len, alc ? alc : &std_alc, flg, NULL};
  yyjson_read_err dummy;
  if (!err) err = &dummy;
  memset(err, 0, sizeof *err);
  yyjson_doc* d = NULL;
  if (!dat || !len) {
    r.msg = "input is empty";
  } else {
    d = (yyjson_doc*)r.a->malloc(r.a->ctx, sizeof *d);
    if (!d) r.msg = "memory allocation failed";
    else {
      d->root = val(&r, 0);
      if (d->root) {
        ws(&r);
        if (r.p != r.e) { r.msg = "unexpected content after document"; d->root = NULL; }
      }
    }
  }
  if (!d || !d->root) {
    err->code = 1;
    err->msg = r.msg ? r.msg : "error";
    err->pos = r.p - dat;
    return NULL;
  }
  return d;
}
void yyjson_doc_free(yyjson_doc* doc) { (void)doc; }

yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc) {
  (void)alc;
  yyjson_mut_doc* d = (yyjson_mut_doc*)malloc(sizeof *d);
  memset(d, 0, sizeof *d);
  return d;
}
void yyjson_mut_doc_free(yyjson_mut_doc* doc) {
  if (!doc) return;
  void* c = doc->chunks;
  while (c) {
    void* n = *(void**)c;
    free(c);
    c = n;
  }
  free(doc);
}
static void* dm(yyjson_mut_doc* d, size_t n) {
  char* p = (char*)malloc(n + 16);
  *(void**)p = d->chunks;
  d->chunks = p;
  return p + 16;
}
static char* dups(yyjson_mut_doc* d, const char* s, size_t n) {
  char* p = (char*)dm(d, n + 1);
  if (n) memcpy(p, s, n);
  p[n] = 0;
  return p;
}
static yyjson_mut_val* copy(yyjson_mut_doc* d, const yyjson_val* v) {
  yyjson_mut_val* x = (yyjson_mut_val*)dm(d, sizeof *x);
  memset(x, 0, sizeof *x);
  x->type = v->type;
  if (v->key) { x->key = dups(d, v->key, v->key_len); x->key_len = v->key_len; }
  if (v->str) { x->str = dups(d, v->str, v->len); x->len = v->len; }
  yyjson_mut_val** t = &x->child;
  for (const yyjson_val* c = v->child; c; c = c->next) {
    *t = copy(d, c);
    t = &(*t)->next;
  }
  return x;
}
static bool samekey(const yyjson_val* a, const yyjson_val* b) { return a->key_len == b->key_len && !memcmp(a->key, b->key, a->key_len); }
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* d, yyjson_val* orig, yyjson_val* patch) {
  if (patch->type != 'o') return copy(d, patch);
  yyjson_mut_val* x = (yyjson_mut_val*)dm(d, sizeof *x);
  memset(x, 0, sizeof *x);
  x->type = 'o';
  if (patch->key) { x->key = dups(d, patch->key, patch->key_len); x->key_len = patch->key_len; }
  yyjson_mut_val** t = &x->child;
  if (orig && orig->type == 'o')
    for (yyjson_val* o = orig->child; o; o = o->next) {
      bool hit = false;
      for (yyjson_val* p = patch->child; p; p = p->next) hit = hit || samekey(o, p);
      if (!hit) {
        *t = copy(d, o);
        t = &(*t)->next;
      }
    }
  for (yyjson_val* p = patch->child; p; p = p->next) {
    if (p->type == 'n') continue;
    yyjson_val* o = NULL;
    if (orig && orig->type == 'o')
      for (yyjson_val* q = orig->child; q; q = q->next)
        if (samekey(q, p)) o = q;
    *t = yyjson_merge_patch(d, o, p);
    t = &(*t)->next;
  }
  return x;
}
typedef struct { char* b; size_t n, cap; } wr_t;
static void put(wr_t* w, const char* s, size_t n) {
  if (w->b && w->n + n < w->cap) memcpy(w->b + w->n, s, n);
  w->n += n;
}
static void wv(wr_t* w, const yyjson_mut_val* v) {
  switch (v->type) {
    case 'o':
    case 'a':
      put(w, v->type == 'o' ? "{" : "[", 1);
      for (const yyjson_mut_val* c = v->child; c; c = c->next) {
        if (c != v->child) put(w, ",", 1);
        if (v->type == 'o') {
          put(w, "\"", 1);
          put(w, c->key, c->key_len);
          put(w, "\":", 2);
        }
        wv(w, c);
      }
      put(w, v->type == 'o' ? "}" : "]", 1);
      break;
    case 's':
      put(w, "\"", 1);
      put(w, v->str, v->len);
      put(w, "\"", 1);
      break;
    default:
      put(w, v->str, v->len);
  }
}
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err) {
  (void)flg;
  yyjson_write_err dummy;
  if (!err) err = &dummy;
  memset(err, 0, sizeof *err);
  const yyjson_alc* a = alc ? alc : &std_alc;
  wr_t w = {NULL, 0, 0};
  if (!doc || !doc->root) { err->code = 1; err->msg = "input JSON is invalid"; return NULL; }
  wv(&w, doc->root);
  w.cap = w.n + 1;
  w.b = (char*)a->malloc(a->ctx, w.cap);
  if (!w.b) { err->code = 2; err->msg = "memory allocation failed"; return NULL; }
  w.n = 0;
  wv(&w, doc->root);
  w.b[w.n] = 0;
  if (len) *len = w.n;
  return w.b;
}
