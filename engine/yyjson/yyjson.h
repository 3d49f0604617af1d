// Minimal stand-in for the part of the yyjson API that src/middleware.c uses
// (the real library is an empty submodule here). Written for these checks.
#ifndef YYJSON_STANDIN_H
#define YYJSON_STANDIN_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
typedef uint32_t yyjson_read_code;
typedef uint32_t yyjson_write_code;
static const yyjson_read_flag YYJSON_READ_NOFLAG = 0;
static const yyjson_read_flag YYJSON_READ_INSITU = 1 << 0;
static const yyjson_read_flag YYJSON_READ_STOP_WHEN_DONE = 1 << 1;
static const yyjson_read_flag YYJSON_READ_ALLOW_TRAILING_COMMAS = 1 << 2;
static const yyjson_read_flag YYJSON_READ_ALLOW_COMMENTS = 1 << 3;
static const yyjson_read_flag YYJSON_READ_ALLOW_INF_AND_NAN = 1 << 4;
static const yyjson_write_flag YYJSON_WRITE_NOFLAG = 0;
static const yyjson_write_flag YYJSON_WRITE_PRETTY = 1 << 0;
static const yyjson_write_flag YYJSON_WRITE_ESCAPE_UNICODE = 1 << 1;
static const yyjson_write_flag YYJSON_WRITE_ESCAPE_SLASHES = 1 << 2;
static const yyjson_write_flag YYJSON_WRITE_ALLOW_INF_AND_NAN = 1 << 3;
static const yyjson_read_code YYJSON_READ_SUCCESS = 0;
static const yyjson_write_code YYJSON_WRITE_SUCCESS = 0;

typedef struct yyjson_alc {
  void* (*malloc)(void* ctx, size_t size);
  void* (*realloc)(void* ctx, void* ptr, size_t size);
  void (*free)(void* ctx, void* ptr);
  void* ctx;
} yyjson_alc;
typedef struct yyjson_val yyjson_val;
struct yyjson_val {
  int type;  // 'o' 'a' 's' 'r'(raw: number/true/false) 'n'(null)
  const char* key;
  size_t key_len;
  const char* str;
  size_t len;
  yyjson_val* child;
  yyjson_val* next;
};
typedef yyjson_val yyjson_mut_val;
typedef struct yyjson_doc { yyjson_val* root; } yyjson_doc;
typedef struct yyjson_mut_doc { yyjson_mut_val* root; void* chunks; } yyjson_mut_doc;
typedef struct yyjson_read_err { yyjson_read_code code; const char* msg; size_t pos; } yyjson_read_err;
typedef struct yyjson_write_err { yyjson_write_code code; const char* msg; } yyjson_write_err;

bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size);
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag flg);
yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err);
void yyjson_doc_free(yyjson_doc* doc);
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc);
void yyjson_mut_doc_free(yyjson_mut_doc* doc);
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch);
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err);
static inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? d->root : NULL; }
static inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* v) { d->root = v; }
#ifdef __cplusplus
}
#endif
#endif
