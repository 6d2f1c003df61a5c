// Harness API. Under the symbolic executor these are intrinsics; in native replay they read a recorded assignment.
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
uint64_t sx_sym(const char *name, int bits);
void sx_bytes(void *p, uint64_t n, const char *name);
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_cover(const char *label);
int sx_is_concrete(const void *p, uint64_t n);
int sx_is_sym(uint64_t v);
uint64_t sx_concretize(uint64_t v);
int sx_feasible(int c);
int sx_param(const char *name, int dflt);
void sx_exit(int code) __attribute__((noreturn));
void sx_log(const char *msg, uint64_t v);
uint64_t sx_heap_live(void);  // live heap blocks
uint64_t sx_heap_bytes(void); // and their sizes
uint64_t sx_icount(void);
void sx_file_put(const char *name, const void *data, uint64_t n);
int64_t sx_file_get(const char *name, void *data, uint64_t cap);
void sx_out_begin(void);
int64_t sx_out_end(char *buf, uint64_t cap);   // NUL-terminated; returns length
#define sx_assert(c, msg) sx_assert_((c) ? 1 : 0, msg)
static inline int64_t sx_range(const char *name, int64_t lo, int64_t hi) { // lo..hi, |values| < 2^31
  int32_t v = (int32_t)sx_sym(name, 32); sx_assume(v >= lo && v <= hi); return v; }
static inline int sx_choose(const char *name, int n) { uint8_t v = (uint8_t)sx_sym(name, 8); sx_assume(v < n); return (int)sx_concretize(v); }
static inline double sx_double(const char *name) { union { uint64_t u; double d; } x; x.u = sx_sym(name, 64); return x.d; }
#endif
