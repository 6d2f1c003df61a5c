// Native replay runtime: executes a harness against the real build with a recorded assignment.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "sx.h"
// heap blocks allocated by the program itself (linked with --wrap)
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static struct Blk { void *p; size_t n; } *blk; static size_t nblk, cblk, hcount, hbytes;
static size_t slot(void *p, int add) { size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (cblk - 1); while (blk[i].p != p) { if (!blk[i].p && add) return i; if (!blk[i].p) return (size_t)-1; i = (i + 1) & (cblk - 1); } return i; }
static void put(void *p, size_t n) { if (!p) return; if (!blk) { cblk = (size_t)1 << 20; blk = __real_calloc(cblk, sizeof *blk); } size_t i = slot(p, 1); if (!blk[i].p) { if (++nblk > cblk / 2) _exit(4); } blk[i].p = p; blk[i].n = n + 1; hcount++; hbytes += n; }
static void del(void *p) { if (!p || !blk) return; size_t i = slot(p, 0); if (i == (size_t)-1 || !blk[i].n) return; hcount--; hbytes -= blk[i].n - 1; blk[i].n = 0; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); put(p, n); return p; } void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); put(p, a * b); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); } void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p || !n) { del(o); put(p, n); } return p; }
uint64_t sx_heap_live(void) { return hcount; } uint64_t sx_heap_bytes(void) { return hbytes; }
void *__real_realloc(void *, size_t);
static struct { char *name; unsigned w; uint64_t v; int used; } *in; static int nin; static struct { char name[128]; int n; } cnt[4096]; static int ncnt;
static void load(void) { static int done; if (done) return; done = 1; const char *p = getenv("SX_INPUT"); FILE *f = p ? fopen(p, "r") : NULL; if (!f) { fprintf(stderr, "replay: no SX_INPUT\n"); _exit(3); }
  char nm[512]; unsigned w; unsigned long long v; while (fscanf(f, "%511s %u %llx", nm, &w, &v) == 3) { in = __real_realloc(in, sizeof *in * (size_t)(nin + 1)); in[nin].name = strdup(nm); in[nin].w = w; in[nin].v = v; nin++; } fclose(f); }
static int occ(const char *n) { for (int i = 0; i < ncnt; i++) if (strcmp(cnt[i].name, n) == 0) return cnt[i].n++; snprintf(cnt[ncnt].name, 128, "%s", n); cnt[ncnt].n = 1; ncnt++; return 0; }
static uint64_t get(const char *key) { for (int i = 0; i < nin; i++) if (strcmp(in[i].name, key) == 0) return in[i].v; return 0; }
uint64_t sx_sym(const char *name, int bits) { load(); char k[512]; snprintf(k, sizeof k, "%s#%d", name, occ(name)); uint64_t v = get(k); return bits >= 64 ? v : v & (((uint64_t)1 << bits) - 1); }
void sx_bytes(void *p, uint64_t n, const char *name) { load(); int o = occ(name); for (uint64_t i = 0; i < n; i++) { char k[512]; snprintf(k, sizeof k, "%s#%d[%llu]", name, o, (unsigned long long)i); ((unsigned char *)p)[i] = (unsigned char)get(k); } }
void sx_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption false\n"); _exit(98); } }
void sx_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", m); fflush(stderr); _exit(99); } }
void sx_cover(const char *l) { (void)l; } int sx_is_concrete(const void *p, uint64_t n) { (void)p; (void)n; return 1; } int sx_is_sym(uint64_t v) { (void)v; return 0; } uint64_t sx_concretize(uint64_t v) { return v; } int sx_feasible(int c) { return c; }
int sx_param(const char *n, int d) { char k[256]; snprintf(k, sizeof k, "SXP_%s", n); const char *v = getenv(k); return v ? (int)strtol(v, 0, 0) : d; }
void sx_exit(int c) { (void)c; fprintf(stderr, "REPLAY: path end\n"); _exit(0); }
void sx_log(const char *m, uint64_t v) { fprintf(stderr, "log %s %lld\n", m, (long long)v); } uint64_t sx_icount(void) { return 0; }
void sx_file_put(const char *n, const void *d, uint64_t l) { if (*n != '/' && !strstr(n, "..")) { char t[300]; snprintf(t, sizeof t, "%s", n); for (char *q = t; (q = strchr(q, '/')); q++) { *q = 0; mkdir(t, 0700); *q = '/'; } } FILE *f = fopen(n, "wb"); if (f) { fwrite(d, 1, l, f); fclose(f); } }
int64_t sx_file_get(const char *n, void *d, uint64_t cap) { FILE *f = fopen(n, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long l = ftell(f); rewind(f); (void)!fread(d, 1, (size_t)((uint64_t)l < cap ? (uint64_t)l : cap), f); fclose(f); return l; }
static int sv = -1; void sx_out_begin(void) { fflush(stdout); sv = dup(1); int fd = open(".sx_out", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
int64_t sx_out_end(char *b, uint64_t cap) { fflush(stdout); dup2(sv, 1); close(sv); FILE *f = fopen(".sx_out", "rb"); size_t n = fread(b, 1, cap - 1, f); b[n] = 0; fseek(f, 0, SEEK_END); long l = ftell(f); fclose(f); return l; }
int sx_open_files = 0;
#ifdef SX_WRAP_RAND
int rand(void) { return (int)sx_sym("rand", 32); } void srand(unsigned s) { (void)s; }
#endif
#include <dlfcn.h>
int main(void) { const char *e = getenv("SX_ENTRY"); void (*fn)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, e ? e : "harness"); if (!fn) { fprintf(stderr, "replay: no entry\n"); return 3; } fn(); fprintf(stderr, "REPLAY: completed\n"); return 0; }
