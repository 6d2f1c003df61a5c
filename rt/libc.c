// Small C library model, executed symbolically together with the code under test.
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <errno.h>
#include <sys/stat.h>
#include <time.h>
#include "sx.h"
typedef struct _IO_FILE FILE;
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t); void *memset(void *, int, size_t); int memcmp(const void *, const void *, size_t); size_t strlen(const char *);
int sx_fmt_double(char *buf, uint64_t cap, const char *fmt, double d); double sx_strtod(const char *s, char **e);

static int g_errno; int *__errno_location(void) { return &g_errno; }
int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; } long long llabs(long long x) { return x < 0 ? -x : x; }

char *strcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int strcmp(const char *a, const char *b) { size_t i = 0; for (;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (size_t i = 0;; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
char *strstr(const char *h, const char *n) { size_t hl = strlen(h), nl = strlen(n); for (size_t i = 0; i + nl <= hl; i++) if (memcmp(h + i, n, nl) == 0) return (char *)(h + i); return 0; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { for (size_t i = 0; i + nl <= hl; i++) if (memcmp((char *)h + i, n, nl) == 0) return (char *)h + i; return 0; }
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) if (!strchr(a, s[i])) break; return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) if (strchr(a, s[i])) break; return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
char *strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
static char *g_tok; char *strtok(char *s, const char *d) { return strtok_r(s, d, &g_tok); }
static void swapb(char *a, char *b, size_t n) { for (size_t i = 0; i < n; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) swapb(p + (j - 1) * sz, p + j * sz, sz); }

static const double p10[] = {1e0,1e1,1e2,1e3,1e4,1e5,1e6,1e7,1e8,1e9,1e10,1e11,1e12,1e13,1e14,1e15,1e16,1e17,1e18,1e19,1e20,1e21,1e22};
static size_t conclen(const char *s) { size_t i = 0; for (; i < 400; i++) { if (!sx_is_concrete(s + i, 1)) return (size_t)-1; char c = s[i]; if (!(isalnum(c) || c == '.' || c == '+' || c == '-' || isspace(c))) return i; } return i; }
// Decimal subset of strtod; concrete text goes to the host strtod. Exact when <= 15 significant digits and |exp10| <= 22.
double strtod(const char *s, char **end) {
  if (conclen(s) != (size_t)-1) return sx_strtod(s, end);
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  uint64_t m = 0; int nd = 0, e10 = 0, any = 0;
  if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { // hexadecimal integers of up to 13 digits
    for (p += 2; isxdigit((unsigned char)*p); p++) { int c = (unsigned char)*p; m = m * 16 + (uint64_t)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
    if (end) *end = (char *)p; return neg ? -(double)m : (double)m; }
  for (; isdigit((unsigned char)*p); p++) { any = 1; m = m * 10 + (uint64_t)(*p - '0'); nd++; }
  if (*p == '.') { const char *q = p + 1; if (any || isdigit((unsigned char)*q)) { for (; isdigit((unsigned char)*q); q++) { any = 1; m = m * 10 + (uint64_t)(*q - '0'); nd++; e10--; } p = q; } }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; int en = 0, ev = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++; if (isdigit((unsigned char)*q)) { for (; isdigit((unsigned char)*q); q++) ev = ev * 10 + (*q - '0'); p = q; e10 += en ? -ev : ev; } }
  double d = (double)m; if (e10 < 0) { e10 = -e10; if (e10 > 22) { d = 0; } else d = d / p10[e10]; } else if (e10 > 0) { if (e10 > 22) d = d * 1e300 * 1e300; else d = d * p10[e10]; }
  if (end) *end = (char *)p; return neg ? -d : d;
}
double atof(const char *s) { return strtod(s, 0); }
long strtol(const char *s, char **end, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ov = 0; for (;; p++) { int c = (unsigned char)*p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = tolower(c) - 'a' + 10; else break; if (d >= base) break; any = 1; if (v > (0x7fffffffffffffffUL - (unsigned)d) / (unsigned)base) ov = 1; else v = v * (unsigned)base + (unsigned)d; }
  if (end) *end = (char *)(any ? p : s); if (ov) { g_errno = ERANGE; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; } return neg ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

// ---- formatted output
typedef struct { char *b; size_t cap, n; } Out;
static void oc(Out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void os(Out *o, const char *s, size_t n) { if (o->n + n < o->cap) { memcpy(o->b + o->n, s, n); o->n += n; } else for (size_t i = 0; i < n; i++) oc(o, s[i]); }
int vsnprintf(char *b, size_t cap, const char *f, va_list ap) {
  Out o = {b, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { oc(&o, *f); continue; }
    const char *st = f; f++;
    int left = 0, zero = 0, plus = 0, alt = 0, sp = 0; for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') sp = 1; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    int lng = 0; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng++; else lng--; f++; }
    char tmp[400]; const char *s = tmp; size_t n = 0; (void)alt;
    switch (*f) {
      case '%': tmp[0] = '%'; n = 1; break;
      case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
      case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; n = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s); break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        uint64_t v; int neg = 0; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
        if (*f == 'd' || *f == 'i') { int64_t x = lng > 0 ? va_arg(ap, int64_t) : (int64_t)va_arg(ap, int); if (lng == -1) x = (short)x; if (lng <= -2) x = (signed char)x; neg = x < 0; v = neg ? 0 - (uint64_t)x : (uint64_t)x; }
        else if (*f == 'p') v = (uint64_t)va_arg(ap, void *); else { v = lng > 0 ? va_arg(ap, uint64_t) : (uint64_t)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng <= -2) v = (unsigned char)v; }
        char d[32]; int k = 0; const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        if (base == 16) { if (sx_is_sym(v) && prec < 0 && zero && width == 2 && lng <= 0 && v < 256) { d[k++] = dg[v & 15]; d[k++] = dg[v >> 4]; v = 0; } else { while (v) { d[k++] = dg[v & 15]; v >>= 4; } } }
        else while (v) { d[k++] = dg[v % base]; v /= base; }
        if (k == 0 && prec != 0) d[k++] = '0'; while (k < prec && k < 31) d[k++] = '0';
        if (*f == 'p') { tmp[n++] = '0'; tmp[n++] = 'x'; }
        if (neg) tmp[n++] = '-'; else if (plus) tmp[n++] = '+'; else if (sp) tmp[n++] = ' ';
        if (zero && !left && prec < 0) { int pad = width - k - (int)n; while (pad-- > 0) tmp[n++] = '0'; }
        while (k) tmp[n++] = d[--k]; break; }
      case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': {
        double v = va_arg(ap, double); char fm[64]; size_t k = 0; fm[k++] = '%'; for (const char *q = st + 1; q < f && (*q == '-' || *q == '0' || *q == '+' || *q == '#' || *q == ' '); q++) fm[k++] = *q;
        if (prec > 300) prec = 300; if (prec >= 0) { fm[k++] = '.'; if (prec >= 100) fm[k++] = (char)('0' + prec / 100); if (prec >= 10) fm[k++] = (char)('0' + prec / 10 % 10); fm[k++] = (char)('0' + prec % 10); } fm[k++] = *f; fm[k] = 0;
        char *big = malloc(800); n = (size_t)sx_fmt_double(big, 800, fm, v); size_t pad = width > 0 && (size_t)width > n ? (size_t)width - n : 0; if (!left) for (size_t i = 0; i < pad; i++) oc(&o, ' '); os(&o, big, n); if (left) for (size_t i = 0; i < pad; i++) oc(&o, ' '); free(big); continue; }
      default: tmp[0] = '?'; n = 1; break;
    }
    size_t pad = width > 0 && (size_t)width > n ? (size_t)width - n : 0; if (!left) for (size_t i = 0; i < pad; i++) oc(&o, ' ');
    os(&o, s, n); if (left) for (size_t i = 0; i < pad; i++) oc(&o, ' ');
  }
  if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { char *t = malloc(4096); int r = vsnprintf(t, 4096, f, ap); memcpy(b, t, (size_t)r + 1); free(t); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }

// ---- files (in memory)
typedef struct { char *name; unsigned char *data; size_t len, cap; int isdir, gone; } VNode;
typedef struct { int node, rd, wr, app, eof, std; size_t pos; } VFile;
static VNode nodes[512]; static int nnodes; static VFile f_in = {.std = 3}, f_out = {.std = 1}, f_err = {.std = 2};
FILE *stdin = (FILE *)&f_in; FILE *stdout = (FILE *)&f_out; FILE *stderr = (FILE *)&f_err;
static char *cap_buf; static size_t cap_len, cap_cap; static int cap_on;
static unsigned char *in_data; static size_t in_len, in_pos;
int sx_open_files;
void sx_out_begin(void) { cap_on = 1; cap_len = 0; }
int64_t sx_out_end(char *b, uint64_t cap) { cap_on = 0; size_t n = cap_len < cap ? cap_len : cap - 1; if (n) memcpy(b, cap_buf, n); b[n] = 0; return (int64_t)cap_len; }
static char g_cwd[64] = "/w"; void sx_chdir(const char *d) { strcpy(g_cwd, d); }
static int allconc(const char *s) { for (size_t i = 0;; i++) { if (!sx_is_concrete(s + i, 1)) return 0; if (!s[i]) return 1; } }
static const char *norm(const char *p) { // lexical absolute form (concrete names only)
  static char t[4200]; if (!*p || !allconc(p) || strlen(p) > 4000) return p; size_t n = 0; if (*p != '/') { n = strlen(g_cwd); memcpy(t, g_cwd, n); if (n == 1) n = 0; }
  size_t i = 0; while (p[i]) { while (p[i] == '/') i++; size_t j = i; while (p[j] && p[j] != '/') j++; size_t l = j - i; if (l == 0) break; if (l == 1 && p[i] == '.') { } else if (l == 2 && p[i] == '.' && p[i + 1] == '.') { while (n > 0 && t[n - 1] != '/') n--; if (n > 0) n--; } else { t[n++] = '/'; memcpy(t + n, p + i, l); n += l; } i = j; }
  if (n == 0) t[n++] = '/'; t[n] = 0; return t; }
// storage of the model itself, not part of the program's heap
static unsigned char g_arena[1 << 20]; static size_t g_at; static void *aalloc(size_t n) { void *p = g_arena + g_at; g_at += (n + 15) & ~(size_t)15; if (g_at > sizeof g_arena) __builtin_trap(); return p; }
static char *adup(const char *s) { size_t n = strlen(s) + 1; char *p = aalloc(n); memcpy(p, s, n); return p; }
static int findn(const char *name) { name = norm(name); for (int i = 0; i < nnodes; i++) if (!nodes[i].gone && strcmp(nodes[i].name, name) == 0) return i; return -1; }
static int addn(const char *name) { name = norm(name); int i = nnodes++; nodes[i].name = adup(name); nodes[i].data = 0; nodes[i].len = nodes[i].cap = 0; return i; }
static void growd(unsigned char **d, size_t *cap, size_t need) { if (need > *cap) { size_t c = need * 2 + 64; unsigned char *q = aalloc(c); if (*cap) memcpy(q, *d, *cap); *d = q; *cap = c; } }
void sx_file_put(const char *name, const void *data, uint64_t n) { int i = findn(name); if (i < 0) i = addn(name); growd(&nodes[i].data, &nodes[i].cap, n + 1); memcpy(nodes[i].data, data, n); nodes[i].len = n; }
int64_t sx_file_get(const char *name, void *data, uint64_t cap) { int i = findn(name); if (i < 0) return -1; size_t n = nodes[i].len < cap ? nodes[i].len : cap; if (n) memcpy(data, nodes[i].data, n); return (int64_t)nodes[i].len; }
FILE *fopen(const char *name, const char *mode) {
  int i = findn(name); char m = mode[0]; int plus = strchr(mode, '+') != 0; if (m != 'r' && m != 'w' && m != 'a') { g_errno = EINVAL; return 0; }
  if (!*name) { g_errno = ENOENT; return 0; }
  if (m == 'r' && i < 0) { g_errno = ENOENT; return 0; } if (i >= 0 && nodes[i].isdir && m != 'r') { g_errno = EISDIR; return 0; } if (i < 0) i = addn(name); if (m == 'w') nodes[i].len = 0;
  VFile *f = malloc(sizeof *f); f->node = i; f->rd = m == 'r' || plus; f->wr = m != 'r' || plus; f->app = m == 'a'; f->eof = 0; f->std = 0; f->pos = 0; sx_open_files++; return (FILE *)f; }
int fclose(FILE *p) { VFile *f = (VFile *)p; if (f->std) return 0; sx_open_files--; free(f); return 0; }
size_t fwrite(const void *b, size_t sz, size_t cnt, FILE *p) { VFile *f = (VFile *)p; size_t n = sz * cnt; if (!n) return 0;
  if (f->std == 1) { if (cap_on) { growd((unsigned char **)&cap_buf, &cap_cap, cap_len + n + 1); memcpy(cap_buf + cap_len, b, n); cap_len += n; } return cnt; } if (f->std) return cnt;
  if (!f->wr) { g_errno = EBADF; return 0; } VNode *v = &nodes[f->node]; size_t at = f->app ? v->len : f->pos; growd(&v->data, &v->cap, at + n + 1); if (at > v->len) memset(v->data + v->len, 0, at - v->len); memcpy(v->data + at, b, n); if (at + n > v->len) v->len = at + n; f->pos = at + n; return cnt; }
size_t fread(void *b, size_t sz, size_t cnt, FILE *p) { VFile *f = (VFile *)p; size_t n = sz * cnt; if (!n) return 0; if (f->std == 3) { size_t k = in_len - in_pos < n ? in_len - in_pos : n; if (k) memcpy(b, in_data + in_pos, k); in_pos += k; if (k < n) f->eof = 1; return k / sz; } if (f->std || !f->rd) { g_errno = EBADF; return 0; }
  VNode *v = &nodes[f->node]; if (v->isdir) { g_errno = EISDIR; return 0; } size_t av = f->pos < v->len ? v->len - f->pos : 0; size_t k = av < n ? av : n; if (k) memcpy(b, v->data + f->pos, k); f->pos += k; if (k < n) f->eof = 1; return k / sz; }
int fgetc(FILE *p) { unsigned char c; return fread(&c, 1, 1, p) == 1 ? c : -1; }
int getc(FILE *p) { return fgetc(p); } int getchar(void) { return fgetc(stdin); }
char *fgets(char *b, int n, FILE *p) { if (n <= 0) return 0; int i = 0; while (i < n - 1) { int c = fgetc(p); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i && n > 1) return 0; b[i] = 0; return b; }
int fputs(const char *s, FILE *p) { fwrite(s, 1, strlen(s), p); return 1; }
int puts(const char *s) { fputs(s, stdout); fwrite("\n", 1, 1, stdout); return 1; }
int fputc(int c, FILE *p) { char x = (char)c; fwrite(&x, 1, 1, p); return (unsigned char)c; }
int putc(int c, FILE *p) { return fputc(c, p); } int putchar(int c) { return fputc(c, stdout); }
int vfprintf(FILE *p, const char *f, va_list ap) { VFile *v = (VFile *)p; if (v->std == 2 || (v->std == 1 && !cap_on)) return 1; va_list a2; va_copy(a2, ap); int n = vsnprintf(0, 0, f, a2); va_end(a2); char *b = malloc((size_t)n + 1); vsnprintf(b, (size_t)n + 1, f, ap); fwrite(b, 1, (size_t)n, p); free(b); return n; }
int fprintf(FILE *p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(p, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int fflush(FILE *p) { (void)p; return 0; } int feof(FILE *p) { return ((VFile *)p)->eof; } int ferror(FILE *p) { (void)p; return 0; } void clearerr(FILE *p) { ((VFile *)p)->eof = 0; }
int fseek(FILE *p, long off, int wh) { VFile *f = (VFile *)p; if (f->std) { g_errno = ESPIPE; return -1; } long b = wh == 0 ? 0 : wh == 1 ? (long)f->pos : (long)nodes[f->node].len; if (wh < 0 || wh > 2 || b + off < 0) { g_errno = EINVAL; return -1; } f->pos = (size_t)(b + off); f->eof = 0; return 0; }
long ftell(FILE *p) { return (long)((VFile *)p)->pos; } void rewind(FILE *p) { fseek(p, 0, 0); }
int fileno(FILE *p) { VFile *f = (VFile *)p; return f->std == 3 ? 0 : f->std ? f->std : 10; } int isatty(int fd) { (void)fd; return 0; }
int access(const char *n, int m) { (void)m; if (findn(n) >= 0 || strcmp(n, "/") == 0 || strcmp(n, ".") == 0) return 0; g_errno = ENOENT; return -1; }
int stat(const char *n, struct stat *st) { int i = findn(n); int d = strcmp(n, "/") == 0 || strcmp(n, ".") == 0; if (i < 0 && !d) { g_errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = d || nodes[i].isdir ? 0040755 : 0100644; st->st_size = d ? 0 : (long)nodes[i].len; return 0; }
#include <fcntl.h>
static struct { int node, used; size_t pos; } g_fd[64]; // descriptors 3..63
static int fdof(int n) { for (int i = 3; i < 64; i++) if (!g_fd[i].used) { g_fd[i].used = 1; g_fd[i].node = n; g_fd[i].pos = 0; sx_open_files++; return i; } g_errno = EMFILE; return -1; }
int creat(const char *n, mode_t m) { (void)m; if (!*n) { g_errno = ENOENT; return -1; } int i = findn(n); if (i >= 0 && nodes[i].isdir) { g_errno = EISDIR; return -1; } if (i < 0) i = addn(n); nodes[i].len = 0; return fdof(i); }
int open(const char *n, int fl, ...) { int i = findn(n); if (fl & O_CREAT) return creat(n, 0); if (i < 0) { g_errno = ENOENT; return -1; } return fdof(i); }
int close(int fd) { if (fd >= 3 && fd < 64 && g_fd[fd].used) { g_fd[fd].used = 0; sx_open_files--; return 0; } if (fd >= 0 && fd < 3) return 0; g_errno = EBADF; return -1; }
int fstat(int fd, struct stat *st) { memset(st, 0, sizeof *st); if (fd >= 3 && fd < 64 && g_fd[fd].used) { st->st_size = (long)nodes[g_fd[fd].node].len; st->st_mode = nodes[g_fd[fd].node].isdir ? 0040755 : 0100644; } else st->st_mode = 0100644; return 0; }
long sendfile(int out, int in, off_t *off, size_t n) { VNode *s = &nodes[g_fd[in].node], *d = &nodes[g_fd[out].node]; if (s->isdir) { g_errno = EINVAL; return -1; } size_t at = (size_t)*off, k = at < s->len ? s->len - at : 0; if (k > n) k = n; growd(&d->data, &d->cap, g_fd[out].pos + k + 1); if (k) memcpy(d->data + g_fd[out].pos, s->data + at, k); g_fd[out].pos += k; if (g_fd[out].pos > d->len) d->len = g_fd[out].pos; *off += (off_t)k; return (long)k; }
int chmod(const char *n, mode_t m) { (void)m; if (findn(n) >= 0) return 0; g_errno = ENOENT; return -1; }
int chown(const char *n, unsigned u, unsigned g) { (void)u; (void)g; if (findn(n) >= 0) return 0; g_errno = ENOENT; return -1; }
int unlink(const char *n) { int i = findn(n); if (i < 0) { g_errno = ENOENT; return -1; } nodes[i].gone = 1; return 0; }
int remove(const char *n) { return unlink(n); }
int rmdir(const char *n) { int i = findn(n); if (i < 0 || !nodes[i].isdir) { g_errno = i < 0 ? ENOENT : ENOTDIR; return -1; } nodes[i].gone = 1; return 0; }
int mkdir(const char *n, mode_t m) { (void)m; if (findn(n) >= 0) { g_errno = EEXIST; return -1; } int i = addn(n); nodes[i].isdir = 1; return 0; }
int rename(const char *a, const char *b) { int i = findn(a); if (i < 0) { g_errno = ENOENT; return -1; } int j = findn(b); if (j >= 0) nodes[j].gone = 1; nodes[i].name = adup(norm(b)); return 0; }
char *getcwd(char *b, size_t n) { size_t l = strlen(g_cwd); if (l + 1 > n) { g_errno = ERANGE; return 0; } memcpy(b, g_cwd, l + 1); return b; }
int chdir(const char *n) { int i = findn(n); const char *t = norm(n); if ((i < 0 || !nodes[i].isdir) && strcmp(t, "/") && strcmp(t, "/w")) { g_errno = i < 0 ? ENOENT : ENOTDIR; return -1; } if (strlen(t) >= sizeof g_cwd) { g_errno = ENAMETOOLONG; return -1; } char u[64]; strcpy(u, t); strcpy(g_cwd, u); return 0; }
// lexical realpath relative to the model's working directory; every path is taken to exist unless it is empty or names a script that is absent
char *realpath(const char *p, char *out) { if (!*p) { g_errno = ENOENT; return 0; } char *t = malloc(9000); size_t n = 0; if (*p != '/') { n = strlen(g_cwd); memcpy(t, g_cwd, n); if (n == 1) n = 0; }
  size_t i = 0; while (p[i]) { while (p[i] == '/') i++; size_t j = i; while (p[j] && p[j] != '/') j++; size_t l = j - i; if (l == 0) break; if (l == 1 && p[i] == '.') { } else if (l == 2 && p[i] == '.' && p[i + 1] == '.') { while (n > 0 && t[n - 1] != '/') n--; if (n > 0) n--; } else { t[n++] = '/'; memcpy(t + n, p + i, l); n += l; } i = j; }
  if (n == 0) t[n++] = '/'; t[n] = 0; if (n > 3 && memcmp(t + n - 3, ".du", 3) == 0 && findn(t) < 0) { free(t); g_errno = ENOENT; return 0; } if (!out) out = malloc(4096); memcpy(out, t, n + 1); free(t); return out; }
// ---- environment, errors, misc
static char *env_k[16], *env_v[16]; static int env_n;
static char *g_environ[1]; char **environ = g_environ;
char *getenv(const char *k) { for (int i = 0; i < env_n; i++) if (env_k[i] && strcmp(env_k[i], k) == 0) return env_v[i]; return 0; }
int unsetenv(const char *k) { for (int i = 0; i < env_n; i++) if (env_k[i] && strcmp(env_k[i], k) == 0) env_k[i] = 0; return 0; }
int setenv(const char *k, const char *v, int o) { if (!*k || strchr(k, '=')) { g_errno = EINVAL; return -1; } if (!o && getenv(k)) return 0; unsetenv(k); env_k[env_n] = adup(k); env_v[env_n++] = adup(v); return 0; }
char *strerror(int e) { static char b[32]; snprintf(b, 32, "errno %d", e); return b; }
int __xpg_strerror_r(int e, char *b, size_t n) { snprintf(b, n, "errno %d", e); return 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; sx_assert_(0, e); for (;;) {} }
void exit(int c) { sx_exit(c); } void _exit(int c) { sx_exit(c); }
int rand(void) { int32_t r = (int32_t)sx_sym("rand", 32); sx_assume(r >= 0); return r; }
void srand(unsigned s) { (void)s; }
time_t sx_now = 1700000000; time_t time(time_t *t) { if (t) *t = sx_now; return sx_now; } clock_t clock(void) { return 1000; }
int gettimeofday(void *tv, void *tz) { (void)tz; long *p = tv; p[0] = sx_now; p[1] = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = sx_now; t->tv_nsec = 0; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return 0; } int usleep(unsigned u) { (void)u; return 0; } unsigned sleep(unsigned s) { (void)s; return 0; }
int getpid(void) { return 4242; } int getppid(void) { return 1; } unsigned getuid(void) { return 0; } unsigned geteuid(void) { return 0; } unsigned getgid(void) { return 0; } unsigned getegid(void) { return 0; }
// ---- system information, calendar (UTC), random bytes, directories
#include <sys/utsname.h>
#include <dirent.h>
int uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->sysname, "Linux"); strcpy(u->nodename, "host"); strcpy(u->release, "6.0"); strcpy(u->version, "1"); strcpy(u->machine, "x86_64"); return 0; }
struct tm *gmtime_r(const time_t *t, struct tm *r) { long d = *t / 86400, s = *t % 86400; if (s < 0) { s += 86400; d--; } memset(r, 0, sizeof *r); r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s / 60 % 60); r->tm_sec = (int)(s % 60); r->tm_wday = (int)(((d + 4) % 7 + 7) % 7);
  long z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned long doe = (unsigned long)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = (long)yoe + era * 400; unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; unsigned dd = (unsigned)(doy - (153 * mp + 2) / 5 + 1), m = (unsigned)(mp < 10 ? mp + 3 : mp - 9); if (m <= 2) y++;
  r->tm_year = (int)(y - 1900); r->tm_mon = (int)m - 1; r->tm_mday = (int)dd; static const int cum[] = {0,31,59,90,120,151,181,212,243,273,304,334}; int leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; r->tm_yday = cum[r->tm_mon] + (int)dd - 1 + (leap && r->tm_mon > 1); return r; }
static struct tm g_tm; struct tm *gmtime(const time_t *t) { return gmtime_r(t, &g_tm); } struct tm *localtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); } struct tm *localtime(const time_t *t) { return gmtime_r(t, &g_tm); }
time_t timegm(struct tm *t) { long y = t->tm_year + 1900L; int m = t->tm_mon + 1; if (m <= 2) y--; long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400, doy = (153L * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return (era * 146097 + doe - 719468) * 86400 + t->tm_hour * 3600L + t->tm_min * 60 + t->tm_sec; }
time_t mktime(struct tm *t) { time_t r = timegm(t); gmtime_r(&r, t); return r; }
static const char *const wd[] = {"Sunday","Monday","Tuesday","Wednesday","Thursday","Friday","Saturday"}, *const mn[] = {"January","February","March","April","May","June","July","August","September","October","November","December"};
static size_t sfp(char *b, size_t cap, size_t n, const char *s, size_t l) { for (size_t i = 0; i < l; i++) { if (n + 1 < cap) b[n] = s[i]; n++; } return n; }
size_t strftime(char *b, size_t cap, const char *f, const struct tm *t) { size_t n = 0; char x[32]; for (; *f; f++) { if (*f != '%') { n = sfp(b, cap, n, f, 1); continue; } f++; const char *s = x; int k;
    switch (*f) { case 'Y': snprintf(x, 32, "%d", t->tm_year + 1900); break; case 'm': snprintf(x, 32, "%02d", t->tm_mon + 1); break; case 'd': snprintf(x, 32, "%02d", t->tm_mday); break; case 'H': snprintf(x, 32, "%02d", t->tm_hour); break; case 'M': snprintf(x, 32, "%02d", t->tm_min); break; case 'S': snprintf(x, 32, "%02d", t->tm_sec); break; case 'j': snprintf(x, 32, "%03d", t->tm_yday + 1); break; case 'A': s = wd[t->tm_wday]; break; case 'B': s = mn[t->tm_mon]; break; case 'a': snprintf(x, 32, "%.3s", wd[t->tm_wday]); break; case 'b': snprintf(x, 32, "%.3s", mn[t->tm_mon]); break;
      case 'c': k = (int)strftime(x, 32, "%a %b ", t); snprintf(x + k, (size_t)(32 - k), "%2d %02d:%02d:%02d %d", t->tm_mday, t->tm_hour, t->tm_min, t->tm_sec, t->tm_year + 1900); break; case 'Z': s = "UTC"; break; case 'F': snprintf(x, 32, "%d-%02d-%02d", t->tm_year + 1900, t->tm_mon + 1, t->tm_mday); break; case 'T': snprintf(x, 32, "%02d:%02d:%02d", t->tm_hour, t->tm_min, t->tm_sec); break; case 'y': snprintf(x, 32, "%02d", t->tm_year % 100); break; case '%': s = "%"; break; case 'n': s = "\n"; break; case 't': s = "\t"; break; case 0: f--; s = "%"; break; default: x[0] = '%'; x[1] = *f; x[2] = 0; }
    n = sfp(b, cap, n, s, strlen(s)); } if (n < cap) { b[n] = 0; return n; } return 0; }
static const char *spn(const char *s, int digits, int lo, int hi, int *v) { int n = 0, x = 0; while (*s == ' ') s++; while (n < digits && *s >= '0' && *s <= '9') { x = x * 10 + (*s++ - '0'); n++; } if (!n || x < lo || x > hi) return 0; *v = x; return s; }
static const char *spw(const char *s, const char *const *names, int cnt, int *v) { for (int i = 0; i < cnt; i++) { size_t l = strlen(names[i]); if (strncasecmp(s, names[i], l) == 0) { *v = i; return s + l; } if (strncasecmp(s, names[i], 3) == 0) { *v = i; return s + 3; } } return 0; }
char *strptime(const char *s, const char *f, struct tm *t) { int v; // the common conversions; any other fails
  for (; *f; f++) { if (*f == ' ') { while (*s == ' ') s++; continue; } if (*f != '%') { if (*s++ != *f) return 0; continue; }
    switch (*++f) { case 'Y': if (!(s = spn(s, 4, 0, 9999, &v))) return 0; t->tm_year = v - 1900; break; case 'y': if (!(s = spn(s, 2, 0, 99, &v))) return 0; t->tm_year = v < 69 ? v + 100 : v; break; case 'm': if (!(s = spn(s, 2, 1, 12, &v))) return 0; t->tm_mon = v - 1; break; case 'd': case 'e': if (!(s = spn(s, 2, 1, 31, &t->tm_mday))) return 0; break; case 'H': if (!(s = spn(s, 2, 0, 23, &t->tm_hour))) return 0; break; case 'M': if (!(s = spn(s, 2, 0, 59, &t->tm_min))) return 0; break; case 'S': if (!(s = spn(s, 2, 0, 61, &t->tm_sec))) return 0; break;
      case 'B': case 'b': case 'h': if (!(s = spw(s, mn, 12, &t->tm_mon))) return 0; break; case 'A': case 'a': if (!(s = spw(s, wd, 7, &t->tm_wday))) return 0; break; case 'F': if (!(s = strptime(s, "%Y-%m-%d", t))) return 0; break; case 'T': if (!(s = strptime(s, "%H:%M:%S", t))) return 0; break; case 'D': if (!(s = strptime(s, "%m/%d/%y", t))) return 0; break; case 'R': if (!(s = strptime(s, "%H:%M", t))) return 0; break; case '%': if (*s++ != '%') return 0; break; case 'n': case 't': while (*s == ' ' || *s == 10 || *s == 9) s++; break; default: return 0; } }
  return (char *)s; }
char *asctime_r(const struct tm *t, char *b) { strftime(b, 26, "%c\n", t); return b; }
int getentropy(void *p, size_t n) { sx_bytes(p, n, "entropy"); return 0; }
typedef struct { int i; char pre[256]; struct dirent e; } VDir;
DIR *opendir(const char *n) { int i = findn(n); if (i < 0 || !nodes[i].isdir) { g_errno = ENOENT; return 0; } VDir *d = malloc(sizeof *d); d->i = 0; snprintf(d->pre, 256, "%s", nodes[i].name); return (DIR *)d; }
struct dirent *readdir(DIR *p) { VDir *d = (VDir *)p; size_t l = strlen(d->pre); while (d->i < nnodes) { VNode *v = &nodes[d->i++]; if (v->gone || strncmp(v->name, d->pre, l) != 0 || v->name[l] != '/' || strchr(v->name + l + 1, '/')) continue; memset(&d->e, 0, sizeof d->e); snprintf(d->e.d_name, 200, "%s", v->name + l + 1); return &d->e; } return 0; }
int closedir(DIR *p) { free(p); return 0; }
