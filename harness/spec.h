// Independent reference definitions, exposed to script harnesses as natives. None of this calls the code under test.
#define SARG(i) AS_CSTRING(a[i])
#define SLEN(i) (AS_STRING(a[i])->length)
#define SPEC(name) static Value spec_##name(DictuVM *vm, int n, Value *a)
#define UN (void)vm; (void)n; (void)a
// a string object outside the interning table (only ever compared by the harness)
static Value spec_str(DictuVM *vm, const char *b, int l) { ObjString *o = malloc(sizeof *o); *o = *vm->initString; o->chars = malloc((size_t)l + 1); memcpy(o->chars, b, (size_t)l); o->chars[l] = 0; o->length = l; return OBJ_VAL(o); }
static int sp_at(const char *h, int hl, const char *n, int nl, int i) { if (i + nl > hl) return 0; int ok = 1; for (int k = 0; k < nl; k++) ok &= h[i + k] == n[k]; return ok; }
static int sp_ws(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int sp_up(char c) { return (c >= 'A') & (c <= 'Z'); }
static int sp_lo(char c) { return (c >= 'a') & (c <= 'z'); }
static char sp_tolo(char c) { return (char)(c + 32 * sp_up(c)); }
static char sp_toup(char c) { return (char)(c - 32 * sp_lo(c)); }
// find(s, t, k): index of the k-th non-overlapping occurrence, or -1
SPEC(find) { UN; int k = n > 2 ? (int)AS_NUMBER(a[2]) : 1; int step = SLEN(1) > 0 ? SLEN(1) : 1; for (int i = 0; i + SLEN(1) <= SLEN(0);) if (sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), i)) { if (--k == 0) return NUMBER_VAL(i); i += step; } else i++; return NUMBER_VAL(-1); }
SPEC(findLast) { UN; int r = -1; for (int i = 0; i + SLEN(1) <= SLEN(0); i++) if (sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), i)) r = i; return NUMBER_VAL(r); }
SPEC(count) { UN; int c = 0; for (int i = 0; i + SLEN(1) <= SLEN(0); i++) c += sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), i); return NUMBER_VAL(c); }
SPEC(contains) { UN; int c = 0; for (int i = 0; i + SLEN(1) <= SLEN(0); i++) c |= sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), i); return BOOL_VAL(c); }
SPEC(startsWith) { UN; return BOOL_VAL(sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), 0)); }
SPEC(endsWith) { UN; return BOOL_VAL(SLEN(1) <= SLEN(0) && sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), SLEN(0) - SLEN(1))); }
SPEC(lower) { UN; char b[512]; for (int i = 0; i < SLEN(0); i++) b[i] = sp_tolo(SARG(0)[i]); return spec_str(vm, b, SLEN(0)); }
SPEC(upper) { UN; char b[512]; for (int i = 0; i < SLEN(0); i++) b[i] = sp_toup(SARG(0)[i]); return spec_str(vm, b, SLEN(0)); }
// title: a letter that starts the string or follows a space is upper case, every other letter lower case
SPEC(title) { UN; char b[512]; int st = 1; for (int i = 0; i < SLEN(0); i++) { char c = SARG(0)[i]; b[i] = st ? sp_toup(c) : sp_tolo(c); st = c == ' '; } return spec_str(vm, b, SLEN(0)); }
SPEC(isUpper) { UN; int ok = SLEN(0) > 0; for (int i = 0; i < SLEN(0); i++) ok &= !sp_lo(SARG(0)[i]); return BOOL_VAL(ok); }
SPEC(isLower) { UN; int ok = SLEN(0) > 0; for (int i = 0; i < SLEN(0); i++) ok &= !sp_up(SARG(0)[i]); return BOOL_VAL(ok); }
SPEC(strip) { UN; int l = 0, r = SLEN(0), mode = (int)AS_NUMBER(a[1]); if (mode & 1) while (l < r && sp_ws(SARG(0)[l])) l++; if (mode & 2) while (r > l && sp_ws(SARG(0)[r - 1])) r--; return spec_str(vm, SARG(0) + l, r - l); }
SPEC(repeat) { UN; char b[2048]; int l = 0; for (int k = 0; k < (int)AS_NUMBER(a[1]); k++) for (int i = 0; i < SLEN(0); i++) b[l++] = SARG(0)[i]; return spec_str(vm, b, l); }
// replace every non-overlapping occurrence, left to right (an empty needle occurs nowhere)
SPEC(replace) { UN; char b[2048]; int l = 0; for (int i = 0; i < SLEN(0);) if (SLEN(1) > 0 && sp_at(SARG(0), SLEN(0), SARG(1), SLEN(1), i)) { for (int k = 0; k < SLEN(2); k++) b[l++] = SARG(2)[k]; i += SLEN(1); } else b[l++] = SARG(0)[i++]; return spec_str(vm, b, l); }
// collapseSpaces: leading whitespace dropped, each other run of whitespace reduced to its first character
SPEC(collapse) { UN; char b[512]; int l = 0, prev = 1; for (int i = 0; i < SLEN(0); i++) { int w = sp_ws(SARG(0)[i]); if (!w || !prev) b[l++] = SARG(0)[i]; prev = w; } return spec_str(vm, b, l); }
SPEC(wordCount) { UN; int c = 0, in = 0; for (int i = 0; i < SLEN(0); i++) { char ch = SARG(0)[i]; int al = sp_up(ch) | sp_lo(ch), w = sp_ws(ch); c += al & !in; in = (in | al) & !w; } return NUMBER_VAL(c); }
// split(s, d, max): number of pieces; splitAt(s, d, max, i): piece i. max < 0: unlimited. Empty delimiter: one piece per character.
static int sp_split(const char *s, int sl, const char *d, int dl, int max, int want, int *from, int *to) {
  int c = 0, st = 0, i = 0;
  if (dl == 0) { while (st < sl && (max < 0 || c < max)) { if (c == want) { *from = st; *to = st + 1; } st++; c++; } if (st < sl) { if (c == want) { *from = st; *to = sl; } c++; } return c; }
  while (i <= sl) { if ((max < 0 || c < max) && sp_at(s, sl, d, dl, i)) { if (c == want) { *from = st; *to = i; } c++; i += dl; st = i; } else i++; }
  if (c == want) { *from = st; *to = sl; } return c + 1; }
SPEC(splitN) { UN; int f, t; return NUMBER_VAL(sp_split(SARG(0), SLEN(0), SARG(1), SLEN(1), (int)AS_NUMBER(a[2]), -1, &f, &t)); }
SPEC(splitAt) { UN; int f = 0, t = 0; sp_split(SARG(0), SLEN(0), SARG(1), SLEN(1), (int)AS_NUMBER(a[2]), (int)AS_NUMBER(a[3]), &f, &t); return spec_str(vm, SARG(0) + f, t - f); }
SPEC(slice) { UN; int f = (int)AS_NUMBER(a[1]), t = (int)AS_NUMBER(a[2]), l = SLEN(0); if (f < 0) { f += l; if (f < 0) f = 0; } if (t < 0) t += l; if (t > l) t = l; if (f >= t) f = t = 0; return spec_str(vm, SARG(0) + f, t - f); }
SPEC(charAt) { UN; int i = (int)AS_NUMBER(a[1]); if (i < 0) i += SLEN(0); return spec_str(vm, SARG(0) + i, 1); }
SPEC(cat) { UN; char b[2048]; int l = 0; for (int k = 0; k < n; k++) for (int i = 0; i < SLEN(k); i++) b[l++] = SARG(k)[i]; return spec_str(vm, b, l); }
// byte-wise order: -1, 0, 1
SPEC(cmp) { UN; int r = 0; for (int i = (SLEN(0) > SLEN(1) ? SLEN(0) : SLEN(1)) - 1; i >= 0; i--) { int x = i < SLEN(0) ? (unsigned char)SARG(0)[i] : -1, y = i < SLEN(1) ? (unsigned char)SARG(1)[i] : -1; r = x < y ? -1 : x > y ? 1 : r; } return NUMBER_VAL(r); }
// wrapped(s, w): w is s with some whitespace characters turned into newlines, nothing else changed
SPEC(wrapped) { UN; if (SLEN(0) != SLEN(1)) return FALSE_VAL; int ok = 1; for (int i = 0; i < SLEN(0); i++) ok &= (SARG(0)[i] == SARG(1)[i]) | ((SARG(1)[i] == '\n') & sp_ws(SARG(0)[i])); return BOOL_VAL(ok); }
SPEC(byte) { UN; return NUMBER_VAL((double)(int)(unsigned char)SARG(0)[(int)AS_NUMBER(a[1])]); }
SPEC(chr) { UN; char c = (char)(int)AS_NUMBER(a[0]); return spec_str(vm, &c, 1); }
// An array model of a list (ml_*) and an association model of a dictionary / set (md_*), compared with the real object by ml_match / md_match.
static Value ml[8][64]; static int mln[8];
#define MI(i) ((int)AS_NUMBER(a[i]))
static int ml_eqv(Value x, Value y) { if (IS_NUMBER(x) && IS_NUMBER(y)) return (AS_NUMBER(x) == AS_NUMBER(y)) | (x == y); return hx_eq(x, y); }
SPEC(ml_new) { UN; mln[MI(0)] = 0; return NIL_VAL; }
SPEC(ml_push) { UN; ml[MI(0)][mln[MI(0)]++] = a[1]; return NIL_VAL; }
SPEC(ml_insert) { UN; int m = MI(0), i = (int)sx_concretize((uint64_t)(int64_t)MI(2)); for (int k = mln[m]; k > i; k--) ml[m][k] = ml[m][k - 1]; ml[m][i] = a[1]; mln[m]++; return NIL_VAL; }
SPEC(ml_pop) { UN; int m = MI(0), i = (int)sx_concretize((uint64_t)(int64_t)MI(1)); Value v = ml[m][i]; for (int k = i; k + 1 < mln[m]; k++) ml[m][k] = ml[m][k + 1]; mln[m]--; return v; }
SPEC(ml_find) { UN; int m = MI(0), r = -1; for (int k = mln[m] - 1; k >= 0; k--) r = ml_eqv(ml[m][k], a[1]) ? k : r; return NUMBER_VAL(r); }
SPEC(ml_set) { UN; ml[MI(0)][(int)sx_concretize((uint64_t)(int64_t)MI(1))] = a[2]; return NIL_VAL; }
SPEC(ml_get) { UN; return ml[MI(0)][(int)sx_concretize((uint64_t)(int64_t)MI(1))]; }
SPEC(ml_len) { UN; return NUMBER_VAL(mln[MI(0)]); }
SPEC(ml_reverse) { UN; int m = MI(0), l = mln[m]; for (int k = 0; k < l / 2; k++) { Value t = ml[m][k]; ml[m][k] = ml[m][l - 1 - k]; ml[m][l - 1 - k] = t; } return NIL_VAL; }
SPEC(ml_copy) { UN; int d = MI(0), s = MI(1); mln[d] = mln[s]; for (int k = 0; k < mln[s]; k++) ml[d][k] = ml[s][k]; return NIL_VAL; }
SPEC(ml_append) { UN; int d = MI(0), s = MI(1), l = mln[s]; for (int k = 0; k < l; k++) ml[d][mln[d]++] = ml[s][k]; return NIL_VAL; }
SPEC(ml_slice) { UN; int d = MI(0), s = MI(1), f = (int)sx_concretize((uint64_t)(int64_t)MI(2)), t = (int)sx_concretize((uint64_t)(int64_t)MI(3)), l = mln[s]; Value tmp[64]; int c = 0; if (f < 0) f = 0; if (t < 0) t += l; if (t > l) t = l; for (int k = f; k < t; k++) tmp[c++] = ml[s][k]; mln[d] = c; memcpy(ml[d], tmp, sizeof(Value) * (size_t)c); return NIL_VAL; }
SPEC(ml_match) { UN; int m = MI(0); if (!IS_LIST(a[1])) return FALSE_VAL; ObjList *l = AS_LIST(a[1]); if (l->values.count != mln[m] || l->values.capacity < l->values.count) return FALSE_VAL; int ok = 1; for (int k = 0; k < mln[m]; k++) ok &= ml_eqv(l->values.values[k], ml[m][k]); return BOOL_VAL(ok); }
// ml_perm(m, list): the list is a permutation of the model
SPEC(ml_perm) { UN; int m = MI(0); if (!IS_LIST(a[1])) return FALSE_VAL; ObjList *l = AS_LIST(a[1]); if (l->values.count != mln[m]) return FALSE_VAL; int ok = 1; for (int i = 0; i < mln[m]; i++) { int x = 0, y = 0; for (int k = 0; k < mln[m]; k++) { x += ml_eqv(ml[m][i], ml[m][k]); y += ml_eqv(ml[m][i], l->values.values[k]); } ok &= x == y; } return BOOL_VAL(ok); }
static Value mdk[4][64], mdv[4][64]; static int mdn[4];
static int md_at(int m, Value k) { for (int i = 0; i < mdn[m]; i++) if (ml_eqv(mdk[m][i], k)) return i; return -1; }
SPEC(md_new) { UN; mdn[MI(0)] = 0; return NIL_VAL; }
SPEC(md_set) { UN; int m = MI(0), i = md_at(m, a[1]); if (i < 0) { i = mdn[m]++; mdk[m][i] = a[1]; } mdv[m][i] = n > 2 ? a[2] : NIL_VAL; return NIL_VAL; }
SPEC(md_has) { UN; return BOOL_VAL(md_at(MI(0), a[1]) >= 0); }
SPEC(md_get) { UN; int i = md_at(MI(0), a[1]); return i < 0 ? NIL_VAL : mdv[MI(0)][i]; }
SPEC(md_del) { UN; int m = MI(0), i = md_at(m, a[1]); if (i < 0) return FALSE_VAL; mdn[m]--; mdk[m][i] = mdk[m][mdn[m]]; mdv[m][i] = mdv[m][mdn[m]]; return TRUE_VAL; }
SPEC(md_len) { UN; return NUMBER_VAL(mdn[MI(0)]); }
SPEC(md_key) { UN; return mdk[MI(0)][MI(1)]; }
#define SPECS X(ml_new) X(ml_push) X(ml_insert) X(ml_pop) X(ml_find) X(ml_set) X(ml_get) X(ml_len) X(ml_reverse) X(ml_copy) X(ml_append) X(ml_slice) X(ml_match) X(ml_perm) X(md_new) X(md_set) X(md_has) X(md_get) X(md_del) X(md_len) X(md_key) X(find) X(findLast) X(count) X(contains) X(startsWith) X(endsWith) X(lower) X(upper) X(title) X(isUpper) X(isLower) X(strip) X(repeat) X(replace) X(collapse) X(wordCount) X(splitN) X(splitAt) X(slice) X(charAt) X(cat) X(cmp) X(wrapped) X(byte) X(chr)
static const char *hx_name(const char *f) { static char b[64]; if (f[0] == 'm' && f[2] == '_') return f; strcpy(b, "spec_"); strcat(b, f); return b; }
static void spec_define(DictuVM *vm) {
#define X(f) defineNative(vm, &vm->globals, hx_name(#f), spec_##f);
  SPECS
#undef X
}
