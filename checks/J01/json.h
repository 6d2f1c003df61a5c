// shared by the checks of J01: a reference grammar of JSON (RFC 8259) that also compares a Dictu value with the text it stands for
#pragma once
#include "out.h"
typedef struct { const char *s; int n, p; Value *next; int ok; } JR; // ok: the value is the one of the text
static void jr_ws(JR *r) { while (r->p < r->n && (r->s[r->p] == ' ' || r->s[r->p] == '\n' || r->s[r->p] == '\t' || r->s[r->p] == '\r')) r->p++; }
static int jr_dig(JR *r) { return r->p < r->n && r->s[r->p] >= '0' && r->s[r->p] <= '9'; }
static int jr_hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// a string at p: its bytes into b, its length as the result; -1 if it is none
static int jr_string(JR *r, char *b) { int l = 0; if (r->p >= r->n || r->s[r->p] != '"') return -1; r->p++;
  for (;;) { if (r->p >= r->n) return -1; char c = r->s[r->p++]; if (c == '"') return l; if ((unsigned char)c < 32) return -1; if (c != '\\') { b[l++] = c; continue; }
    if (r->p >= r->n) return -1; c = r->s[r->p++]; switch (c) { case '"': case '\\': case '/': b[l++] = c; break; case 'b': b[l++] = 8; break; case 'f': b[l++] = 12; break; case 'n': b[l++] = 10; break; case 'r': b[l++] = 13; break; case 't': b[l++] = 9; break;
      case 'u': { uint32_t u = 0; for (int k = 0; k < 4; k++) { if (r->p >= r->n || jr_hex(r->s[r->p]) < 0) return -1; u = u * 16 + (uint32_t)jr_hex(r->s[r->p++]); }
        if (u >= 0xD800 && u <= 0xDFFF) { uint32_t v = 0; if (u >= 0xDC00 || r->p + 6 > r->n || r->s[r->p] != '\\' || r->s[r->p + 1] != 'u') return -1; r->p += 2; for (int k = 0; k < 4; k++) { if (jr_hex(r->s[r->p]) < 0) return -1; v = v * 16 + (uint32_t)jr_hex(r->s[r->p++]); } if (v < 0xDC00 || v > 0xDFFF) return -1; u = 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00); }
        if (u < 0x80) b[l++] = (char)u; else if (u < 0x800) { b[l++] = (char)(0xC0 | u >> 6); b[l++] = (char)(0x80 | (u & 63)); } else if (u < 0x10000) { b[l++] = (char)(0xE0 | u >> 12); b[l++] = (char)(0x80 | (u >> 6 & 63)); b[l++] = (char)(0x80 | (u & 63)); } else { b[l++] = (char)(0xF0 | u >> 18); b[l++] = (char)(0x80 | (u >> 12 & 63)); b[l++] = (char)(0x80 | (u >> 6 & 63)); b[l++] = (char)(0x80 | (u & 63)); }
        break; }
      default: return -1; } } }
static const double jr_p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12};
// a value at p; v: the value to compare with, or NULL to check the grammar only. The result says whether the grammar holds.
static int jr_value(JR *r, Value *v, int depth) { jr_ws(r); if (r->p >= r->n || depth > 5) return 0; char c = r->s[r->p]; char b[64];
  static const char *const lit[] = {"null", "true", "false"}; for (int i = 0; i < 3; i++) if (c == lit[i][0]) { int l = (int)strlen(lit[i]); if (r->p + l > r->n) return 0; for (int k = 0; k < l; k++) if (r->s[r->p + k] != lit[i][k]) return 0; r->p += l; if (v) r->ok &= *v == (i == 0 ? NIL_VAL : BOOL_VAL(i == 1)); return 1; }
  if (c == '"') { int l = jr_string(r, b); if (l < 0) return 0; if (v) r->ok &= o_strv(*v, b, l); return 1; }
  if (c == '[') { r->p++; int n = 0; jr_ws(r); if (r->p < r->n && r->s[r->p] == ']') { r->p++; if (v) r->ok &= IS_LIST(*v) && AS_LIST(*v)->values.count == 0; return 1; }
    for (;;) { Value *e = NULL; if (v) { if (!IS_LIST(*v) || AS_LIST(*v)->values.count <= n) { r->ok = 0; v = NULL; } else e = &AS_LIST(*v)->values.values[n]; } if (!jr_value(r, e, depth + 1)) return 0; n++; jr_ws(r); if (r->p >= r->n) return 0; if (r->s[r->p] == ',') { r->p++; continue; } if (r->s[r->p] != ']') return 0; r->p++; if (v) r->ok &= AS_LIST(*v)->values.count == n; return 1; } }
  if (c == '{') { r->p++; int n = 0; jr_ws(r); if (r->p < r->n && r->s[r->p] == '}') { r->p++; if (v) r->ok &= IS_DICT(*v) && AS_DICT(*v)->count == 0; return 1; }
    for (;;) { jr_ws(r); int l = jr_string(r, b); if (l < 0) return 0; jr_ws(r); if (r->p >= r->n || r->s[r->p] != ':') return 0; r->p++; Value *e = NULL; // keys of one object are distinct here
      if (v) { if (!IS_DICT(*v)) { r->ok = 0; v = NULL; } else { ObjDict *d = AS_DICT(*v); for (int i = 0; i <= d->capacityMask && !e; i++) if (IS_STRING(d->entries[i].key)) if (o_strv(d->entries[i].key, b, l)) e = &d->entries[i].value; if (!e) { r->ok = 0; v = NULL; } } }
      if (!jr_value(r, e, depth + 1)) return 0; n++; jr_ws(r); if (r->p >= r->n) return 0; if (r->s[r->p] == ',') { r->p++; continue; } if (r->s[r->p] != '}') return 0; r->p++; if (v) r->ok &= AS_DICT(*v)->count == n; return 1; } }
  int neg = 0; if (c == '-') { neg = 1; r->p++; } if (!jr_dig(r)) return 0; uint64_t m = 0; int e10 = 0;
  if (r->s[r->p] == '0') m = (uint64_t)(r->s[r->p++] - '0'); else while (jr_dig(r)) m = m * 10 + (uint64_t)(r->s[r->p++] - '0');
  if (r->p < r->n && r->s[r->p] == '.') { r->p++; if (!jr_dig(r)) return 0; while (jr_dig(r)) { m = m * 10 + (uint64_t)(r->s[r->p++] - '0'); e10--; } }
  if (r->p < r->n && (r->s[r->p] == 'e' || r->s[r->p] == 'E')) { r->p++; int en = 0, x = 0; if (r->p < r->n && (r->s[r->p] == '+' || r->s[r->p] == '-')) en = r->s[r->p++] == '-'; if (!jr_dig(r)) return 0; while (jr_dig(r)) x = x * 10 + (r->s[r->p++] - '0'); e10 += en ? -x : x; }
  if (v && e10 >= -12 && e10 <= 12) { double d = (double)m; if (e10 < 0) d /= jr_p10[-e10]; else d *= jr_p10[e10]; if (neg) d = -d; r->ok &= IS_NUMBER(*v) && AS_NUMBER(*v) == d; }
  else if (v) r->ok &= IS_NUMBER(*v);
  return 1; }
static int jr_text(JR *r, const char *s, int n, Value *v) { r->s = s; r->n = n; r->p = 0; r->ok = 1; if (!jr_value(r, v, 0)) return 0; jr_ws(r); return r->p == n; }
static void j_check(DictuVM *vm, const char *t, int n) { // parse the text; valid JSON must give its value
  JR r; int valid = jr_text(&r, t, n, NULL); x_vals[0] = o_mk(vm, t, n);
  o_ok(vm, "import JSON; var r = JSON.parse(val(0)); out(r.success()); if (r.success()) out(r.unwrap()); r = nil;");
  if (valid) { sx_assert(o_v[0] == TRUE_VAL, "a valid JSON text is parsed"); if (o_n == 2) { Value v = o_v[1]; valid = jr_text(&r, t, n, &v); sx_assert(valid && r.ok, "the parsed value is the one the text stands for"); } sx_cover("valid"); } else sx_cover("invalid"); }
