// @covers double, float, readd, readf
// @timeout 120 800
// @bounds buffers of 9 bytes with any contents; both byte orders, every offset; every number (any NaN reads as NaN)
#include "buf.h"
static int b_nan(Value v) { return IS_NUMBER(v) && AS_NUMBER(v) != AS_NUMBER(v); }
static void b_writef(void) { char s[400]; DictuVM *vm = b_new(); int dbl = sx_choose("double", 2), be = sx_choose("bigEndian", 2), off = sx_choose("offset", 9), sz = dbl ? 8 : 4; double d = sx_double("value"); sx_assume(IS_NUMBER(NUMBER_VAL(d)));
  x_vals[0] = NUMBER_VAL(d); x_vals[1] = NUMBER_VAL((double)off); int fits = off + sz <= 9; const char *ty = dbl ? "Double" : "Float";
  snprintf(s, sizeof s, "var r = U.write%s%s(val(1), val(0)); out(r.success()); if (r.success()) out(r.unwrap()); else out(nil); all(); var q = U.read%s%s(val(1)); if (q.success()) out(q.unwrap()); else out(nil);", ty, b_end[be], ty, b_end[be]);
  b_script(vm, s); sx_assert(b_n == 12, "all results are there"); sx_assert((b_got[0] == TRUE_VAL) == fits, "a write succeeds exactly if the value fits into the buffer");
  uint64_t raw; float f = (float)d; if (dbl) memcpy(&raw, &d, 8); else { uint32_t r4; memcpy(&r4, &f, 4); raw = r4; } double w = dbl ? d : (double)f;
  for (int i = 0; i < 9; i++) { int k = i - off, in = fits && k >= 0 && k < sz; uint8_t b = b_old[i]; if (in) b = (uint8_t)(raw >> (8 * (be ? sz - 1 - k : k))); sx_assert(b_isbyte(2 + i, b) | (in & (d != d)), "a write stores exactly its bytes in the named order and no others"); }
  if (!fits) return;
  if (d == d) { sx_assert(IS_NUMBER(b_got[11]) && AS_NUMBER(b_got[11]) == w, "what was written reads back"); sx_assert(IS_NUMBER(b_got[1]) && AS_NUMBER(b_got[1]) == w, "a write returns the value"); }
  else sx_assert(b_nan(b_got[11]), "NaN reads back as NaN");
  if (dbl) sx_cover("double"); else sx_cover("float");
  dictuFreeVM(vm); }
static void b_readf(void) { char s[400]; DictuVM *vm = b_new(); int dbl = sx_choose("double", 2), be = sx_choose("bigEndian", 2), off = sx_choose("offset", 9), sz = dbl ? 8 : 4;
  x_vals[1] = NUMBER_VAL((double)off); int fits = off + sz <= 9; uint64_t raw = 0; if (fits) for (int k = 0; k < sz; k++) raw |= (uint64_t)b_old[off + k] << (8 * (be ? sz - 1 - k : k));
  snprintf(s, sizeof s, "var q = U.read%s%s(val(1)); if (q.success()) out(q.unwrap()); else out(nil); all();", dbl ? "Double" : "Float", b_end[be]);
  b_script(vm, s); sx_assert(b_n == 10, "all results are there"); for (int i = 0; i < 9; i++) sx_assert(b_isbyte(1 + i, b_old[i]), "a read changes nothing");
  if (!fits) { sx_assert(b_got[0] == NIL_VAL, "a read past the end is an error"); return; }
  double d; if (dbl) memcpy(&d, &raw, 8); else { uint32_t r4 = (uint32_t)raw; float f; memcpy(&f, &r4, 4); d = f; }
  if (d == d) sx_assert(IS_NUMBER(b_got[0]) && AS_NUMBER(b_got[0]) == d, "a read gives the number the bytes stand for"); else sx_assert(b_nan(b_got[0]), "bytes of any NaN read as NaN");
  if (dbl) sx_cover("readd"); else sx_cover("readf");
  dictuFreeVM(vm); }
void h_floats(void) { if (sx_choose("direction", 2)) b_writef(); else b_readf(); }
