// @covers write, read, error, big, outside
// @timeout 120 800
// @bounds buffers of 9 bytes with any contents; every integer type and byte order, every offset -1..9, every value of the type (64 bit: -2^53..2^53)
#include "buf.h"
static void b_write(void) { char s[400]; DictuVM *vm = b_new(); int t = sx_choose("type", 7), be = t == 6 ? 0 : sx_choose("bigEndian", 2), off = sx_choose("offset", 11) - 1, sz = b_size[t]; const char *en = t == 6 ? "" : b_end[be];
  uint64_t raw = sx_sym("value", sz * 8); int64_t x = t < 3 ? (int64_t)raw : sz == 8 ? (int64_t)raw : sz == 4 ? (int32_t)raw : sz == 2 ? (int16_t)raw : (int8_t)raw;
  if (sz == 8) sx_assume(x >= (t < 3 ? 0 : -9007199254740992ll) && x <= 9007199254740992ll);
  x_vals[0] = NUMBER_VAL((double)x); x_vals[1] = NUMBER_VAL((double)off);
  int fits = off >= 0 && off + sz <= 9;
  snprintf(s, sizeof s, "var r = U.write%s%s(val(1), val(0)); out(r.success()); if (r.success()) out(r.unwrap()); else out(nil); all(); var q = U.read%s%s(val(1)); if (q.success()) out(q.unwrap()); else out(nil);", b_type[t], en, b_type[t], en);
  b_script(vm, s); sx_assert(b_n == 12, "all results are there");
  sx_assert((b_got[0] == TRUE_VAL) == fits, "a write succeeds exactly if the value fits into the buffer");
  for (int i = 0; i < 9; i++) { int k = i - off; uint8_t w = b_old[i]; if (fits && k >= 0 && k < sz) w = (uint8_t)((uint64_t)x >> (8 * (be ? sz - 1 - k : k))); sx_assert(b_isbyte(2 + i, w), "a write stores exactly its bytes in the named order and no others"); }
  if (fits) { sx_assert(IS_NUMBER(b_got[1]) && AS_NUMBER(b_got[1]) == (double)x, "a write returns the value"); sx_assert(IS_NUMBER(b_got[11]) && AS_NUMBER(b_got[11]) == (double)x, "what was written reads back"); sx_cover("write"); }
  else { sx_assert(b_got[11] == NIL_VAL, "a read past the end is an error"); sx_cover("outside"); }
  dictuFreeVM(vm); }
static void b_read(void) { char s[400]; DictuVM *vm = b_new(); int t = sx_choose("type", 7), be = t == 6 ? 0 : sx_choose("bigEndian", 2), off = sx_choose("offset", 9), sz = b_size[t]; const char *en = t == 6 ? "" : b_end[be];
  x_vals[1] = NUMBER_VAL((double)off); int fits = off + sz <= 9; uint64_t raw = 0;
  if (fits) for (int k = 0; k < sz; k++) raw |= (uint64_t)b_old[off + k] << (8 * (be ? sz - 1 - k : k));
  int64_t x = sz == 8 ? (int64_t)raw : t < 3 ? (int64_t)raw : sz == 4 ? (int32_t)raw : sz == 2 ? (int16_t)raw : (int8_t)raw;
  snprintf(s, sizeof s, "var q = U.read%s%s(val(1)); if (q.success()) out(q.unwrap()); else out(nil); all();", b_type[t], en);
  b_script(vm, s); sx_assert(b_n == 10, "all results are there");
  int big = sz == 8 && (t < 3 ? raw > 9007199254740992ull : x > 9007199254740992ll || x < -9007199254740992ll);
  if (!fits) { sx_assert(b_got[0] == NIL_VAL, "a read past the end is an error"); sx_cover("error"); }
  else if (big) { sx_assert(b_got[0] == NIL_VAL, "an integer a number cannot hold is an error"); sx_cover("big"); }
  else { sx_assert(IS_NUMBER(b_got[0]) && AS_NUMBER(b_got[0]) == (double)x, "a read gives the integer the bytes stand for"); sx_cover("read"); }
  for (int i = 0; i < 9; i++) sx_assert(b_isbyte(1 + i, b_old[i]), "a read changes nothing");
  dictuFreeVM(vm); }
void h_ints(void) { if (sx_choose("direction", 2)) b_write(); else b_read(); }
