// @wrap
// @covers str, sub, resize, ws, from, err
// @timeout 120 800
// @bounds buffers of 9 bytes with any contents (1..127 where they become a string); every start and end -1..10, strings of 1..3 bytes, new sizes 0..12
#include "buf.h"
static int b_str(Value v, const uint8_t *p, int n) { if (!IS_STRING(v) || AS_STRING(v)->length != n) return 0; int ok = AS_CSTRING(v)[n] == 0; for (int i = 0; i < n; i++) ok &= (uint8_t)AS_CSTRING(v)[i] == p[i]; return ok; }
static void b_text(void) { for (int i = 0; i < 9; i++) sx_assume(b_old[i] > 0 && b_old[i] < 128); }
static void b_readstr(void) { DictuVM *vm = b_new(); b_text(); int a = sx_choose("start", 12) - 1, e = sx_choose("end", 12) - 1, n = sx_choose("args", 3); if (n < 2) e = 9; if (n < 1) a = 0;
  x_vals[0] = NUMBER_VAL((double)a); x_vals[1] = NUMBER_VAL((double)e); int okr = a >= 0 && a < 9 && e >= 0 && e <= 9 && e > a;
  b_script(vm, n == 0 ? "out(U.string()); var r = U.readString(); out(r.success(), r); all();" : n == 1 ? "out(U.string()); var r = U.readString(val(0)); out(r.success(), r); all();" : "out(U.string()); var r = U.readString(val(0), val(1)); out(r.success(), r); all();");
  sx_assert(b_str(b_got[0], b_old, 9), "string() is all bytes"); sx_assert((b_got[1] == TRUE_VAL) == okr, "readString succeeds exactly for a non-empty range inside the buffer");
  if (okr) { sx_assert(b_str(AS_RESULT(b_got[2])->value, b_old + a, e - a), "readString gives the bytes of the range"); sx_cover("str"); } else sx_cover("err");
  for (int i = 0; i < 9; i++) sx_assert(b_isbyte(3 + i, b_old[i]), "readString changes nothing");
  dictuFreeVM(vm); }
static void b_sub(void) { DictuVM *vm = b_new(); int a = sx_choose("start", 12) - 1, e = sx_choose("end", 12) - 1, n = sx_choose("args", 3); if (n < 2) e = 9; if (n < 1) a = 0;
  x_vals[0] = NUMBER_VAL((double)a); x_vals[1] = NUMBER_VAL((double)e); int okr = a >= 0 && a < 9 && e >= 0 && e <= 9 && e > a;
  b_script(vm, n == 0 ? "var r = U.subarray();" : n == 1 ? "var r = U.subarray(val(0));" : "var r = U.subarray(val(0), val(1));");
  b_script(vm, "out(r.success()); if (r.success()) { var w = r.unwrap(); for (var i = 0; i < w.len(); i += 1) out(w.get(i).unwrap()); w.set(0, 7).unwrap(); out(w.values()[0]); } all();");
  sx_assert((b_got[0] == TRUE_VAL) == okr, "subarray succeeds exactly for a non-empty range inside the buffer"); int k = 1;
  if (okr) { sx_assert(b_n == 1 + (e - a) + 1 + 9, "subarray has the length of the range"); for (int i = a; i < e; i++) sx_assert(b_isbyte(k++, b_old[i]), "subarray holds the bytes of the range"); sx_assert(b_isbyte(k++, 7), "values() shows a changed byte"); sx_cover("sub"); }
  for (int i = 0; i < 9; i++) sx_assert(b_isbyte(k + i, b_old[i]), "a subarray is a copy");
  dictuFreeVM(vm); }
static void b_resize(void) { DictuVM *vm = b_new(); int n = sx_choose("size", 13); x_vals[0] = NUMBER_VAL((double)n);
  b_script(vm, "var r = U.resize(val(0)); out(r.success(), U.len()); var w = U.values(); for (var i = 0; i < w.len(); i += 1) out(w[i]); out(U.get(U.len()).success());");
  int len = n ? n : 9; sx_assert((b_got[0] == TRUE_VAL) == (n > 0), "resize succeeds for a size above 0"); sx_assert(b_n == 3 + len && b_isbyte(1, (uint8_t)len), "len() is the new size");
  for (int i = 0; i < len; i++) sx_assert(b_isbyte(2 + i, i < 9 ? b_old[i] : 0), "resize keeps the bytes and fills with zeros"); sx_assert(b_got[2 + len] == FALSE_VAL, "get() past the end is an error");
  sx_cover("resize"); dictuFreeVM(vm); }
static void b_writestr(void) { DictuVM *vm = b_new(); int n = 1 + sx_choose("n", 3), off = sx_choose("offset", 12) - 1; uint8_t t[3] = {0}; sx_bytes(t, n, "text"); for (int i = 0; i < n; i++) sx_assume(t[i] > 0 && t[i] < 128);
  x_vals[0] = NUMBER_VAL((double)off); x_vals[1] = OBJ_VAL(copyString(vm, (char *)t, n)); int fits = off >= 0 && off + n <= 9;
  b_script(vm, "out(U.writeString(val(0), val(1)).success()); all(); var c = Buffer.fromString(val(1)).unwrap(); out(c.len(), c.string()); var w = c.values(); for (var i = 0; i < w.len(); i += 1) out(w[i]);");
  sx_assert((b_got[0] == TRUE_VAL) == fits, "writeString succeeds exactly if the string fits");
  for (int i = 0; i < 9; i++) sx_assert(b_isbyte(1 + i, fits && i >= off && i < off + n ? t[i - off] : b_old[i]), "writeString writes the bytes of the string and no others");
  sx_assert(b_isbyte(10, (uint8_t)n) && b_str(b_got[11], t, n), "fromString holds the string"); for (int i = 0; i < n; i++) sx_assert(b_isbyte(12 + i, t[i]), "fromString holds the bytes of the string");
  sx_cover("ws"); sx_cover("from"); dictuFreeVM(vm); }
void h_bytes(void) { switch (sx_choose("part", 4)) { case 0: b_readstr(); break; case 1: b_sub(); break; case 2: b_resize(); break; default: b_writestr(); } }
