// @wrap
// @covers end
// @quick N=32 D=8
// @thorough N=90 D=60
// @timeout 200 850
// @bounds Base64 of all texts of up to N bytes of any value; decoding of what was encoded for texts of up to D bytes of which any 2 neighbouring ones have any value; Hashlib.verify of all pairs of texts of up to 4 bytes
#include "out.h"
void h_base64(void) {
  static uint8_t b[128], q[8]; char want[160]; static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  DictuVM *vm = o_new();
  if (sx_choose("what", 2)) { int n = sx_choose("n", 5), m = sx_choose("m", 5); if (n) sx_bytes(b, (uint64_t)n, "a"); if (m) sx_bytes(q, (uint64_t)m, "b"); x_vals[0] = o_mk(vm, (char *)b, n); push(vm, x_vals[0]); x_vals[1] = o_mk(vm, (char *)q, m); push(vm, x_vals[1]);
    o_ok(vm, "import Hashlib; out(Hashlib.verify(val(0), val(1)));"); int eq = n == m; for (int i = 0; i < n && i < m; i++) eq &= b[i] == q[i];
    sx_assert(o_n == 1 && o_v[0] == BOOL_VAL(eq), "verify() is true exactly for equal texts"); sx_cover("end"); return; }
  int dec = sx_choose("decode", 2), n = sx_choose("n", (dec ? sx_param("D", 17) : sx_param("N", 32)) + 1), m = 0;
  if (dec) { for (int i = 0; i < n; i++) b[i] = (uint8_t)(i * 57 + 200); if (n == 1) sx_bytes(b, 1, "b"); if (n > 1) sx_bytes(b + sx_choose("at", n - 1), 2, "b"); } else if (n) sx_bytes(b, (uint64_t)n, "b"); b[n] = b[n + 1] = 0;
  for (int i = 0; i < n; i += 3) { uint32_t v = (uint32_t)b[i] << 16 | (uint32_t)b[i + 1] << 8 | b[i + 2]; if (i + 1 >= n) v &= 0xff0000; else if (i + 2 >= n) v &= 0xffff00; for (int j = 0; j < 4; j++) want[m++] = j > n - i ? '=' : T[(v >> (18 - 6 * j)) & 63]; }
  want[m] = 0;
  x_vals[0] = o_mk(vm, (char *)b, n); push(vm, x_vals[0]); o_ok(vm, dec ? "import Base64; var e = Base64.encode(val(0)); out(e, Base64.decode(e));" : "import Base64; out(Base64.encode(val(0)));");
  sx_assert(o_n == 1 + dec && o_str(0, want, m), "encode() is Base64 of the bytes");
  if (dec) sx_assert(o_str(1, (char *)b, n), "decode() of an encoded text is the text"); sx_cover("end");
}
