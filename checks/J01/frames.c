// @wrap
// @covers valid, invalid
// @quick D=2
// @thorough D=4 H=1
// @timeout 150 850
// @bounds 14 text shapes with symbolic parts: one to D digits in numbers with fraction or exponent, up to two escaped or raw bytes in strings, hexadecimal digits {0 7 a D} (thorough: all) in one or two \u escapes, whitespace in every place
#include "json.h"
void h_frames(void) { uint64_t heap = sx_heap_live(); DictuVM *vm = o_new(); char t[80] = {0}; int n = 0; const char *f;
  // d digits; h hexadecimal digit; b any byte; e escape character; w whitespace or nothing; everything else itself
  static const char *const fs[] = {"d.D", "-d.D", "deD", "de-d", "[d.d,D]", "[dE+d,-d]", "\"\\uhhhh\"", "\"\\uD8hh\\uDChh\"", "\"\\uhhhhe\"", "\"b\\eb\"", "{\"b\":d,\"kk\":\"b\"}", "w[wdw,wtruew]w", "w{w\"a\"w:wnullw}w", "[\"b\",[false,{}],[]]", "[1.5,9999999999999999999D]"};
  int only = (int)sx_param("SHAPE", -1); f = fs[only >= 0 ? only : sx_choose("shape", 15)]; char nm[4] = "x"; int u = 0; int maxd = (int)sx_param("D", 3);
  for (; *f; f++) { nm[1] = (char)('a' + u++); switch (*f) {
      case 'D': case 'd': if (f[0] == 'D' || f == fs[0]) { int k = *f == 'D' ? 1 + sx_choose(nm, maxd) : 1; for (int i = 0; i < k; i++) { nm[1] = (char)('a' + u++); o_text(t + n, 1, nm, "0123456789"); n++; } } else { o_text(t + n, 1, nm, "0123456789"); n++; } break;
      case 'h': o_text(t + n, 1, nm, (int)sx_param("H", 0) ? "0123456789abcdefABCDEF" : "07aD"); n++; break;
      case 'b': o_text(t + n, 1, nm, NULL); n++; break; case 'e': if (f[-1] == '\\') { o_text(t + n, 1, nm, "\"\\/bfnrtu"); n++; } else t[n++] = 'e'; break;
      case 'w': { int k = sx_choose(nm, 3); if (k) t[n++] = k == 1 ? ' ' : '\n'; break; }
      default: t[n++] = *f; } }
  t[n] = 0; j_check(vm, t, n); dictuFreeVM(vm); sx_assert(sx_heap_live() == heap, "everything is released"); }
