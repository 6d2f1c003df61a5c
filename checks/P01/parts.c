// @wrap
// @covers end, dot, nodot
// @quick N=5
// @thorough N=7
// @timeout 120 800
// @bounds paths of 0..N characters from { / . a }, or any bytes up to N-2; directory and base names of paths that do not end in a separator
#include "out.h"
void h_parts(void) { int any = sx_choose("any", 2), n = sx_choose("n", (int)sx_param("N", 5) + (any ? -1 : 1)); char b[16] = {0}; o_text(b, n, "path", any ? NULL : "/.a"); DictuVM *vm = o_new(); x_vals[0] = o_mk(vm, b, n);
  o_ok(vm, "import Path; var p = val(0); out(Path.isAbsolute(p), Path.basename(p), Path.dirname(p), Path.extname(p)); out(p);");
  sx_assert(o_n == 5, "all results are there"); sx_assert((o_v[0] == TRUE_VAL) == (n > 0 && b[0] == '/'), "a path is absolute exactly if it starts with a separator");
  int base = n; while (base > 0 && b[base - 1] != '/') base--; int dend = base; while (dend > 0 && b[dend - 1] == '/') dend--;
  if (n == 0 || base < n) {
    sx_assert(o_str(1, b + base, n - base), "the base name is what follows the last separator");
    if (n == 0 || base == 0) sx_assert(o_str(2, ".", 1), "the directory of a plain name is ."); else if (dend == 0) sx_assert(o_str(2, "/", 1), "the directory of a name in the root is the root"); else sx_assert(o_str(2, b, dend), "the directory is what precedes the last separators"); }
  int dot = n; while (dot > base && b[dot - 1] != '.') dot--; if (n > 0 && dot > base) { sx_assert(o_str(3, b + dot - 1, n - dot + 1), "the extension is the last dot of the base name and what follows"); sx_cover("dot"); } else { sx_assert(o_str(3, "", 0), "a base name without a dot has no extension"); sx_cover("nodot"); }
  sx_assert(o_str(4, b, n), "the path itself is unchanged"); sx_cover("end"); dictuFreeVM(vm); }
