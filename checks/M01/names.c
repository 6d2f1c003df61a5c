// @covers end, known, unknown
// @bounds every name of a built-in module, each of its proper prefixes, the name with one more character, with one character changed, in lower case; imported plainly and by from, at the top level, in a function and twice
#include "out.h"
void h_names(void) {
  static const char *const nm[] = {"Argparse", "Math", "Env", "IO", "JSON", "Log", "Path", "Datetime", "Random", "Base64", "Hashlib", "Queue", "Stack", "System", "Inspect", "Object", "BigInt", "Buffer", "UnitTest"}; // and one name of each
  static const char *const vn[] = {"Parser", "max", "get", "stdout", "parse", "new", "join", "now", "range", "encode", "sha256", "new", "new", "mkdir", "getFrameCount", "getClassRef", "new", "new", "UnitTest"};
  int m = sx_choose("module", 19), how = sx_choose("how", 5), at = 0; char t[16]; strcpy(t, nm[m]); int n = (int)strlen(t), good = how == 0;
  if (how == 1) { at = 1 + sx_choose("length", 8); sx_assume(at < n); t[at] = 0; }
  if (how == 2) { t[n] = "xS_1"[sx_choose("extra", 4)]; t[n + 1] = 0; }
  if (how == 3) { at = sx_choose("at", 8); sx_assume(at < n); t[at] = t[at] == 'q' ? 'w' : 'q'; }
  if (how == 4) for (int i = 0; i < n; i++) if (t[i] >= 'A' && t[i] <= 'Z') { t[i] += 32; }
  DictuVM *vm = o_new(); char src[300]; int form = sx_choose("form", 5);
  switch (form) {
    case 0: sprintf(src, "import %s; out(3);", t); break;
    case 1: sprintf(src, "from %s import %s; out(3);", t, vn[m]); break;
    case 2: sprintf(src, "def f() { import %s; return 3; } out(f());", t); break;
    case 3: sprintf(src, "def f(a) { var b = 3; from %s import %s; return b; } out(f(1));", t, vn[m]); break;
    default: sprintf(src, "import %s; def f() { import %s; return %s; } import %s; out(f() == %s ? 3 : 4);", t, t, t, t, t); }
  int rc = o_run(vm, src); sx_cover(good ? "known" : "unknown");
  if (good) sx_assert(rc == 0 && o_n == 1 && o_num(0, 3), "a built-in module can be imported by its name");
  else sx_assert(rc == 1 && o_n == 0, "a name that is not exactly the one of a built-in module is a compile error");
  dictuFreeVM(vm); sx_cover("end");
}
