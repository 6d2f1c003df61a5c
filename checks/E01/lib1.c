// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the functions of Base64, Path and JSON; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_lib1[] = {"Base64.encode", "Base64.decode", "Path.realpath", "Path.isAbsolute", "Path.basename", "Path.extname", "Path.dirname", "Path.exists", "Path.isDir", "Path.listDir", "Path.join", "JSON.parse", "JSON.stringify", 0};
void h_lib1(void) { e_go("import Base64; import Path; import JSON;", n_lib1, 0); }
