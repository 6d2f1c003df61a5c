// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the methods of dictionaries and sets; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_dicts[] = {"D.toString", "D.len", "D.keys", "D.get", "D.remove", "D.exists", "D.copy", "D.deepCopy", "D.toBool", "D.forEach", "T.toString", "T.len", "T.values", "T.add", "T.remove", "T.contains", "T.containsAll", "T.toBool", 0};
void h_dicts(void) { e_go("", n_dicts, 0); }
