// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the functions of Random and Math; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_lib2[] = {"Random.select", "Math.average", "Math.floor", "Math.round", "Math.ceil", "Math.abs", "Math.max", "Math.min", "Math.sum", "Math.sqrt", "Math.sin", "Math.cos", "Math.tan", "Math.gcd", "Math.lcm", 0};
void h_lib2(void) { e_go("import Random; import Math;", n_lib2, 0); }
