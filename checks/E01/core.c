// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds built-in functions and calls of functions, classes and methods; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_core[] = {"print", "printError", "set", "type", "assert", "isDefined", "Success", "Error", "f", "g", "v", "K", "I.m", "bm", "K.sm", "E.values", 0};
void h_core(void) { e_go("", n_core, 0); }
