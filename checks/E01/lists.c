// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the methods of lists; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_lists[] = {"L.toString", "L.len", "L.extend", "L.push", "L.insert", "L.pop", "L.remove", "L.contains", "L.join", "L.copy", "L.deepCopy", "L.toBool", "L.sort", "L.reverse", "L.map", "L.filter", "L.reduce", "L.forEach", "L.find", "L.findIndex", "L.sortFunc", 0};
void h_lists(void) { e_go("", n_lists, 0); }
