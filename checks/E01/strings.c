// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the methods of strings, numbers, booleans and nil (repeat: counts below 40); 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_strings[] = {"S.len", "S.toNumber", "S.format", "S.split", "S.contains", "S.find", "S.findLast", "S.replace", "S.lower", "S.upper", "S.startsWith", "S.endsWith", "S.leftStrip", "S.rightStrip", "S.strip", "S.count", "S.wordCount", "S.toBool", "S.title", "S.repeat", "S.isUpper", "S.isLower", "S.collapseSpaces", "S.wrap", "S.toString", "N.toString", "N.toBool", "B.toString", "X.toString", "X.toBool", 0};
void h_strings(void) { e_go("", n_strings, 40); }
