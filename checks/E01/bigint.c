// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds BigInt; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_bigint[] = {"BigInt.new", "G.compare", "G.negate", "G.abs", "G.bitwiseAnd", "G.bitwiseOr", "G.bitwiseXor", "G.add", "G.subtract", "G.multiply", "G.divide", "G.modulo", 0};
void h_bigint(void) { e_go("import BigInt; var G = BigInt.new(\"-123456789\").unwrap(); var H = BigInt.new(\"0\").unwrap();", n_bigint, 0); }
