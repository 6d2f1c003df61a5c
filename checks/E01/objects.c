// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds the methods of instances, classes and results; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_objects[] = {"I.toString", "I.hasAttribute", "I.getAttribute", "I.getAttributes", "I.setAttribute", "I.isInstance", "I.copy", "I.deepCopy", "I.methods", "I.toDict", "K.toString", "K.toDict", "K.methods", "K2", "K2.toDict", "R.unwrap", "R.unwrapError", "R.success", "R.match", "R.matchWrap", "R.matchWrapError", "F.unwrap", "F.unwrapError", "F.success", "F.match", "F.matchWrap", "F.matchWrapError", 0};
void h_objects(void) { e_go("", n_objects, 0); }
