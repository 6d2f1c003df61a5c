// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds Queue, Stack, Inspect and Object (sizes below 300); 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_lib3[] = {"Queue.new", "Queue.newWithSize", "Stack.new", "Stack.newWithSize", "Q.isEmpty", "Q.isFull", "Q.cap", "Q.len", "Q.peek", "Q.push", "Q.pop", "P.isEmpty", "P.isFull", "P.cap", "P.len", "P.peek", "P.push", "P.pop", "Inspect.getLine", "Inspect.getFile", "Inspect.getFrameCount", "Object.getClassRef", 0};
void h_lib3(void) { e_go("import Queue; import Stack; import Inspect; import Object; var Q = Queue.new(); var P = Stack.new();", n_lib3, 300); }
