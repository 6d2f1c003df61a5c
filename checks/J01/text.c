// @wrap
// @covers valid, invalid
// @quick N=4
// @thorough N=6
// @timeout 150 850
// @bounds texts of 0..N characters from { [ ] { } " , : 0 1 . - e space \ t } ; for invalid texts only that the result is an error or a value and nothing is leaked
#include "json.h"
void h_text(void) { uint64_t heap = sx_heap_live(); DictuVM *vm = o_new(); int n = sx_choose("n", (int)sx_param("N", 4) + 1); char t[16] = {0}; o_text(t, n, "text", "[]{}\",:01.-e \\t");
  j_check(vm, t, n); dictuFreeVM(vm); sx_assert(sx_heap_live() == heap, "everything is released"); }
