// Common harness support: a real DictuVM plus natives that introduce symbolic values and check conditions.
#ifndef HX_H
#define HX_H
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include "vm.h"
#include "memory.h"
#include "object.h"
#include "table.h"
#include "value.h"
#include "util.h"
#include "sx.h"
static char hx_msg[256];
static inline const char *hx_arg(Value *a, int n, int i, const char *d) { return i < n && IS_STRING(a[i]) ? AS_CSTRING(a[i]) : d; }
static Value hx_symInt(DictuVM *vm, int n, Value *a) { (void)vm; int lo = (int)AS_NUMBER(a[1]), hi = (int)AS_NUMBER(a[2]); return NUMBER_VAL((double)(int32_t)sx_range(hx_arg(a, n, 0, "i"), lo, hi)); }
static Value hx_symNum(DictuVM *vm, int n, Value *a) { (void)vm; uint64_t b = sx_sym(hx_arg(a, n, 0, "d"), 64); union { uint64_t u; double d; } x; x.u = b; sx_assume(x.d == x.d); return b; } // any number but NaN
static Value hx_symFloat(DictuVM *vm, int n, Value *a) { (void)vm; uint64_t b = sx_sym(hx_arg(a, n, 0, "d"), 64); sx_assume(IS_NUMBER(b)); return b; } // any number
static Value hx_symBool(DictuVM *vm, int n, Value *a) { (void)vm; return BOOL_VAL(sx_sym(hx_arg(a, n, 0, "b"), 1)); }
static Value hx_choose(DictuVM *vm, int n, Value *a) { (void)vm; return NUMBER_VAL(sx_choose(hx_arg(a, n, 0, "c"), (int)AS_NUMBER(a[1]))); }
// symStr(name, len, alphabet): string of exactly len bytes, each drawn from the alphabet (any byte but NUL and >= 0xF8 when omitted)
static Value hx_symStr(DictuVM *vm, int n, Value *a) {
  int len = (int)AS_NUMBER(a[1]); char b[256]; sx_bytes(b, (uint64_t)len, hx_arg(a, n, 0, "s"));
  for (int i = 0; i < len; i++) { int ok;
    if (n > 2 && IS_STRING(a[2])) { ok = 0; ObjString *al = AS_STRING(a[2]); for (int k = 0; k < al->length; k++) ok |= b[i] == al->chars[k]; }
    else ok = (b[i] != 0) & ((unsigned char)b[i] < 0xF8);
    sx_assume(ok); }
  return OBJ_VAL(copyString(vm, b, len)); }
static Value hx_check(DictuVM *vm, int n, Value *a) { (void)vm; snprintf(hx_msg, sizeof hx_msg, "%s", hx_arg(a, n, 1, "check")); sx_assert(IS_BOOL(a[0]) ? a[0] == TRUE_VAL : !isFalsey(a[0]), hx_msg); return NIL_VAL; }
static Value hx_assume(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; sx_assume(!isFalsey(a[0])); return NIL_VAL; }
static Value hx_cover(DictuVM *vm, int n, Value *a) { (void)vm; sx_cover(hx_arg(a, n, 0, "c")); return NIL_VAL; }
static int hx_eq(Value x, Value y) { // bit identity, or equal bytes for two strings (no branching on symbolic bytes)
  if (x == y) return 1; if (!IS_OBJ(x) || !IS_OBJ(y)) return 0; if (!IS_STRING(x) || !IS_STRING(y) || AS_STRING(x)->length != AS_STRING(y)->length) return 0;
  int ok = 1; for (int i = 0; i <= AS_STRING(x)->length; i++) ok &= AS_CSTRING(x)[i] == AS_CSTRING(y)[i]; return ok; }
static Value hx_same(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; if (IS_NUMBER(a[0]) && IS_NUMBER(a[1])) return BOOL_VAL(AS_NUMBER(a[0]) == AS_NUMBER(a[1])); return BOOL_VAL(hx_eq(a[0], a[1])); }
// collection before every allocation, while switched on: in the engine by wrapping reallocate, in native replay by ld --wrap
static int hx_stress;
#ifdef SX_REPLAY
#define HX_REALLOC __wrap_reallocate
#define HX_REAL __real_reallocate
#else
#define HX_REALLOC wrap_reallocate
#define HX_REAL real_reallocate
#endif
void *HX_REAL(DictuVM *vm, void *p, size_t o, size_t n);
void *HX_REALLOC(DictuVM *vm, void *p, size_t o, size_t n) { if (hx_stress && n > o) vm->nextGC = 0; return HX_REAL(vm, p, o, n); }
static Value hx_gc(DictuVM *vm, int n, Value *a) { (void)n; hx_stress = !isFalsey(a[0]); if (!hx_stress) vm->nextGC = (size_t)1 << 40; return NIL_VAL; } // gc(bool)
static Value hx_collect(DictuVM *vm, int n, Value *a) { (void)n; (void)a; collectGarbage(vm); vm->nextGC = (size_t)1 << 40; return NUMBER_VAL((double)vm->bytesAllocated); }
static Value hx_heap(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; return NUMBER_VAL((double)sx_heap_bytes()); }
static Value hx_putFile(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; sx_file_put(AS_CSTRING(a[0]), AS_CSTRING(a[1]), (uint64_t)AS_STRING(a[1])->length); return NIL_VAL; } // putFile(name, text)
static Value hx_getFile(DictuVM *vm, int n, Value *a) { (void)n; char b[4096]; int64_t l = sx_file_get(AS_CSTRING(a[0]), b, sizeof b); return l < 0 ? NIL_VAL : OBJ_VAL(copyString(vm, b, (int)l)); }
static Value hx_outBegin(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; sx_out_begin(); return NIL_VAL; } // outBegin() ... outEnd(): what was printed in between
static Value hx_outEnd(DictuVM *vm, int n, Value *a) { (void)n; (void)a; static char b[8192]; int64_t l = sx_out_end(b, sizeof b); return OBJ_VAL(copyString(vm, b, (int)(l < (int64_t)sizeof b ? l : (int64_t)sizeof b - 1))); }
static DictuVM *hx_new(void) {
  static char *argv[] = {(char *)"dictu", NULL}; DictuVM *vm = dictuInitVM(false, 1, argv); vm->nextGC = (size_t)1 << 40;
  defineNative(vm, &vm->globals, "symInt", hx_symInt); defineNative(vm, &vm->globals, "symNum", hx_symNum); defineNative(vm, &vm->globals, "symFloat", hx_symFloat); defineNative(vm, &vm->globals, "symBool", hx_symBool);
  defineNative(vm, &vm->globals, "choose", hx_choose); defineNative(vm, &vm->globals, "symStr", hx_symStr); defineNative(vm, &vm->globals, "check", hx_check);
  defineNative(vm, &vm->globals, "assume", hx_assume); defineNative(vm, &vm->globals, "cover", hx_cover); defineNative(vm, &vm->globals, "same", hx_same);
  defineNative(vm, &vm->globals, "putFile", hx_putFile); defineNative(vm, &vm->globals, "getFile", hx_getFile); defineNative(vm, &vm->globals, "outBegin", hx_outBegin); defineNative(vm, &vm->globals, "outEnd", hx_outEnd);
  defineNative(vm, &vm->globals, "gc", hx_gc); defineNative(vm, &vm->globals, "collect", hx_collect); defineNative(vm, &vm->globals, "heapBytes", hx_heap);
  return vm; }
static int hx_run(DictuVM *vm, const char *src) { return (int)dictuInterpret(vm, (char *)"h", (char *)src); }
#endif
