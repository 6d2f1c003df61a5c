// shared by the checks of B01: a Buffer of 9 bytes with symbolic contents, the value results of calls in b_got
#pragma once
#include "expr.h"
static Value b_got[64]; static int b_n;
static Value bn_rec(DictuVM *vm, int n, Value *a) { (void)vm; for (int i = 0; i < n; i++) if (b_n < 64) b_got[b_n++] = a[i]; return NIL_VAL; }
static uint8_t b_old[9];
static DictuVM *b_new(void) { // script globals: U, all(): records the 9 bytes
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "out", bn_rec); b_n = 0;
  sx_bytes(b_old, 9, "old"); for (int i = 0; i < 9; i++) x_vals[i] = NUMBER_VAL((double)b_old[i]);
  int rc = hx_run(vm, "import Buffer; var U = Buffer.new(9).unwrap(); for (var i = 0; i < 9; i += 1) U.set(i, val(i)).unwrap(); def all() { for (var i = 0; i < 9; i += 1) out(U.get(i).unwrap()); }");
  sx_assert(rc == 0, "Buffer.new and set work"); return vm; }
static void b_script(DictuVM *vm, const char *s) { b_n = 0; int rc = hx_run(vm, s); sx_assert(rc == 0, "the script runs"); }
static int b_isbyte(int i, uint8_t want) { return IS_NUMBER(b_got[i]) && AS_NUMBER(b_got[i]) == (double)want; }
static uint8_t b_byte(int i) { return (uint8_t)(int)AS_NUMBER(b_got[i]); }
static const char *const b_type[] = {"UInt16", "UInt32", "UInt64", "Int16", "Int32", "Int64", "Int8"};
static const int b_size[] = {2, 4, 8, 2, 4, 8, 1};
static const char *const b_end[] = {"LE", "BE"};
