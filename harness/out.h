// out(a, ...) records values for the harness; str_sym makes a string value with symbolic bytes
#pragma once
#include "expr.h"
static Value o_v[64]; static int o_n;
static Value on_out(DictuVM *vm, int n, Value *a) { (void)vm; for (int i = 0; i < n; i++) if (o_n < 64) o_v[o_n++] = a[i]; return NIL_VAL; }
static DictuVM *o_new(void) { DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "val", xn_val); defineNative(vm, &vm->globals, "out", on_out); o_n = 0; return vm; }
static int o_run(DictuVM *vm, const char *s) { o_n = 0; return hx_run(vm, s); }
static void o_ok(DictuVM *vm, const char *s) { int rc = o_run(vm, s); sx_assert(rc == 0, "the script runs without an error"); }
static int o_num(int i, double want) { return i < o_n && IS_NUMBER(o_v[i]) && AS_NUMBER(o_v[i]) == want; }
static int o_strv(Value v, const char *p, int n) { if (!IS_STRING(v) || AS_STRING(v)->length != n) return 0; int ok = AS_CSTRING(v)[n] == 0; for (int i = 0; i < n; i++) ok &= AS_CSTRING(v)[i] == p[i]; return ok; }
static int o_str(int i, const char *p, int n) { return i < o_n && o_strv(o_v[i], p, n); }
// n symbolic bytes into b: from the alphabet, or any byte but NUL and >= 0xF8 when NULL
static void o_text(char *b, int n, const char *name, const char *alphabet) { sx_bytes(b, (uint64_t)n, name); b[n] = 0; for (int i = 0; i < n; i++) { int ok = 0; if (alphabet) for (const char *p = alphabet; *p; p++) ok |= b[i] == *p; else ok = (b[i] != 0) & ((unsigned char)b[i] < 0xF8); sx_assume(ok); } }
static Value o_mk(DictuVM *vm, const char *b, int n) { return OBJ_VAL(copyString(vm, b, n)); } // reachable only while no collection runs
