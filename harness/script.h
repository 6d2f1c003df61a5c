// Entry point for script harnesses: interprets the selected script in a real VM. Lines "//---" separate
// independent programs; each path runs one of them.
static int hx_fail, hx_expect;
static Value hx_willFail(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; hx_expect = 1; hx_fail = a[0] == TRUE_VAL; return NIL_VAL; }
static Value hx_ok(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; sx_assert(!hx_expect || !hx_fail, "operation that must raise an error completed"); hx_fail = 0; hx_expect = 0; return NIL_VAL; }
static Value hx_param(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return NUMBER_VAL((double)sx_param(AS_CSTRING(a[0]), (int)AS_NUMBER(a[1]))); }
static int hx_noacct; // the section holds blocks that are not the VM's (environment, log prefixes)
static Value hx_noAccount(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; hx_noacct = 1; return NIL_VAL; }
void harness(void) {
  uint64_t live0 = sx_heap_live();
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "willFail", hx_willFail); defineNative(vm, &vm->globals, "ok", hx_ok); defineNative(vm, &vm->globals, "param", hx_param); defineNative(vm, &vm->globals, "noAccount", hx_noAccount);
  spec_define(vm);
  int gc = sx_param("gcmode", 0), rcany = sx_param("rcany", 0); const char *src = hx_scripts[sx_param("script", 0)];
  if (gc == 1) vm->nextGC = 0; else if (gc == 2) { uint64_t t = sx_sym("gc_threshold", 32); vm->nextGC = t; }
  // pick one section; the sections are independent programs
  int nsec = 1; for (const char *q = src; (q = strstr(q, "\n//---")); q++) nsec++;
  for (int pick = nsec > 1 ? sx_choose("section", nsec) : 0; pick > 0; pick--) { src = strstr(src, "\n//---") + 1; while (*src && *src != '\n') src++; }
  { const char *e = strstr(src, "\n//---"); size_t len = e ? (size_t)(e - src) : strlen(src);
    char *sec = malloc(len + 1); memcpy(sec, src, len); sec[len] = 0;
    int acct = sx_param("acct", 0); uint64_t base = 0; if (acct) { collectGarbage(vm); vm->nextGC = (size_t)1 << 40; base = sx_heap_bytes() - vm->bytesAllocated - sizeof(Obj *) * (uint64_t)vm->grayCapacity; }
    if (sx_param("gcall", 0)) hx_stress = 1;
    if (sx_param("file", 0)) sx_file_put("h.du", "", 0); int rc = sx_param("file", 0) ? (int)dictuInterpret(vm, (char *)"h.du", sec) : hx_run(vm, sec); hx_stress = 0; vm->nextGC = (size_t)1 << 40;
    if (acct && !hx_noacct) { collectGarbage(vm); sx_assert(sx_heap_bytes() - vm->bytesAllocated - sizeof(Obj *) * (uint64_t)vm->grayCapacity == base, "the recorded number of allocated bytes equals what is allocated"); }
    if (!rcany) { sx_assert(rc != 1, "script compiles"); if (rc == 2) sx_assert(hx_expect && hx_fail, "runtime error although the operation must succeed"); else sx_assert(!(hx_expect && hx_fail), "operation that must raise an error completed"); }
    free(sec); }
  hx_stress = 0; dictuFreeVM(vm); if (sx_param("leak", 0)) sx_assert(sx_heap_live() == live0, "all memory is released at exit");
}
