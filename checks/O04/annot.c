// @covers end
// @quick N=2
// @thorough N=3
// @weight 2
// @timeout 200 850
// @bounds classes, abstract classes, traits and subclasses, declared globally or in a function, with 0..N annotations on the class, on a method and on a variable or constant, each with no value or a number, string, boolean, list or dictionary
#include "expr.h"
static const char *const a_val[] = {"", "(5)", "(\"s\")", "(true)", "([1, 2])", "({\"k\": 1})"}; static const char *const a_txt[] = {"nil", "5", "\"s\"", "true", "[1, 2]", "{\"k\": 1}"};
static int put(char **s, const char *pre, int n, int *v) { for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "%sv%d", pre, i); v[i] = sx_choose(nm, 6); *s += sprintf(*s, "@%s%d%s ", pre, i, a_val[v[i]]); } return n; }
static void expect(ObjDict *d, const char *pre, int n, int *v, DictuVM *vm) {
  sx_assert(d->activeCount == n, "exactly the annotations given");
  for (int i = 0; i < n; i++) { char nm[8]; sprintf(nm, "%s%d", pre, i); Value r; int ok = dictGet(d, OBJ_VAL(copyString(vm, nm, (int)strlen(nm))), &r); sx_assert(ok, "annotation name"); if (!ok) return;
    char *t = valueToString(r); char want[40]; sprintf(want, "%s", v[i] == 2 ? "s" : a_txt[v[i]]); sx_assert(strcmp(t, want) == 0, "annotation value"); } }
void h_annot(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "rec", xn_rec); int M = sx_param("N", 2) + 1;
  int form = sx_choose("form", 4), where = sx_choose("where", 2), nc = sx_choose("nc", M), nm = sx_choose("nm", M), nf = sx_choose("nf", M), cst = sx_choose("const", 2), cv[4], mv[4], fv[4];
  if (nc + nm + nf > M) sx_assume(0);
  char src[2000]; char *s = src; s += sprintf(s, "class Base { b() { return 1; } } def two() { return 2; } "); if (where) s += sprintf(s, "def t() { var l = 3; ");
  put(&s, "c", nc, cv); s += sprintf(s, form == 0 ? "class K { " : form == 1 ? "abstract class K { " : form == 2 ? "trait K { " : "class K < Base { ");
  s += sprintf(s, "p() { return 1; } "); put(&s, "m", nm, mv); s += sprintf(s, "meth(a) { return a; } "); put(&s, "f", nf, fv); s += sprintf(s, cst ? "const fld = two(); " : "var fld = two(); ");
  s += sprintf(s, "q() { return 2; } } rec([K.classAnnotations, K.methodAnnotations, K.fieldAnnotations, K.fld]); "); if (where) s += sprintf(s, "check(l == 3, \"locals around a class\"); } t();");
  x_have = 0; int rc = hx_run(vm, src); sx_assert(rc == 0 && x_have == 1, "an annotated class can be declared and its annotations read"); if (rc != 0 || x_have != 1) return;
  ObjList *r = AS_LIST(x_got); vm->stackTop += 0;
  sx_assert(r->values.values[3] == NUMBER_VAL(2), "annotations do not change the class");
  if (nc) { sx_assert(IS_DICT(r->values.values[0]), "classAnnotations"); expect(AS_DICT(r->values.values[0]), "c", nc, cv, vm); } else sx_assert(IS_NIL(r->values.values[0]), "no classAnnotations");
  for (int w = 1; w <= 2; w++) { int n = w == 1 ? nm : nf; Value v = r->values.values[w], e; if (!n) { sx_assert(IS_NIL(v), "no member annotations"); continue; }
    sx_assert(IS_DICT(v) && AS_DICT(v)->activeCount == 1, "one annotated member"); const char *k = w == 1 ? "meth" : "fld"; int ok = dictGet(AS_DICT(v), OBJ_VAL(copyString(vm, k, (int)strlen(k))), &e); sx_assert(ok, "name of the annotated member"); if (ok) expect(AS_DICT(e), w == 1 ? "m" : "f", n, w == 1 ? mv : fv, vm); }
  dictuFreeVM(vm); sx_cover("end");
}
