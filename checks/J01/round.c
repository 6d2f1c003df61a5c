// @wrap
// @covers end, multi
// @quick N=1
// @thorough N=2
// @timeout 150 850
// @bounds values of 11 shapes (nil, booleans, any integer -120..120, four integers where nested, strings of 0..N+1 bytes in all and 0..1 bytes in nested shapes, lists and dictionaries of them nested twice); printed on one line or with indent -1..1
#include "json.h"
static int r_eq(Value a, Value b) { if (IS_LIST(a) && IS_LIST(b)) { ObjList *x = AS_LIST(a), *y = AS_LIST(b); if (x->values.count != y->values.count) return 0; int ok = 1; for (int i = 0; i < x->values.count; i++) ok &= r_eq(x->values.values[i], y->values.values[i]); return ok; }
  if (IS_DICT(a) && IS_DICT(b)) { ObjDict *x = AS_DICT(a), *y = AS_DICT(b); if (x->count != y->count) return 0; for (int i = 0; i <= x->capacityMask; i++) { if (IS_EMPTY(x->entries[i].key)) continue; int hit = 0; for (int k = 0; k <= y->capacityMask && !hit; k++) if (IS_STRING(y->entries[k].key)) if (AS_STRING(y->entries[k].key)->length == AS_STRING(x->entries[i].key)->length && hx_eq(x->entries[i].key, y->entries[k].key)) hit = r_eq(x->entries[i].value, y->entries[k].value); if (!hit) return 0; } return 1; }
  return ml_eqv(a, b); }
static const double r_num[4] = {0, -7, 40, 2147483648.0};
void h_round(void) { uint64_t heap = sx_heap_live(); DictuVM *vm = o_new(); int N = (int)sx_param("N", 1), only = (int)sx_param("SHAPE", -1), shape = only >= 0 ? only : sx_choose("shape", 11), ind = sx_choose("indent", 4) - 2; char s[8] = {0}, q[8] = {0}; int n = sx_choose("n", N + 2), m = sx_choose("m", N + 1);
  static const char *const sh[] = {"nil", "true", "val(0)", "val(1)", "[val(0), val(1)]", "{\"k\": val(1), \"l\": [val(2)]}", "{\"k\": {}, \"a b\": []}", "[[], [nil, false], {\"x\": val(0)}]", "{val(1): val(0)}", "[[val(1)], {\"k\": {\"m\": [1, \"\"]}}]", "[{\"\": 1}, \"\", -5]"};
  int any = shape == 3 || shape == 4 || shape == 5 || shape == 8 || shape == 9; if (!any || (n > N && shape != 3)) n = 0; if (shape != 5) m = 0; if (shape == 2 || shape == 4 || shape == 7 || shape == 8) x_vals[0] = shape == 2 ? NUMBER_VAL((double)sx_range("number", -120, 120)) : NUMBER_VAL(r_num[sx_choose("number", 4)]); else x_vals[0] = NUMBER_VAL(0);
  o_text(s, n, "s", NULL); o_text(q, m, "q", NULL); x_vals[1] = o_mk(vm, s, n); x_vals[2] = o_mk(vm, q, m); char src[300];
  if (ind == -2) snprintf(src, sizeof src, "import JSON; var v = %s; var t = JSON.stringify(v).unwrap(); out(v, t, JSON.parse(t).unwrap());", sh[shape]); else { x_vals[3] = NUMBER_VAL(ind); snprintf(src, sizeof src, "import JSON; var v = %s; var t = JSON.stringify(v, val(3)).unwrap(); out(v, t, JSON.parse(t).unwrap());", sh[shape]); }
  o_ok(vm, src); sx_assert(r_eq(o_v[0], o_v[2]), "parse(stringify(v)) equals v");
  JR r; Value v = o_v[0]; int ok = IS_STRING(o_v[1]) && jr_text(&r, AS_CSTRING(o_v[1]), AS_STRING(o_v[1])->length, &v); sx_assert(ok && r.ok, "stringify gives a valid JSON text of the value"); if (ind >= 0) sx_cover("multi");
  sx_cover("end"); dictuFreeVM(vm); sx_assert(sx_heap_live() == heap, "everything is released"); }
