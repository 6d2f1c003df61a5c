// @covers end, break, continue, return, switch, closure, twice
// @weight 6
// @quick N=3 C=4 D=3
// @thorough N=4 C=5 D=3
// @timeout 300 3000
// @bounds every function body of up to N statements nested up to D deep over: record, local captured by a closure, if, if-else, while, for, while without condition, conditional break, continue and return, switch with single, multiple and default cases, block; every outcome of up to C condition evaluations per run, every value of the switched number
#include "expr.h"
enum { N_REC, N_LOCAL, N_IF, N_IFELSE, N_WHILE, N_FOR, N_FOREVER, N_BREAK, N_CONT, N_RET, N_SWITCH, N_BLOCK, N_KINDS };
typedef struct { int kind, body, els, next, id; } Node; // body/els/next: node index or -1
static Node g_n[16]; static int g_cnt, g_left, g_ids; static char g_src[9000];
static int g_trace[400], g_want[400], g_nt, g_nw, g_cond, g_maxcond; static unsigned char g_cv[16];
static double g_sw[16];
static int gen_list(int depth, int inloop);
static int gen(int depth, int inloop) {
  char nm[8]; int me = g_cnt++; nm[0] = 'k'; nm[1] = (char)('0' + me); nm[2] = 0; g_left--;
  int max = depth > 0 && g_left >= 0 ? N_KINDS : N_KINDS; (void)max;
  int k = sx_choose(nm, N_KINDS);
  if ((k == N_BREAK || k == N_CONT) && !inloop) sx_assume(0);
  int comp = k == N_IF || k == N_IFELSE || k == N_WHILE || k == N_FOR || k == N_FOREVER || k == N_SWITCH || k == N_BLOCK;
  if (comp && depth == 0) sx_assume(0);
  Node *n = &g_n[me]; n->kind = k; n->id = ++g_ids; n->body = n->els = n->next = -1;
  int loop = inloop || k == N_WHILE || k == N_FOR || k == N_FOREVER;
  if (comp) { n->body = gen_list(depth - 1, loop); if (k == N_FOREVER || k == N_BLOCK) sx_assume(n->body >= 0);
    if (k == N_IFELSE || k == N_SWITCH) n->els = gen_list(depth - 1, loop); }
  return me; }
static int gen_list(int depth, int inloop) { // 0 or more statements
  int first = -1, last = -1;
  while (g_left > 0) { char nm[8] = {'m', (char)('0' + g_cnt), (char)('a' + depth), (char)(last < 0 ? 'x' : 'y'), 0}; if (!sx_choose(nm, 2)) break; int k = gen(depth, inloop); if (last < 0) first = k; else g_n[last].next = k; last = k; }
  return first; }
#define E(...) sprintf(g_src + strlen(g_src), __VA_ARGS__)
static void txt(int i) {
  for (; i >= 0; i = g_n[i].next) { Node *n = &g_n[i];
    switch (n->kind) {
      case N_REC: E("r(%d); ", n->id); break;
      case N_LOCAL: E("var a%d = %d; fs.push(def () => a%d); a%d += 1; ", i, 1000 + n->id * 10, i, i); break;
      case N_IF: E("if (c()) { var w%d = %d; ", i, 5000 + i); txt(n->body); E("r(w%d); } ", i); break;
      case N_IFELSE: E("if (c()) { "); txt(n->body); E("} else { var w%d = %d; ", i, 5000 + i); txt(n->els); E("r(w%d); } ", i); break;
      case N_WHILE: E("while (c()) { var w%d = %d; ", i, 5000 + i); txt(n->body); E("r(w%d); } ", i); break;
      case N_FOR: E("for (var i%d = 0; i%d < 2; i%d += 1) { var w%d = %d; ", i, i, i, i, 5000 + i); txt(n->body); E("r(w%d + i%d); } ", i, i); break;
      case N_FOREVER: E("while { "); txt(n->body); E("if (c()) { r(%d); } } ", 300 + n->id); break;
      case N_BREAK: E("if (c()) break; "); break;
      case N_CONT: E("if (c()) continue; "); break;
      case N_RET: E("if (c()) return r(%d); ", 400 + n->id); break;
      case N_SWITCH: E("switch (s(%d)) { case 0: { var w%d = %d; ", n->id, i, 5000 + i); txt(n->body); E("r(w%d); } case 1, 2, 3: r(%d); default: { ", i, 200 + n->id); txt(n->els); E("} } "); break;
      default: E("{ var w%d = %d; ", i, 5000 + i); txt(n->body); E("r(w%d); } ", i); } } }
static Value fn_r(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; if (g_nt < 400) g_trace[g_nt++] = (int)AS_NUMBER(a[0]); return a[0]; }
static Value fn_c(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; if (g_cond >= g_maxcond) { sx_assert(0, "no more conditions are evaluated than control flow reaches"); sx_assume(0); } return BOOL_VAL(g_cv[g_cond++]); }
static Value fn_s(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; int id = (int)AS_NUMBER(a[0]); return NUMBER_VAL(g_sw[id]); }
// reference: 0 normal, 1 break, 2 continue, 3 return
static int cells[64], ncells;
static int rc_cond(void) { if (g_cond >= g_maxcond) sx_assume(0); char nm[4] = {'c', (char)('0' + g_cond), 0}; int b = (int)sx_concretize(sx_sym(nm, 8) & 1); g_cv[g_cond++] = (unsigned char)b; return b; }
static void w(int v) { if (g_nw >= 390) sx_assume(0); g_want[g_nw++] = v; }
static int run(int i) {
  for (; i >= 0; i = g_n[i].next) { Node *n = &g_n[i]; int r = 0;
    switch (n->kind) {
      case N_REC: w(n->id); break;
      case N_LOCAL: if (ncells >= 60) sx_assume(0); cells[ncells++] = 1001 + n->id * 10; break;
      case N_IF: if (rc_cond()) { r = run(n->body); if (r) return r; w(5000 + i); } break;
      case N_IFELSE: if (rc_cond()) r = run(n->body); else { r = run(n->els); if (!r) w(5000 + i); } if (r) return r; break;
      case N_WHILE: while (rc_cond()) { r = run(n->body); if (r == 1) { sx_cover("break"); break; } if (r == 3) return r; if (r == 2) sx_cover("continue"); else w(5000 + i); } break;
      case N_FOR: for (int k = 0; k < 2; k++) { r = run(n->body); if (r == 1) { sx_cover("break"); break; } if (r == 3) return r; if (r == 2) sx_cover("continue"); else w(5000 + i + k); } break;
      case N_FOREVER: for (;;) { r = run(n->body); if (r == 1) break; if (r == 3) return r; if (r == 2) continue; if (rc_cond()) w(300 + n->id); } break;
      case N_BREAK: if (rc_cond()) return 1; break;
      case N_CONT: if (rc_cond()) return 2; break;
      case N_RET: if (rc_cond()) { w(400 + n->id); sx_cover("return"); return 3; } break;
      case N_SWITCH: { double v = g_sw[n->id]; if (sx_concretize(v == 0)) { r = run(n->body); if (!r) w(5000 + i); } else if (sx_concretize((v == 1) | (v == 2) | (v == 3))) { w(200 + n->id); sx_cover("switch"); } else r = run(n->els); if (r) return r; break; }
      default: r = run(n->body); if (r) return r; w(5000 + i); } }
  return 0; }
void h_gen(void) {
  DictuVM *vm = hx_new(); defineNative(vm, &vm->globals, "r", fn_r); defineNative(vm, &vm->globals, "c", fn_c); defineNative(vm, &vm->globals, "s", fn_s);
  g_left = sx_param("N", 3); int D = sx_param("D", 3), twice = sx_choose("twice", 2);
  int top = gen_list(D, 0); sx_assume(top >= 0);
  int local = sx_choose("top", 2); // inside a function, or at the top level (no return there)
  for (int i = 0; i < g_cnt; i++) { if (g_n[i].kind == N_RET && !local) sx_assume(0); if (g_n[i].kind == N_SWITCH) { char nm[4] = {'s', (char)('0' + i), 0}; double d = sx_double(nm); sx_assume(d == d); g_sw[g_n[i].id] = d; } }
  // inside a function called (once or twice) with other values on the stack, or at the top level
  if (local) E("var fs = []; def f(p, q) { var z = 77; "); else { sx_assume(!twice); E("var fs = []; var z = 77; var p = 8; "); }
  txt(top);
  if (local) { E("r(z); r(p); return r(q); } "); E(twice ? "[1, f(8, 9), f(8, 9)]; " : "[1, f(8, 9)]; "); } else E("r(z); r(p); ");
  E("fs.forEach(def (g) => r(g()));");
  g_maxcond = sx_param("C", 4); ncells = 0;
  for (int k = 0; k <= twice; k++) { int r = run(top); if (r != 3) { w(77); w(8); if (local) w(9); } }
  for (int k = 0; k < ncells; k++) w(cells[k]);
  if (ncells) sx_cover("closure"); if (twice) sx_cover("twice");
  g_maxcond = g_cond; g_cond = 0;
  int rc = hx_run(vm, g_src); sx_assert(rc != 1, "program compiles"); sx_assert(rc == 0, "program runs without an error");
  sx_assert(g_cond == g_maxcond, "every condition control flow reaches is evaluated");
  int same = g_nt == g_nw; for (int k = 0; same && k < g_nt; k++) same = g_trace[k] == g_want[k];
  sx_assert(same, "statements run in the order the documented control flow gives");
  dictuFreeVM(vm); sx_cover("end"); }
