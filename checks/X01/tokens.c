// @wrapfn scanToken
// @covers end, accepted, rejected
// @quick K=2 G=1 Q=2
// @thorough K=3 G=2 Q=5
// @timeout 300 2400
// @bounds 36 program beginnings, each continued by every sequence of K tokens (identifiers a, init; string 'a'; number 12; every other token) and then the end of the source or closing brackets; compilation only, thorough also with a collection at every allocation
#include "expr.h"
#include "compiler.h"
#include "scanner.h"
static const char *const t_txt[] = {"(", ")", "{", "}", "[", "]", ",", ".", "-", "+", "?", "?.", "+=", "-=", "*=", "/=", ";", ":", "/", "*", "**", "%", "@", "&", "^", "|", "&=", "^=", "|=", "not", "!=", "=", "==", ">", ">=", "<", "<=", "r", "=>", "...",
  "a", "'a'", "12", "class", "abstract", "trait", "use", "static", "private", "this", "super", "def", "as", "enum", "if", "and", "else", "or", "switch", "case", "default", "var", "const", "true", "false", "nil", "for", "while", "break", "return", "continue", "with"};
static char *t_src; static int t_p, t_k, t_done; static unsigned char t_type[8]; static unsigned char t_alt[8];
#ifndef SX_REPLAY
LangToken real_scanToken(Scanner *s);
static void t_pick(int i) { if (i < t_done) return; t_done = i + 1; char nm[4] = {'t', (char)('0' + i), 0}; t_type[i] = (unsigned char)sx_sym(nm, 8); sx_assume(t_type[i] < TOKEN_EOF);
  char *o = t_src + t_p + 5 * i; char nn[4] = {'i', (char)('0' + i), 0};
  if (t_type[i] == TOKEN_IDENTIFIER) { t_alt[i] = (unsigned char)sx_choose(nn, 2); memcpy(o, t_alt[i] ? "init" : "a", t_alt[i] ? 4 : 1); } else if (t_type[i] == TOKEN_STRING) memcpy(o, "'a'", 3); else if (t_type[i] == TOKEN_NUMBER) memcpy(o, "12", 2); else if (t_type[i] == TOKEN_R) memcpy(o, "r", 1); else memcpy(o, "??", 2); }
LangToken wrap_scanToken(Scanner *s) {
  long off = s->current - t_src; while (off < t_p && (t_src[off] == ' ')) off++;
  if (off < t_p) return real_scanToken(s);
  while (off < t_p + 5 * t_k && (off - t_p) % 5) off++;
  if (off >= t_p + 5 * t_k) return real_scanToken(s);
  int i = (int)(off - t_p) / 5; t_pick(i);
  LangToken t; t.type = t_type[i]; t.start = t_src + off; t.line = s->line; t.length = 2;
  if (t_type[i] == TOKEN_IDENTIFIER) t.length = t_alt[i] ? 4 : 1; else if (t_type[i] == TOKEN_STRING) t.length = 3; else if (t_type[i] == TOKEN_R) t.length = 1;
  s->start = t.start; s->current = t.start + t.length; return t; }
#endif
void h_tokens(void) {
  static const char *const pre[] = {"", "{ ", "class A { ", "class A < B { m() { ", "abstract class A { abstract ", "trait T { ", "enum E { ", "enum E { a ", "def f(", "def f(a, ", "def f() { return ", "var x = ", "var [a, ", "const x ", "for (", "for (var i = 0; ", "while ", "if (1) ", "switch (1) { case ", "switch (1) { case 1: {} ",
    "from ", "from Math import ", "import ", "with (", "@", "@a( ", "class A { init() { this.", "x.", "x[", "x?.", "f(", "def (", "{'a'", "class A { @a ", "class A { @a private b; ", "class A { @a var b = 1; "};
  static const char *const post[] = {"", "); }", "}", ";", "] = 1;"};
  int k = sx_choose("prefix", 36), q = sx_choose("suffix", sx_param("Q", 5)), gc = sx_choose("collect", sx_param("G", 2)); t_k = sx_param("K", 2); t_p = (int)strlen(pre[k]) + 1;
  t_src = malloc(200); memset(t_src, ' ', 200); memcpy(t_src, pre[k], (size_t)t_p - 1); strcpy(t_src + t_p + 5 * t_k, post[q]);
#ifdef SX_REPLAY
  char *o = t_src + t_p; *o = 0; for (int i = 0; i < t_k; i++) { char nm[4] = {'t', (char)('0' + i), 0}, nn[4] = {'i', (char)('0' + i), 0}; int t = (int)sx_sym(nm, 8); const char *x = t_txt[t < 71 ? t : 0]; if (t == TOKEN_IDENTIFIER && sx_choose(nn, 2)) x = "init"; if (t == TOKEN_IMPORT) x = "import"; if (t == TOKEN_FROM) x = "from"; strcat(o, x); if (t != TOKEN_R) strcat(o, " "); } strcat(o, post[q]);
#endif
  DictuVM *vm = hx_new(); ObjString *name = copyString(vm, "h", 1); push(vm, OBJ_VAL(name)); ObjModule *m = newModule(vm, name); pop(vm); push(vm, OBJ_VAL(m)); m->path = getDirectory(vm, (char *)"h"); pop(vm);
  if (gc) vm->nextGC = 0;
  ObjFunction *f = compile(vm, m, t_src); sx_cover(f ? "accepted" : "rejected");
  dictuFreeVM(vm); sx_cover("end"); }
