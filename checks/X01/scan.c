// @covers end, error, string, newline
// @quick N=3
// @thorough N=4
// @timeout 300 2400
// @bounds 0..N arbitrary bytes (NUL ends the source) after each of 12 beginnings: nothing, open string, escape, raw string, number, hexadecimal number, exponent, identifier, comments, shebang, keyword prefix
#include "expr.h"
#include "scanner.h"
void h_scan(void) {
  static const char *const pre[] = {"", "\"", "'\\", "r\"", "1", "0x", "1e", "a_", "/*", "//", "#!", "cla"};
  int k = sx_choose("prefix", 12), n = sx_choose("len", sx_param("N", 4) + 1), p = (int)strlen(pre[k]);
  char *src = malloc((size_t)(p + n + 1)); memcpy(src, pre[k], (size_t)p);
  for (int i = 0; i < n; i++) { char nm[4] = {'b', (char)('0' + i), 0}; src[p + i] = (char)sx_sym(nm, 8); } src[p + n] = 0;
  int len = 0; while (src[len]) len++;
  Scanner sc; initScanner(&sc, src); const char *end = src; int lines = 1;
  for (int t = 0; ; t++) {
    sx_assert(t <= len, "at most one token per byte"); LangToken k2 = scanToken(&sc);
    sx_assert(sc.current >= end && sc.current <= src + len, "the scanner stays inside the source");
    for (const char *c = end; c < sc.current; c++) if (*c == '\n') { lines++; sx_cover("newline"); }
    sx_assert(k2.line == lines, "the line of a token counts the newlines up to its end");
    if (k2.type == TOKEN_EOF) { sx_assert(sc.current == src + len, "the end of the source is reported at its end"); break; }
    sx_assert(sc.current > end, "every token consumes input"); end = sc.current;
    if (k2.type == TOKEN_ERROR) { sx_cover("error"); continue; }
    if (k2.type == TOKEN_STRING) { sx_cover("string"); sx_assert(k2.length >= 2 && k2.start[0] == k2.start[k2.length - 1], "a string token spans from quote to quote"); }
    sx_assert(k2.start >= src && k2.length > 0 && k2.start + k2.length == sc.current, "a token spans the consumed bytes"); }
  LangToken e = scanToken(&sc); sx_assert(e.type == TOKEN_EOF && sc.current == src + len, "the scanner stays at the end");
  free(src); sx_cover("end"); }
