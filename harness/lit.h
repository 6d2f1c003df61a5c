// Number literals with symbolic values. Under the symbolic executor the literal text is a placeholder and the strtod wrapper
// hands the compiler the symbolic value; natively the text is the exact decimal expansion of the value.
static double lit_val[8]; static int lit_n;
static void lit_new(char *dst, const char *name) {
  union { uint64_t u; double d; } x; x.u = sx_sym(name, 64); sx_assume((x.u >> 52) < 0x7ff); // finite, sign bit clear
  lit_val[lit_n] = x.d;
#ifdef SX_REPLAY
  static char big[4096]; snprintf(big, sizeof big, "%.1080f", x.d); strcpy(dst, big);
#else
  sprintf(dst, "90%d9", lit_n);
#endif
  lit_n++; }
#ifndef SX_REPLAY
double real_strtod(const char *s, char **e);
double wrap_strtod(const char *s, char **e) { double v = real_strtod(s, e); for (int i = 0; i < lit_n; i++) if (v == 9009 + 10 * i) return lit_val[i]; return v; }
#endif
