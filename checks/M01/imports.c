// @covers end, circular, error, late, from
// @weight 6
// @quick OPS=2 C=0 LATE=0
// @thorough OPS=3 C=1 LATE=2
// @timeout 350 850
// @bounds three modules in two directories (relative paths both ways), each importing nothing or any other one at its start (with a name, by from, by name inside a function, by name and then calling a function of it that imports a further module), also in cycles; a main program of up to OPS operations out of: import with a name, without a name, by from, inside a function by name and by from, each of any module, also repeatedly, each followed by reading, calling, assigning and late importing through it; the module variables any numbers
#include "out.h"
static int m_log[16], m_n;
static Value mn_load(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; if (m_n < 16) m_log[m_n++] = (int)AS_NUMBER(a[0]); return NIL_VAL; }
enum { E_NONE, E_AS, E_FROM, E_FN, E_CALL, E_N };
enum { P_AS, P_PLAIN, P_FROM, P_FN, P_FNFROM, P_N };
static int e_form[3], e_to[3], e_late[3], st[3], want_log[16], want_n, m_err; static Value m_v[3];
static const char *const m_path[3][3] = {{"a.du", "d/b.du", "d/c.du"}, {"../a.du", "b.du", "./c.du"}, {"../a.du", "../d/b.du", "c.du"}};
static int m_up(int t) { if (st[t]) return 0; return 1; }
static void m_load(int t);
static void m_use(int t) { if (!m_err && st[t] != 2) m_err = 1; } // its names are not there yet
static void m_call_late(int t) { m_use(t); if (m_err) return; int u = e_late[t]; if (m_up(u)) m_load(u); m_use(u); }
static void m_load(int t) { if (m_err) return; st[t] = 1; if (want_n < 16) want_log[want_n++] = t; int u = e_to[t];
  if (e_form[t] != E_NONE) { if (m_up(u)) m_load(u); else if (st[u] == 1) sx_cover("circular"); if (m_err) return; if (e_form[t] == E_FROM || e_form[t] == E_FN) m_use(u); if (e_form[t] == E_CALL) m_call_late(u); }
  if (!m_err) st[t] = 2; }
void h_imports(void) {
  DictuVM *vm = o_new(); defineNative(vm, &vm->globals, "load", mn_load); m_n = 0; want_n = 0; m_err = 0;
  static const char *const file[3] = {"a.du", "d/b.du", "d/c.du"}; static char src[4000]; char lg = (char)sx_choose("late", sx_param("LATE", 1) + 1);
  for (int t = 0; t < 3; t++) { st[t] = 0; char nm[4] = {'v', (char)('0' + t), 0}, f[4] = {'f', (char)('0' + t), 0}, g[4] = {'t', (char)('0' + t), 0};
    double x = sx_double(nm); sx_assume(x == x); m_v[t] = x_vals[t] = NUMBER_VAL(x); e_form[t] = t == 2 && !sx_param("C", 0) ? sx_choose(f, 2) : sx_choose(f, E_N); e_to[t] = e_form[t] == E_NONE ? t : (t + 1 + sx_choose(g, 2)) % 3; e_late[t] = (t + 1 + (lg == 2 ? t % 2 : lg)) % 3;
    char *s = src; int u = e_to[t]; s += sprintf(s, "load(%d); ", t);
    switch (e_form[t]) {
      case E_AS: s += sprintf(s, "import \"%s\" as y; def chk() { return y.who%d(); } ", m_path[t][u], u); break;
      case E_FROM: s += sprintf(s, "from \"%s\" import who%d, v%d; def chk() { return who%d(); } ", m_path[t][u], u, u, u); break;
      case E_FN: s += sprintf(s, "def ld() { var k = 4; import \"%s\" as y; return [k, y.who%d()]; } var yy = ld(); def chk() { return yy[1]; } ", m_path[t][u], u); break;
      case E_CALL: s += sprintf(s, "import \"%s\" as y; var lt = y.late%d(); def chk() { return y.who%d(); } ", m_path[t][u], u, u); break;
      default: s += sprintf(s, "def chk() { return %d; } ", u); }
    s += sprintf(s, "var v%d = val(%d); def who%d() { return %d; } def get() { return v%d; } def put(x) { v%d = x; } def late%d() { import \"%s\" as z; return z.who%d(); } ", t, t, t, t, t, t, t, m_path[t][e_late[t]], e_late[t]);
    sx_file_put(file[t], src, (uint64_t)(s - src)); }
  int K = sx_param("OPS", 2), op[4], to[4]; char *s = src; static Value want[64]; int wn = 0;
  for (int i = 0; i < K; i++) { char p[4] = {'p', (char)('0' + i), 0}, q[4] = {'q', (char)('0' + i), 0}; op[i] = sx_choose(p, P_N); int t = to[i] = sx_choose(q, 3);
    const char *pt = m_path[0][t];
    switch (op[i]) {
      case P_AS: s += sprintf(s, "import \"%s\" as m%d; out(m%d.who%d(), m%d.v%d, m%d.chk()); m%d.put(%d); out(m%d.v%d, m%d.late%d(), m%d.get()); ", pt, i, i, t, i, t, i, i, 50 + i, i, t, i, t, i); break;
      case P_PLAIN: s += sprintf(s, "import \"%s\"; out(7); ", pt); break;
      case P_FROM: s += sprintf(s, "from \"%s\" import who%d, v%d, put, get; out(who%d(), v%d); put(%d); out(get(), v%d); ", pt, t, t, t, t, 60 + i, t); break;
      case P_FN: s += sprintf(s, "def f%d(a) { var b = 3; import \"%s\" as m; return [m.who%d(), m.get(), a, b]; } out(...f%d(8)); ", i, pt, t, i); break;
      default: s += sprintf(s, "def f%d(a) { var b = 3; from \"%s\" import get, who%d; var c = 9; return [who%d(), get(), a, b, c]; } out(...f%d(8)); ", i, pt, t, t, i); } }
  // the reference
  for (int i = 0; i < K && !m_err; i++) { int t = to[i]; if (m_up(t)) m_load(t); if (m_err) break;
#define W(x) want[wn++] = (x)
#define N(x) W(NUMBER_VAL((double)(x)))
    switch (op[i]) {
      case P_AS: N(t); W(m_v[t]); N(e_to[t]); m_v[t] = NUMBER_VAL((double)(50 + i)); W(m_v[t]); m_call_late(t); if (!m_err) { N(e_late[t]); W(m_v[t]); } else wn--; sx_cover("late"); break;
      case P_PLAIN: N(7); break;
      case P_FROM: { Value old = m_v[t]; N(t); W(old); m_v[t] = NUMBER_VAL((double)(60 + i)); W(m_v[t]); W(old); sx_cover("from"); break; }
      case P_FN: N(t); W(m_v[t]); N(8); N(3); break;
      default: N(t); W(m_v[t]); N(8); N(3); N(9); } }
  sx_file_put("h.du", src, (uint64_t)(s - src)); o_n = 0; int rc = (int)dictuInterpret(vm, (char *)"h.du", src); if (m_err) sx_cover("error");
  sx_assert(rc == (m_err ? 2 : 0), "an import fails exactly when it uses a name that its module has not defined yet");
  int ok = m_n == want_n; for (int i = 0; i < m_n && i < want_n; i++) ok &= m_log[i] == want_log[i];
  sx_assert(ok, "every module runs exactly once, when it is first imported");
  ok = o_n == wn; for (int i = 0; i < wn && i < o_n; i++) ok &= x_same(o_v[i], want[i]);
  sx_assert(ok, "an import binds the module it names: its functions, its variables as they are, its own names");
  dictuFreeVM(vm); sx_cover("end");
}
