// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds Hashlib, Env, Datetime, IO and Log; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_lib4[] = {"Hashlib.sha256", "Hashlib.hmac", "Hashlib.verify", "Env.get", "Env.set", "Env.clearAll", "Env.readFile", "Datetime.now", "Datetime.nowUTC", "Datetime.strftime", "Datetime.strptime", "IO.print", "IO.println", "IO.printError", "Log.new", "G.print", "G.println", "G.printf", "G.printfln", "G.setPrefix", 0};
void h_lib4(void) { e_go("import Hashlib; import Env; import Datetime; import IO; import Log; var G = Log.new(Log.stdout).unwrap();", n_lib4, 0); }
