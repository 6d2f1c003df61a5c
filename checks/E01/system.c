// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds System, IO and closed files; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_system[] = {"System.rmdir", "System.mkdir", "System.mkdirAll", "System.access", "System.remove", "System.setCWD", "System.getCWD", "System.time", "System.clock", "System.collect", "System.rename", "System.chmod", "System.chown", "IO.copyFile", "W.write", "W.writeLine", "W.read", "W.readLine", "W.seek", "O.read", "O.readLine", "O.seek", "O.write", 0};
void h_system(void) { e_go("import System; import IO; var W; var O; with(\"w\", \"w\") { W = file; } with(\"w\", \"r\") { O = file; }", n_system, 0); }
