// @covers value, error
// @max-instr 60000000
// @timeout 300 800
// @bounds the calls of methods of lists, strings and dictionaries that take numbers; every numeric argument is any number (an integer from -2 to 9 where the key is printed); the interpreter is freed afterwards
#include "natives.h"
static const char *const n_numbers1[] = {"L.insert(1, #)", "L.insert(#, #)", "L.pop(#)", "L.remove(#)", "L.push(#)", "L.contains(#)", "L[#]", "L[#:#]", "L[#:]", "S[#]", "S[#:#]", "S[:#]", "D.get(#)", "D.remove($)", "D.exists(#)", "D[$]", "T.add(#)", "T.remove($)", "T.contains(#)", "set(#, #)", "{#: #, #: 1}", "[#, #].sort()", "[3, #, 1, #].sort()", "S.wrap(#)", "S.split(\",\", #)", "S.split(\"\", #)", "S.replace(\"a\", \"b\", #)", "S.startsWith(#)", "S.find(\"a\", #)", "S.findLast(\"a\", #)", "S.count(#)", "[1, #].reduce(def (a, b) => a + b, #)", "[1, #].reduce(f)", "(#).toBool()", "[#, 1].deepCopy()", "K(#).deepCopy().iv", "Success(#).unwrap()", "E.values()[$]", "I.getAttribute(\"zz\", #)", "I.setAttribute(\"zz\", #)", "assert(#)", 0};
void h_numbers1(void) { e_numbers("", n_numbers1, 0); }
