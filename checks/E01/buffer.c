// @covers value, error
// @quick ARGS=2 KINDS=8
// @thorough ARGS=2 KINDS=39
// @max-instr 60000000
// @timeout 300 800
// @weight 1
// @bounds Buffer; 0 to ARGS arguments, the first of 39 kinds (14 numbers, nil, booleans, strings, lists, dictionaries, sets, functions, classes, instances, results, traits, enums, bound methods, built-in functions), the others of the first KINDS; the result is printed, the interpreter freed
#include "natives.h"
static const char *const n_buffer[] = {"Buffer.new", "Buffer.fromString", "U.resize", "U.set", "U.get", "U.subarray", "U.string", "U.len", "U.values", "U.writeString", "U.readString", "U.readUInt64LE", "U.readUInt32LE", "U.readUInt16LE", "U.readInt64LE", "U.readInt32LE", "U.readInt16LE", "U.readInt8", "U.readUInt8", "U.readFloatLE", "U.readDoubleLE", "U.writeUInt64LE", "U.writeUInt32LE", "U.writeUInt16LE", "U.writeInt64LE", "U.writeInt32LE", "U.writeInt16LE", "U.writeInt8", "U.writeUInt8", "U.writeFloatLE", "U.writeDoubleLE", "U.readUInt64BE", "U.readUInt32BE", "U.readUInt16BE", "U.readInt64BE", "U.readInt32BE", "U.readInt16BE", "U.readFloatBE", "U.readDoubleBE", "U.writeUInt64BE", "U.writeUInt32BE", "U.writeUInt16BE", "U.writeInt64BE", "U.writeInt32BE", "U.writeInt16BE", "U.writeFloatBE", "U.writeDoubleBE", 0};
void h_buffer(void) { e_go("import Buffer; var U = Buffer.new(9).unwrap();", n_buffer, 300); }
