// @covers value, error
// @max-instr 60000000
// @timeout 300 800
// @bounds the functions of Random, Math, Buffer, Queue, Stack, System, Datetime and BigInt that take numbers; numbers below 12; every numeric argument is any number below 12; the interpreter is freed afterwards
#include "natives.h"
static const char *const n_numbers2[] = {"Random.range(#, #)", "Random.random()", "Random.range($, $)", "Random.select([#])", "Math.average(#, #)", "Math.floor(#)", "Math.round(#)", "Math.ceil(#)", "Math.abs(#)", "Math.max(#, #)", "Math.min([#, #])", "Math.sum(#, #)", "Math.gcd($, 12)", "Math.lcm($, 12)", "Math.lcm([2, $])", "Buffer.new($)", "U.resize($)", "U.set(#, #)", "U.get(#)", "U.subarray($, $)", "U.subarray($)", "U.writeString(#, \"abc\")", "U.readString($, #)", "U.readUInt64LE(#)", "U.readUInt32LE(#)", "U.readUInt16LE(#)", "U.readInt64LE(#)", "U.readInt32LE(#)", "U.readInt16LE(#)", "U.readInt8(#)", "U.readUInt8(#)", "U.readFloatLE(#)", "U.readDoubleLE(#)", "U.readUInt64BE(#)", "U.readUInt32BE(#)", "U.readUInt16BE(#)", "U.readInt64BE(#)", "U.readInt32BE(#)", "U.readInt16BE(#)", "U.readFloatBE(#)", "U.readDoubleBE(#)", "U.writeUInt64LE(#, #)", "U.writeUInt32LE(#, #)", "U.writeUInt16LE(#, #)", "U.writeInt64LE(#, #)", "U.writeInt32LE(#, #)", "U.writeInt16LE(#, #)", "U.writeInt8(#, #)", "U.writeUInt8(#, #)", "U.writeFloatLE(#, #)", "U.writeDoubleLE(#, #)", "U.writeUInt64BE(#, #)", "U.writeUInt32BE(#, #)", "U.writeUInt16BE(#, #)", "U.writeInt64BE(#, #)", "U.writeInt32BE(#, #)", "U.writeInt16BE(#, #)", "U.writeFloatBE(#, #)", "U.writeDoubleBE(#, #)", "Queue.newWithSize($)", "Stack.newWithSize($)", "System.mkdir(\"d\", #)", "System.access(\"d\", #)", "BigInt.new(#)", "G.add(#)", "G.compare(#)", "S.repeat($)", "Inspect.getLine(#)", "Inspect.getFile(#)", "IO.print(L[#])", 0};
void h_numbers2(void) { e_numbers("import Random; import Math; import Buffer; import Queue; import Stack; import System; import BigInt; import Inspect; import IO; var U = Buffer.new(9).unwrap(); var G = BigInt.new(\"-77\").unwrap();", n_numbers2, 12); }
