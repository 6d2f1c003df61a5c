// Interning model for strings with symbolic content: wraps copyString/takeString (see DESIGN.md "interning model").
#include "vm.h"
#include "object.h"
#include "memory.h"
#include <string.h>
#include "sx.h"
ObjString *real_copyString(DictuVM *vm, const char *chars, int length);
static ObjString *reg[256]; static int nreg; static unsigned serial;
static ObjString *lookup(DictuVM *vm, const char *chars, int length, int conc) {
  for (int i = 0; i < nreg; i++) if (reg[i]->length == length && memcmp(reg[i]->chars, chars, (size_t)length) == 0) return reg[i];
  if (conc) return NULL;
  Table *t = &vm->strings;
  for (int i = 0; i < t->capacity; i++) { ObjString *k = t->entries[i].key; if (k == NULL || k->length != length) continue;
    if (!sx_is_concrete(k->chars, (uint64_t)length)) continue;
    if (length > 0 && (unsigned char)k->chars[0] >= 0xF8 ) continue;
    if (memcmp(k->chars, chars, (size_t)length) == 0) return k; }
  return NULL;
}
ObjString *wrap_copyString(DictuVM *vm, const char *chars, int length) {
  if (length <= 0) return real_copyString(vm, chars, length);
  int conc = sx_is_concrete(chars, (uint64_t)length);
  ObjString *s = lookup(vm, chars, length, conc); if (s) return s;
  if (conc) return real_copyString(vm, chars, length);
  char ph[4096]; unsigned k = serial++; memset(ph, 0xF8, (size_t)length);
  for (int i = 0; i < length && k; i++) { ph[i] = (char)(0xF8 + (k & 7)); k >>= 3; }
  if (k) sx_assert_(0, "interning model: placeholder space exhausted");
  s = real_copyString(vm, ph, length); memcpy(s->chars, chars, (size_t)length); reg[nreg++] = s; return s;
}
ObjString *wrap_takeString(DictuVM *vm, char *chars, int length) {
  sx_assert(chars[length] == 0, "string handed to takeString is NUL-terminated at its length");
  ObjString *s = wrap_copyString(vm, chars, length);
  FREE_ARRAY(vm, char, chars, length + 1); return s;
}
