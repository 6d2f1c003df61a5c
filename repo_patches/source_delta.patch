From 0b56f4c82967836c32f4a4bf4963eb5b6e0c27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 01/69] fix: String.replace with an empty needle no longer
 loops past the buffer

---
 src/vm/datatypes/strings.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index e58ca3e..02720ee 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -346,6 +346,12 @@ static Value replaceString(DictuVM *vm, int argCount, Value *args) {
     memcpy(tmp, string, stringLen);
     tmp[stringLen] = '\0';
 
+    // There is nothing to replace when the needle is empty
+    if (len == 0) {
+        FREE_ARRAY(vm, char, tmpFree, stringLen + 1);
+        return stringValue;
+    }
+
     // Count the occurrences of the needle so we can determine the size
     // of the string we need to allocate
     while ((tmp = strstr(tmp, to_replace->chars)) != NULL) {
-- 
2.43.0


From c939f887a53742e6a5f34ad45703f98bc9007eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 02/69] fix: rightStrip and strip remove the first character
 when it is whitespace too

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 02720ee..b301c76 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -499,7 +499,7 @@ static Value rightStripString(DictuVM *vm, int argCount, Value *args) {
     int length;
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (length = string->length - 1; length > 0; --length) {
+    for (length = string->length - 1; length >= 0; --length) {
         if (!isspace(string->chars[length])) {
             break;
         }
-- 
2.43.0


From f57c0cec6d88b9b6efb0b263421837d0cd8b9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 03/69] fix: collapseSpaces terminates the string at its length

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index b301c76..bcedd23 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -691,7 +691,7 @@ static Value collapseSpacesString(DictuVM *vm, int argCount, Value *args) {
         }
     }
 
-    temp[j+1] = '\0';
+    temp[j] = '\0';
 
     if (i != j) {
         temp = SHRINK_ARRAY(vm, temp, char, string->length + 1, j + 1);
-- 
2.43.0


From 9c54c3da84dcd1d9f136da7a8ce7faebacba9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 04/69] fix: String.repeat with a count below one returns an
 empty string instead of overflowing the heap

---
 src/vm/datatypes/strings.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index bcedd23..1a9382c 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -619,6 +619,10 @@ static Value repeatString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     int count = AS_NUMBER(args[1]);
 
+    if (count <= 0) {
+        return OBJ_VAL(copyString(vm, "", 0));
+    }
+
     int tempLen = (string->length * count) + 1;
     char *temp = ALLOCATE(vm, char, tempLen);
 
-- 
2.43.0


From 0adc5dfea7bdce75080f8d650cb56f233403d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 05/69] fix: String.count with an empty needle stops at the end
 of the string

---
 src/vm/datatypes/strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 1a9382c..ccbdc87 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -545,6 +545,9 @@ static Value countString(DictuVM *vm, int argCount, Value *args) {
     int count = 0;
     while ((haystack = strstr(haystack, needle))) {
         count++;
+        if (*haystack == '\0') {
+            break;
+        }
         haystack++;
     }
 
-- 
2.43.0


From 4923a487f160ca31a635a49b703a380f625582aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 06/69] fix: String.split checks the type of its second
 argument

---
 src/vm/datatypes/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index ccbdc87..ac2c847 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -137,7 +137,7 @@ static Value splitString(DictuVM *vm, int argCount, Value *args) {
     int maxSplit = string->length + 1;
 
     if (argCount == 2) {
-        if (!AS_NUMBER(args[1])) {
+        if (!IS_NUMBER(args[2])) {
             runtimeError(vm, "Argument passed to split() must be a number");
             return EMPTY_VAL;
         }
-- 
2.43.0


From 7faac695826d3b6645fad68875bc98c58c317eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 07/69] fix: String.findLast checks the type of its argument

---
 src/vm/datatypes/strings.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index ac2c847..82dd8c9 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -281,6 +281,11 @@ static Value findLastString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "Substring passed to findLast() must be a string");
+        return EMPTY_VAL;
+    }
+
     const char *str = AS_CSTRING(args[0]);
     const char *ss = AS_CSTRING(args[1]);
     const char *p = str;
-- 
2.43.0


From 76f3ca615d5a05ec8940bb7c6a6a83708f127313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 08/69] fix: String.wrap checks its argument, terminates its
 result and only replaces whitespace

---
 src/vm/datatypes/strings.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 82dd8c9..4b670d8 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -718,12 +718,17 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[1])) {
+        runtimeError(vm, "wrap() length argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
     
     int len = AS_NUMBER(args[1]);
 
-    int last = 0;
+    int last = -1;
     int count = 0;
 
     for (int cur = 0; string->chars[cur] != '\0'; cur++, count++) {
@@ -733,13 +738,14 @@ static Value wrapString(DictuVM *vm, int argCount, Value *args) {
             last = cur;
         } 
 
-        if (count >= len) {
+        if (count >= len && last >= 0) {
             temp[last] = '\n';
             count = 0;
         }
     }
+    temp[string->length] = '\0';
 
-    return OBJ_VAL(takeString(vm, temp, strlen(temp)));
+    return OBJ_VAL(takeString(vm, temp, string->length));
 }
 
 void declareStringMethods(DictuVM *vm) {
-- 
2.43.0


From 24e09c13c96cbcea0526406e87e12f3edad801ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 09/69] fix: lower, upper and title convert strings that
 contain NUL bytes to their full length

---
 src/vm/datatypes/strings.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/datatypes/strings.c b/src/vm/datatypes/strings.c
index 4b670d8..0b65a55 100644
--- a/src/vm/datatypes/strings.c
+++ b/src/vm/datatypes/strings.c
@@ -405,7 +405,7 @@ static Value lowerString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = tolower(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -422,7 +422,7 @@ static Value upperString(DictuVM *vm, int argCount, Value *args) {
     ObjString *string = AS_STRING(args[0]);
     char *temp = ALLOCATE(vm, char, string->length + 1);
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         temp[i] = toupper(string->chars[i]);
     }
     temp[string->length] = '\0';
@@ -596,7 +596,7 @@ static Value titleString(DictuVM *vm, int argCount, Value *args) {
 
     bool convertNext=true;
 
-    for (int i = 0; string->chars[i]; i++) {
+    for (int i = 0; i < string->length; i++) {
         if(string->chars[i]==' '){
             convertNext=true;
         }
-- 
2.43.0


From d2a9f3b873394410f7533f4c9a0f741a2ae495d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 10/69] fix: ** computes in double precision like every other
 number operator

---
 src/vm/compiler.c | 2 +-
 src/vm/vm.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 08d0cab..2c5c151 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -550,7 +550,7 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_STAR_STAR: {
-            FOLD_FUNC(powf);
+            FOLD_FUNC(pow);
             return false;
         }
 
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 1dc07fb..e249ad4 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1575,7 +1575,7 @@ static DictuInterpretResult run(DictuVM *vm) {
             DISPATCH();
 
         CASE_CODE(POW): {
-            BINARY_OP_FUNCTION(NUMBER_VAL, **, powf, double);
+            BINARY_OP_FUNCTION(NUMBER_VAL, **, pow, double);
             DISPATCH();
         }
 
-- 
2.43.0


From 5580e7b82a42bb210c6ccd11e34319521c3e777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 11/69] fix: 0 and -0 compare equal and are the same dictionary
 key and set member

---
 src/vm/value.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vm/value.c b/src/vm/value.c
index d06e696..ee7d25d 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -70,6 +70,11 @@ static uint32_t hashValue(Value value) {
         return hashObject(AS_OBJ(value));
     }
 
+    // 0 and -0 are equal, so they must share a hash
+    if (IS_NUMBER(value) && AS_NUMBER(value) == 0) {
+        value = NUMBER_VAL(0);
+    }
+
     return hashBits(value);
 }
 
@@ -515,6 +520,11 @@ bool valuesEqual(Value a, Value b) {
         }
     }
 
+    // 0 and -0 have different bit patterns
+    if (IS_NUMBER(a) && IS_NUMBER(b) && AS_NUMBER(a) == AS_NUMBER(b)) {
+        return true;
+    }
+
     return a == b;
 }
 
-- 
2.43.0


From ea3c2f7188e094dc035cff056ae76a85d5000039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 12/69] fix: string ordering compares bytes as unsigned over
 the whole string

---
 src/vm/value.c | 51 ++++++++++----------------------------------------
 1 file changed, 10 insertions(+), 41 deletions(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index ee7d25d..7bf2861 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -528,50 +528,19 @@ bool valuesEqual(Value a, Value b) {
     return a == b;
 }
 
-bool compareStringLess(Value a, Value b) {
-    // Swapping as it's a stack
-    ObjString *secondString = AS_STRING(a);
-    ObjString *firstString = AS_STRING(b);
+// Byte order, a proper prefix comes first
+static int compareStrings(ObjString *a, ObjString *b) {
+    int result = memcmp(a->chars, b->chars, a->length < b->length ? a->length : b->length);
 
-    int i;
-
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] < secondString->chars[i]) {
-            return true;
-        }
-
-        if (firstString->chars[i] > secondString->chars[i]) {
-            return false;
-        }
-    }
-
-    if (secondString->chars[i] != '\0') {
-        return true;
-    }
+    return result != 0 ? result : a->length - b->length;
+}
 
-    return false;
+bool compareStringLess(Value a, Value b) {
+    // Swapping as it's a stack
+    return compareStrings(AS_STRING(b), AS_STRING(a)) < 0;
 }
 
 bool compareStringGreater(Value a, Value b) {
     // Swapping as it's a stack
-    ObjString *secondString = AS_STRING(a);
-    ObjString *firstString = AS_STRING(b);
-
-    int i;
-
-    for (i = 0; firstString->chars[i] != '\0' || secondString->chars[i] != '\0'; i++) {
-        if (firstString->chars[i] > secondString->chars[i]) {
-            return true;
-        }
-
-        if (firstString->chars[i] < secondString->chars[i]) {
-            return false;
-        }
-    }
-
-    if (firstString->chars[i] != '\0') {
-        return true;
-    }
-
-    return false;
-}
\ No newline at end of file
+    return compareStrings(AS_STRING(b), AS_STRING(a)) > 0;
+}
-- 
2.43.0


From 8f244b0f948077096bed9af295cae75d29354c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 13/69] fix: constant folding only folds two adjacent constant
 instructions

---
 src/vm/compiler.c | 21 +++++++++++++++------
 src/vm/compiler.h |  3 +++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 2c5c151..dd84ed3 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -163,6 +163,7 @@ static void initCompiler(Parser *parser, Compiler *compiler, Compiler *parent, F
     compiler->class = NULL;
     compiler->loop = NULL;
     compiler->withBlock = false;
+    compiler->lastConstant = -1;
     compiler->classAnnotations = NULL;
     compiler->methodAnnotations = NULL;
     compiler->fieldAnnotations = NULL;
@@ -488,14 +489,19 @@ static void and_(Compiler *compiler, LangToken previousToken, bool canAssign) {
     patchJump(compiler, endJump);
 }
 
-static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
+// Both operands must be exactly one constant instruction, the bytes alone can not tell
+// an instruction from the operand of another one.
+static bool foldBinary(Compiler *compiler, LangTokenType operatorType, int left, int right) {
+    if (left != right - 2 || currentChunk(compiler)->count != right + 2 ||
+        currentChunk(compiler)->code[right] != OP_CONSTANT) {
+        return false;
+    }
+
 #define FOLD(operator)                                                         \
     do {                                                                       \
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             AS_NUMBER(chunk->constants.values[constant]) operator              \
             AS_NUMBER(chunk->constants.values[index])                          \
@@ -510,8 +516,6 @@ static bool foldBinary(Compiler *compiler, LangTokenType operatorType) {
         Chunk *chunk = currentChunk(compiler);                                 \
         uint8_t index = chunk->code[chunk->count - 1];                         \
         uint8_t constant = chunk->code[chunk->count - 3];                      \
-        if (chunk->code[chunk->count - 2] != OP_CONSTANT) return false;        \
-        if (chunk->code[chunk->count - 4] != OP_CONSTANT) return false;        \
         chunk->constants.values[constant] = NUMBER_VAL(                        \
             func(                                                              \
                 AS_NUMBER(chunk->constants.values[constant]),                  \
@@ -567,6 +571,9 @@ static void binary(Compiler *compiler, LangToken previousToken, bool canAssign)
 
     LangTokenType operatorType = compiler->parser->previous.type;
 
+    int left = compiler->lastConstant;
+    int right = currentChunk(compiler)->count;
+
     ParseRule *rule = getRule(operatorType);
     parsePrecedence(compiler, (Precedence) (rule->precedence + 1));
 
@@ -575,8 +582,9 @@ static void binary(Compiler *compiler, LangToken previousToken, bool canAssign)
     // Attempt constant fold.
     if ((previousToken.type == TOKEN_NUMBER) &&
         (currentToken == TOKEN_NUMBER || currentToken == TOKEN_LEFT_PAREN) &&
-        foldBinary(compiler, operatorType)
+        foldBinary(compiler, operatorType, left, right)
             ) {
+        compiler->lastConstant = left;
         return;
     }
 
@@ -987,6 +995,7 @@ static Value parseNumber(Compiler *compiler, bool canAssign) {
 
 static void number(Compiler *compiler, bool canAssign) {
     emitConstant(compiler, parseNumber(compiler, canAssign));
+    compiler->lastConstant = currentChunk(compiler)->count - 2;
 }
 
 static void or_(Compiler *compiler, LangToken previousToken, bool canAssign) {
diff --git a/src/vm/compiler.h b/src/vm/compiler.h
index 13ff573..595a789 100644
--- a/src/vm/compiler.h
+++ b/src/vm/compiler.h
@@ -101,6 +101,9 @@ typedef struct Compiler {
 
     int scopeDepth;
     bool withBlock;
+
+    // Offset of the last number constant emitted into the chunk
+    int lastConstant;
     ObjDict *classAnnotations;
     ObjDict *methodAnnotations;
     ObjDict *fieldAnnotations;
-- 
2.43.0


From 5d865ecaea091bc391dd292da7da02f3a20ae344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 14/69] fix: constant folding of not and unary minus looks at
 the operand instruction, not at the last token

---
 src/vm/compiler.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index dd84ed3..3ced72a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1409,18 +1409,20 @@ static void useStatement(Compiler *compiler) {
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after use statement.");
 }
 
-static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
-    LangTokenType valueToken = compiler->parser->previous.type;
+static bool foldUnary(Compiler *compiler, LangTokenType operatorType, int start) {
+    Chunk *chunk = currentChunk(compiler);
 
     switch (operatorType) {
         case TOKEN_NOT: {
-            if (valueToken == TOKEN_TRUE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_FALSE;
+            if (chunk->count != start + 1) {
+                return false;
+            }
+
+            if (chunk->code[start] == OP_TRUE) {
+                chunk->code[start] = OP_FALSE;
                 return true;
-            } else if (valueToken == TOKEN_FALSE) {
-                Chunk *chunk = currentChunk(compiler);
-                chunk->code[chunk->count - 1] = OP_TRUE;
+            } else if (chunk->code[start] == OP_FALSE) {
+                chunk->code[start] = OP_TRUE;
                 return true;
             }
 
@@ -1428,11 +1430,13 @@ static bool foldUnary(Compiler *compiler, LangTokenType operatorType) {
         }
 
         case TOKEN_MINUS: {
-            if (valueToken == TOKEN_NUMBER) {
-                Chunk *chunk = currentChunk(compiler);
-                uint8_t constant = chunk->code[chunk->count - 1];
-                chunk->constants.values[constant] = NUMBER_VAL(-AS_NUMBER(chunk->constants.values[constant]));
-                return true;
+            if (chunk->count == start + 2 && chunk->code[start] == OP_CONSTANT) {
+                uint8_t constant = chunk->code[start + 1];
+
+                if (IS_NUMBER(chunk->constants.values[constant])) {
+                    chunk->constants.values[constant] = NUMBER_VAL(-AS_NUMBER(chunk->constants.values[constant]));
+                    return true;
+                }
             }
 
             return false;
@@ -1448,10 +1452,11 @@ static void unary(Compiler *compiler, bool canAssign) {
     UNUSED(canAssign);
 
     LangTokenType operatorType = compiler->parser->previous.type;
+    int start = currentChunk(compiler)->count;
     parsePrecedence(compiler, PREC_UNARY);
 
     // Constant fold.
-    if (foldUnary(compiler, operatorType)) {
+    if (foldUnary(compiler, operatorType, start)) {
         return;
     }
 
-- 
2.43.0


From 5971061f64c8e05a760ea4a33388750f5c226ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 15/69] fix: a non-empty string that starts with a NUL byte is
 truthy

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e249ad4..e7a03ed 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -818,7 +818,7 @@ bool isFalsey(Value value) {
     return IS_NIL(value) ||
            (IS_BOOL(value) && !AS_BOOL(value)) ||
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
-           (IS_STRING(value) && AS_CSTRING(value)[0] == '\0') ||
+           (IS_STRING(value) && AS_STRING(value)->length == 0) ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
            (IS_DICT(value) && AS_DICT(value)->count == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
-- 
2.43.0


From 4f538d7f2ef56fe2cdb9a042951bf8a933e37ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 16/69] fix: a dictionary whose items were all removed is
 falsey

---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index e7a03ed..c7f05b8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -820,7 +820,7 @@ bool isFalsey(Value value) {
            (IS_NUMBER(value) && AS_NUMBER(value) == 0) ||
            (IS_STRING(value) && AS_STRING(value)->length == 0) ||
            (IS_LIST(value) && AS_LIST(value)->values.count == 0) ||
-           (IS_DICT(value) && AS_DICT(value)->count == 0) ||
+           (IS_DICT(value) && AS_DICT(value)->activeCount == 0) ||
            (IS_RESULT(value) && AS_RESULT(value)->status == ERR) ||
            (IS_SET(value) && AS_SET(value)->count == 0);
 }
-- 
2.43.0


From 916260ec5e2e87140c29509bf167377ad0012c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:34 +0000
Subject: [PATCH 17/69] fix: removed set items become real tombstones: removing
 twice fails and probing ends

---
 src/vm/value.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vm/value.c b/src/vm/value.c
index 7bf2861..5bdfe3d 100644
--- a/src/vm/value.c
+++ b/src/vm/value.c
@@ -193,7 +193,8 @@ static SetItem *findSetEntry(SetItem *entries, int capacityMask,
     uint32_t index = hashValue(value) & capacityMask;
     SetItem *tombstone = NULL;
 
-    for (;;) {
+    // Removed items never become empty again, so stop after a full cycle.
+    for (int i = 0; i <= capacityMask; i++) {
         SetItem *entry = &entries[index];
 
         if (IS_EMPTY(entry->value)) {
@@ -211,6 +212,8 @@ static SetItem *findSetEntry(SetItem *entries, int capacityMask,
 
         index = (index + 1) & capacityMask;
     }
+
+    return tombstone;
 }
 
 bool setGet(ObjSet *set, Value value) {
@@ -270,6 +273,7 @@ bool setDelete(DictuVM *vm, ObjSet *set, Value value) {
 
     // Place a tombstone in the entry.
     set->count--;
+    entry->value = EMPTY_VAL;
     entry->deleted = true;
 
     if (set->count - 1 < set->capacityMask * TABLE_MIN_LOAD) {
-- 
2.43.0


From c07c3c00f509447e0ad282c3776c2c25fe53956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 18/69] fix: List.pop rejects the index one past the end

---
 src/vm/datatypes/lists/lists.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 7389e39..9da894b 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -135,7 +135,7 @@ static Value popListItem(DictuVM *vm, int argCount, Value *args) {
         if (index < 0) {
             index = list->values.count + index;
         }
-        if (index < 0 || index > list->values.count) {
+        if (index < 0 || index >= list->values.count) {
             runtimeError(vm, "Index passed to pop() is out of bounds for the list given");
             return EMPTY_VAL;
         }
-- 
2.43.0


From bfa947d4ca64f0a36818770cd595c6e672b800b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 19/69] fix: extending a list with itself ends

---
 src/vm/datatypes/lists/lists.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/datatypes/lists/lists.c b/src/vm/datatypes/lists/lists.c
index 9da894b..bcc7a1f 100644
--- a/src/vm/datatypes/lists/lists.c
+++ b/src/vm/datatypes/lists/lists.c
@@ -50,7 +50,10 @@ static Value extendList(DictuVM *vm, int argCount, Value *args) {
     ObjList *list = AS_LIST(args[0]);
     ObjList *listArgument = AS_LIST(args[1]);
 
-    for (int i = 0; i < listArgument->values.count; i++) {
+    // The count is read once as a list may be extended with itself
+    int count = listArgument->values.count;
+
+    for (int i = 0; i < count; i++) {
         writeValueArray(vm, &list->values, listArgument->values.values[i]);
     }
 
-- 
2.43.0


From f367f5ffce8d5070f9dc4ec3bd2e2a8652e958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 20/69] fix: indexing a string with a value that is not a
 number is an error

---
 src/vm/vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c7f05b8..98f64ca 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1897,6 +1897,10 @@ static DictuInterpretResult run(DictuVM *vm) {
                 }
 
                 case OBJ_STRING: {
+                    if (!IS_NUMBER(indexValue)) {
+                        RUNTIME_ERROR("String index must be a number.");
+                    }
+
                     ObjString *string = AS_STRING(subscriptValue);
                     int index = AS_NUMBER(indexValue);
 
-- 
2.43.0


From 14651ff8da9e38f7eb9f26571111284ed489df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:51 +0000
Subject: [PATCH 21/69] fix: set() rejects values that are not hashable, as
 add() does

---
 src/vm/natives.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vm/natives.c b/src/vm/natives.c
index 99772f6..234ed38 100644
--- a/src/vm/natives.c
+++ b/src/vm/natives.c
@@ -24,6 +24,12 @@ static Value setNative(DictuVM *vm, int argCount, Value *args) {
     push(vm, OBJ_VAL(set));
 
     for (int i = 0; i < argCount; i++) {
+        if (!isValidKey(args[i])) {
+            pop(vm);
+            runtimeError(vm, "Set value must be an immutable type");
+            return EMPTY_VAL;
+        }
+
         setInsert(vm, set, args[i]);
     }
     pop(vm);
-- 
2.43.0


From 44fdf83e6558be5c1c7262da5733154d56a84230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 22/69] fix: the buffer of a set's string form grows enough for
 a long element

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index 413b29b..fb02d73 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -488,7 +488,7 @@ char *setToString(Value value) {
         }
 
         if (elementSize > (size - setStringLength - 5)) {
-            if (elementSize > size * 2) {
+            if (elementSize > size) {
                 size += elementSize * 2 + 5;
             } else {
                 size = size * 2 + 5;
-- 
2.43.0


From 913325d9b5f864c8c4f06ede0833d67a5058cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 23/69] fix: no trailing separator in the string form of a
 dictionary with removed items

---
 src/vm/object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index fb02d73..ec205bb 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -448,7 +448,7 @@ char *dictToString(Value value) {
            free(element);
        }
 
-       if (count != dict->count) {
+       if (count != dict->activeCount) {
            memcpy(dictString + dictStringLength, ", ", 2);
            dictStringLength += 2;
        }
-- 
2.43.0


From 7aedb447c67626bfd792f322bd88158ab8e97cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 24/69] fix: a shallow copy of an instance keeps its private
 attributes

---
 src/vm/datatypes/copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c1862da..c36f3dd 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -69,6 +69,7 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
 
     if (shallow) {
         tableAddAll(vm, &oldInstance->publicAttributes, &instance->publicAttributes);
+        tableAddAll(vm, &oldInstance->privateAttributes, &instance->privateAttributes);
     } else {
         for (int i = 0; i < oldInstance->publicAttributes.capacity; i++) {
             Entry *entry = &oldInstance->publicAttributes.entries[i];
-- 
2.43.0


From 6971829036f7c9dd4f00ba063a0942f23a4bbdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 25/69] fix: deepCopy copies sets instead of sharing them

---
 src/vm/datatypes/copy.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/vm/datatypes/copy.c b/src/vm/datatypes/copy.c
index c36f3dd..409f126 100644
--- a/src/vm/datatypes/copy.c
+++ b/src/vm/datatypes/copy.c
@@ -2,6 +2,24 @@
 
 ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow);
 
+static ObjSet *copySet(DictuVM *vm, ObjSet *oldSet) {
+    ObjSet *set = newSet(vm);
+    // Push to stack to avoid GC
+    push(vm, OBJ_VAL(set));
+
+    for (int i = 0; i <= oldSet->capacityMask; ++i) {
+        SetItem *item = &oldSet->entries[i];
+        if (IS_EMPTY(item->value) || item->deleted) {
+            continue;
+        }
+
+        setInsert(vm, set, item->value);
+    }
+
+    pop(vm);
+    return set;
+}
+
 ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
     ObjDict *dict = newDict(vm);
     // Push to stack to avoid GC
@@ -21,6 +39,8 @@ ObjDict *copyDict(DictuVM* vm, ObjDict *oldDict, bool shallow) {
                 val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
             } else if (IS_INSTANCE(val)) {
                 val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+            } else if (IS_SET(val)) {
+                val = OBJ_VAL(copySet(vm, AS_SET(val)));
             }
         }
 
@@ -49,6 +69,8 @@ ObjList *copyList(DictuVM* vm, ObjList *oldList, bool shallow) {
                 val = OBJ_VAL(copyList(vm, AS_LIST(val), false));
             } else if (IS_INSTANCE(val)) {
                 val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+            } else if (IS_SET(val)) {
+                val = OBJ_VAL(copySet(vm, AS_SET(val)));
             }
         }
 
@@ -82,6 +104,8 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                     val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
                 } else if (IS_INSTANCE(val)) {
                     val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+                } else if (IS_SET(val)) {
+                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
                 }
 
                 // Push to stack to avoid GC
@@ -102,6 +126,8 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
                     val = OBJ_VAL(copyDict(vm, AS_DICT(val), false));
                 } else if (IS_INSTANCE(val)) {
                     val = OBJ_VAL(copyInstance(vm, AS_INSTANCE(val), false));
+                } else if (IS_SET(val)) {
+                    val = OBJ_VAL(copySet(vm, AS_SET(val)));
                 }
 
                 // Push to stack to avoid GC
@@ -115,5 +141,3 @@ ObjInstance *copyInstance(DictuVM* vm, ObjInstance *oldInstance, bool shallow) {
     pop(vm);
     return instance;
 }
-
-// TODO: Set copy
-- 
2.43.0


From e4dfe10464552b3feeaa48d69a1b4f5a572ac20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 26/69] fix: running out of value stack is a runtime error
 instead of memory corruption

---
 src/vm/vm.c | 14 +++++++++++++-
 src/vm/vm.h |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 98f64ca..35cb8f8 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -41,7 +41,14 @@ static void resetStack(DictuVM *vm) {
             return false;                                                           \
         }                                                                           \
                                                                                     \
-        ObjList *list = AS_LIST(pop(vm));                                     \
+        ObjList *list = AS_LIST(peek(vm, 0));                                       \
+                                                                                    \
+        if (list->values.count > STACK_MAX - STACK_RESERVE - (vm->stackTop - vm->stack)) { \
+            runtimeError(vm, "Stack overflow.");                                    \
+            return false;                                                           \
+        }                                                                           \
+                                                                                    \
+        pop(vm);                                                                    \
                                                                                     \
         for (int i = 0; i < list->values.count; ++i) {                              \
             push(vm, list->values.values[i]);                                       \
@@ -266,6 +273,11 @@ static bool call(DictuVM *vm, ObjClosure *closure, int argCount) {
         vm->stackTop -= 2;
         push(vm, OBJ_VAL(list));
     }
+    if (vm->stackTop - vm->stack > STACK_MAX - STACK_RESERVE) {
+        runtimeError(vm, "Stack overflow.");
+        return false;
+    }
+
     if (vm->frameCount == vm->frameCapacity) {
         int oldCapacity = vm->frameCapacity;
         vm->frameCapacity = GROW_CAPACITY(vm->frameCapacity);
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 9bc63e2..b30a702 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -8,6 +8,8 @@
 
 // TODO: Work out the maximum stack size at compilation time
 #define STACK_MAX (64 * UINT8_COUNT)
+// Slots a call may use beyond its arguments
+#define STACK_RESERVE (8 * UINT8_COUNT)
 
 typedef struct {
     ObjClosure *closure;
-- 
2.43.0


From 0c9f2a8adbe7570e070f81b93fb7fe628fea4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 27/69] fix: a # that does not start a shebang line no longer
 hangs the scanner

---
 src/vm/scanner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 61f4048..ef1ea09 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -86,6 +86,8 @@ static void skipWhitespace(Scanner *scanner) {
                 if (peekNext(scanner) == '!') {
                     // Ignore shebang line
                     while (peek(scanner) != '\n' && !isAtEnd(scanner)) advance(scanner);
+                } else {
+                    return;
                 }
                 break;
             case '/':
-- 
2.43.0


From 0bd364a71b880cbc8346424b6217c76ee6929e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 28/69] fix: hexadecimal literals start with 0x, not with any
 digits before an x

---
 src/vm/scanner.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index ef1ea09..03e7863 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -330,7 +330,6 @@ static LangToken number(Scanner *scanner) {
 
 static LangToken hexNumber(Scanner *scanner) {
     while (peek(scanner) == '_') advance(scanner);
-    if (peek(scanner) == '0')advance(scanner);
     if ((peek(scanner) == 'x') || (peek(scanner) == 'X')) {
         advance(scanner);
         if (!isHexDigit(peek(scanner))) return errorToken(scanner, "Invalid hex literal");
@@ -371,7 +370,7 @@ LangToken scanToken(Scanner *scanner) {
     char c = advance(scanner);
 
     if (isAlpha(c)) return identifier(scanner);
-    if (isDigit(c)) return hexNumber(scanner);
+    if (isDigit(c)) return c == '0' ? hexNumber(scanner) : number(scanner);
 
     switch (c) {
         case '@':
-- 
2.43.0


From 8b372bfcac962868740964d4a2121515510c3670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 29/69] fix: a backslash at the end of an unterminated string
 no longer reads past the source, and an escaped newline counts as a line

---
 src/vm/scanner.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vm/scanner.c b/src/vm/scanner.c
index 03e7863..29c1d7b 100644
--- a/src/vm/scanner.c
+++ b/src/vm/scanner.c
@@ -341,10 +341,13 @@ static LangToken hexNumber(Scanner *scanner) {
 
 static LangToken string(Scanner *scanner, char stringToken) {
     while (peek(scanner) != stringToken && !isAtEnd(scanner)) {
+        // An escaped character never ends the string
+        if (peek(scanner) == '\\' && !scanner->rawString) {
+            advance(scanner);
+            if (isAtEnd(scanner)) break;
+        }
         if (peek(scanner) == '\n') {
             scanner->line++;
-        } else if (peek(scanner) == '\\' && !scanner->rawString) {
-            scanner->current++;
         }
         advance(scanner);
     }
-- 
2.43.0


From 167dd6254e1da022526ef657f1dcae293fa82727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 30/69] fix: use accepts traits only and no longer crashes on
 other values

---
 src/vm/object.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/object.h b/src/vm/object.h
index 69ff5cc..d39572a 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -32,8 +32,8 @@
 #define IS_MODULE(value)          isObjType(value, OBJ_MODULE)
 #define IS_BOUND_METHOD(value)    isObjType(value, OBJ_BOUND_METHOD)
 #define IS_CLASS(value)           isObjType(value, OBJ_CLASS)
-#define IS_DEFAULT_CLASS(value)   isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT
-#define IS_TRAIT(value)           isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT
+#define IS_DEFAULT_CLASS(value)   (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_DEFAULT)
+#define IS_TRAIT(value)           (isObjType(value, OBJ_CLASS) && AS_CLASS(value)->type == CLASS_TRAIT)
 #define IS_ENUM(value)            isObjType(value, OBJ_ENUM)
 #define IS_CLOSURE(value)         isObjType(value, OBJ_CLOSURE)
 #define IS_FUNCTION(value)        isObjType(value, OBJ_FUNCTION)
-- 
2.43.0


From f505b1f44427c36710f81ba189aa51a79cf9aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 31/69] fix: statements that start with a list or dictionary
 literal are read again from its first token

---
 src/vm/compiler.c | 72 +++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 53 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 3ced72a..6d2ff70 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -61,10 +61,13 @@ static void advance(Parser *parser) {
     }
 }
 
-static void recede(Parser *parser){
-    for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-    }
+// Makes a token that was read before the current one again, what follows it is read once more.
+static void rewindTo(Parser *parser, LangToken token) {
+    parser->scanner.start = token.start;
+    parser->scanner.current = token.start + token.length;
+    parser->scanner.line = token.line;
+    parser->scanner.rawString = token.type == TOKEN_R;
+    parser->current = token;
 }
 
 static void consume(Compiler *compiler, LangTokenType type, const char *message) {
@@ -2196,10 +2199,7 @@ static void expressionStatement(Compiler *compiler) {
     advance(compiler->parser);
     LangTokenType t = compiler->parser->current.type;
 
-    for (int i = 0; i < compiler->parser->current.length; ++i) {
-        backTrack(&compiler->parser->scanner);
-    }
-    compiler->parser->current = compiler->parser->previous;
+    rewindTo(compiler->parser, compiler->parser->previous);
     compiler->parser->previous = previous;
 
     expression(compiler);
@@ -2771,36 +2771,21 @@ static void whileStatement(Compiler *compiler) {
 static void unpackListStatement(Compiler *compiler){
     int varCount = 0;
     LangToken variables[255];
-    LangToken previous=compiler->parser->previous;
+    LangToken bracket = compiler->parser->previous;
+    bool unpack = true;
+
     do {
-        if(!check(compiler,TOKEN_IDENTIFIER)){
-            if(varCount>0){
-                recede(compiler->parser);
-            }
-            int varsAndCommas=varCount+(varCount-1);
-            for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-            }
-            recede(compiler->parser);
-            compiler->parser->current=previous;
-            expressionStatement(compiler);
-            return;
+        if (varCount == 255 || !match(compiler, TOKEN_IDENTIFIER)) {
+            unpack = false;
+            break;
         }
-        consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
         variables[varCount] = compiler->parser->previous;
         varCount++;
     } while (match(compiler, TOKEN_COMMA));
 
-    consume(compiler, TOKEN_RIGHT_BRACKET, "Expect ']' after list destructure.");
-
-    if(!check(compiler, TOKEN_EQUAL)){
-        recede(compiler->parser);
-        int varsAndCommas=varCount+(varCount-1);
-        for(int var=0;var<varsAndCommas;var++){
-                recede(compiler->parser);
-        }
-        recede(compiler->parser);
-        compiler->parser->current=previous;
+    if (!unpack || !match(compiler, TOKEN_RIGHT_BRACKET) || !check(compiler, TOKEN_EQUAL)) {
+        // An expression that starts with a list literal
+        rewindTo(compiler->parser, bracket);
         expressionStatement(compiler);
         return;
     }
@@ -2922,34 +2907,15 @@ static void statement(Compiler *compiler) {
         // Advance the parser to the next token
         advance(parser);
 
-        if (check(compiler, TOKEN_RIGHT_BRACE)) {
-            if (check(compiler, TOKEN_SEMICOLON)) {
-                backTrack(&parser->scanner);
-                backTrack(&parser->scanner);
-                parser->current = previous;
-                expressionStatement(compiler);
-                return;
-            }
-        }
-
         if (check(compiler, TOKEN_COLON)) {
-            for (int i = 0; i < parser->current.length + parser->previous.length; ++i) {
-                backTrack(&parser->scanner);
-            }
-
-            parser->current = previous;
+            rewindTo(parser, previous);
             expressionStatement(compiler);
             return;
         }
 
-        // Reset the scanner to the previous position
-        for (int i = 0; i < parser->current.length; ++i) {
-            backTrack(&parser->scanner);
-        }
-
         // Reset the parser
         parser->previous = previous;
-        parser->current = curtok;
+        rewindTo(parser, curtok);
 
         beginScope(compiler);
         block(compiler);
-- 
2.43.0


From 86ebb5474523e088f3f3a5179f0d429a5aeed6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 32/69] fix: continue outside of a loop is a compile error
 instead of a crash

---
 src/vm/compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 6d2ff70..a9d629d 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2440,6 +2440,7 @@ static void breakStatement(Compiler *compiler) {
 static void continueStatement(Compiler *compiler) {
     if (compiler->loop == NULL) {
         error(compiler->parser, "Cannot utilise 'continue' outside of a loop.");
+        return;
     }
 
     consume(compiler, TOKEN_SEMICOLON, "Expect ';' after 'continue'.");
-- 
2.43.0


From a3c379663084640b821a07fcb39d69af763d7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 33/69] fix: break finds its jumps after class variables and
 enums in a loop

---
 src/vm/compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index a9d629d..8e4c367 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2263,9 +2263,10 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_GET_PRIVATE_ATTRIBUTE_NO_POP:
         case OP_SET_ATTRIBUTE:
         case OP_SET_PRIVATE_ATTRIBUTE:
-        case OP_SET_CLASS_VAR:
         case OP_SET_INIT_ATTRIBUTES:
         case OP_SET_PRIVATE_INIT_ATTRIBUTES:
+        case OP_ENUM:
+        case OP_SET_ENUM_VALUE:
         case OP_GET_SUPER:
         case OP_METHOD:
         case OP_IMPORT:
@@ -2284,6 +2285,7 @@ static int getArgCount(uint8_t *code, const ValueArray constants, int ip) {
         case OP_JUMP_IF_NIL:
         case OP_JUMP_IF_FALSE:
         case OP_LOOP:
+        case OP_SET_CLASS_VAR:
         case OP_CLASS:
         case OP_SUBCLASS:
         case OP_IMPORT_BUILTIN:
-- 
2.43.0


From 811aa62bd396dd1f6b69d903078308eb124aaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 34/69] fix: a subclass declared in a local scope can be used,
 and an annotated abstract class no longer crashes

---
 src/vm/compiler.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 8e4c367..b83c16e 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2009,7 +2009,7 @@ static void parseClassBody(Compiler *compiler) {
 static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken className = compiler->parser->previous;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, false);
@@ -2018,13 +2018,15 @@ static void classDeclaration(Compiler *compiler) {
         expression(compiler);
         classCompiler.hasSuperclass = true;
 
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
+        // Store the superclass in a local variable named "super". It lies below
+        // the class on the stack, so it lives as long as the enclosing scope.
         addLocal(compiler, syntheticToken("super"));
+        compiler->locals[compiler->localCount - 1].depth = compiler->scopeDepth;
 
+        declareVariable(compiler, &className);
         emitBytes(compiler, OP_SUBCLASS, CLASS_DEFAULT);
     } else {
+        declareVariable(compiler, &className);
         emitBytes(compiler, OP_CLASS, CLASS_DEFAULT);
     }
     emitByte(compiler, nameConstant);
@@ -2036,8 +2038,6 @@ static void classDeclaration(Compiler *compiler) {
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
     if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-
         // If there's a super class, check abstract methods have been defined
         emitByte(compiler, OP_END_CLASS);
     }
@@ -2051,7 +2051,7 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_IDENTIFIER, "Expect class name after class keyword.");
     uint8_t nameConstant = identifierConstant(compiler, &compiler->parser->previous);
-    declareVariable(compiler, &compiler->parser->previous);
+    LangToken className = compiler->parser->previous;
 
     ClassCompiler classCompiler;
     setupClassCompiler(compiler, &classCompiler, true);
@@ -2060,13 +2060,15 @@ static void abstractClassDeclaration(Compiler *compiler) {
         expression(compiler);
         classCompiler.hasSuperclass = true;
 
-        beginScope(compiler);
-
-        // Store the superclass in a local variable named "super".
+        // Store the superclass in a local variable named "super". It lies below
+        // the class on the stack, so it lives as long as the enclosing scope.
         addLocal(compiler, syntheticToken("super"));
+        compiler->locals[compiler->localCount - 1].depth = compiler->scopeDepth;
 
+        declareVariable(compiler, &className);
         emitBytes(compiler, OP_SUBCLASS, CLASS_ABSTRACT);
     } else {
+        declareVariable(compiler, &className);
         emitBytes(compiler, OP_CLASS, CLASS_ABSTRACT);
     }
     emitByte(compiler, nameConstant);
@@ -2077,12 +2079,8 @@ static void abstractClassDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after class body.");
 
-    if (classCompiler.hasSuperclass) {
-        endScope(compiler);
-    }
-
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void traitDeclaration(Compiler *compiler) {
-- 
2.43.0


From 7bff7ac0e04465bef5725abb59c69605e85ea2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 35/69] fix: \x escapes need two hexadecimal digits inside the
 literal

---
 src/vm/compiler.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index b83c16e..30afc8a 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1050,21 +1051,20 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     break;
                 }
                 case 'x': {
-                    if (string[i + 2] == '\0' || string[i + 3] == '\0') {
+                    if (i + 3 >= length) {
                         error(parser, "\\x escape code expects format \\xhh");
-                        break;
+                        return length;
+                    }
+
+                    if (!isxdigit((unsigned char) string[i + 2]) || !isxdigit((unsigned char) string[i + 3])) {
+                        error(parser, "\\x escape code failed to parse");
+                        return length;
                     }
 
                     char hexChars[3];
-                    char *end;
                     memcpy(hexChars, &string[i + 2], 2);
                     hexChars[2] = '\0';
-                    int hex = strtol(hexChars, &end, 16);
-
-                    if (hexChars == end) {
-                        error(parser, "\\x escape code failed to parse");
-                        break;
-                    }
+                    int hex = strtol(hexChars, NULL, 16);
 
                     string[i + 3] = hex;
                     memmove(&string[i], &string[i + 3], length - 3 - i);
@@ -1083,7 +1083,7 @@ int parseEscapeSequences(Parser *parser, char *string, int length) {
                     continue;
                 }
             }
-            memmove(&string[i], &string[i + 1], length - i);
+            memmove(&string[i], &string[i + 1], length - i - 1);
             length -= 1;
         }
     }
-- 
2.43.0


From e4f9ac5d3128f94491d0ae2bdf7877a8306f6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:49 +0000
Subject: [PATCH 36/69] fix: annotations of a trait are applied to the trait
 instead of crashing

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 30afc8a..e2f5dbc 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2100,8 +2100,8 @@ static void traitDeclaration(Compiler *compiler) {
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expect '}' after trait body.");
 
-    defineVariable(compiler, nameConstant, false);
     endClassCompiler(compiler, &classCompiler);
+    defineVariable(compiler, nameConstant, false);
 }
 
 static void enumDeclaration(Compiler *compiler) {
-- 
2.43.0


From 14cdb216eb66ef08fa8f8f7816645d8385c6658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 37/69] fix: an annotation whose parenthesis is never closed no
 longer hangs the compiler

---
 src/vm/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index e2f5dbc..920c054 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1906,7 +1906,7 @@ static bool isFieldAnnotation(Compiler *compiler) {
         if (match(compiler, TOKEN_LEFT_PAREN)) {
             do {
                 advance(compiler->parser);
-            } while (!match(compiler, TOKEN_RIGHT_PAREN));
+            } while (!match(compiler, TOKEN_RIGHT_PAREN) && !check(compiler, TOKEN_EOF));
         }
     } while (match(compiler, TOKEN_AT));
 
-- 
2.43.0


From b046c3dd55484308db8914333599d6703d786b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 38/69] fix: misplaced annotations are compile errors instead
 of null dereferences

---
 src/vm/compiler.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 920c054..569baf2 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -1648,10 +1648,13 @@ static void method(Compiler *compiler, bool private, LangToken *identifier, bool
         DictuVM *vm = compiler->parser->vm;
 
         Value existingDict;
-        dictGet(compiler->methodAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
         ObjString *methodName = AS_STRING(currentChunk(compiler)->constants.values[constant]);
-        dictSet(vm, compiler->methodAnnotations, OBJ_VAL(methodName), existingDict);
-        dictDelete(vm, compiler->methodAnnotations, OBJ_VAL(vm->annotationString));
+        // Nothing was collected if the annotation had an error
+        if (compiler->methodAnnotations != NULL &&
+            dictGet(compiler->methodAnnotations, OBJ_VAL(vm->annotationString), &existingDict)) {
+            dictSet(vm, compiler->methodAnnotations, OBJ_VAL(methodName), existingDict);
+            dictDelete(vm, compiler->methodAnnotations, OBJ_VAL(vm->annotationString));
+        }
 
         *hasAnnotation = false;
     }
@@ -1943,9 +1946,11 @@ static void parseClassBody(Compiler *compiler) {
                 ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
 
                 Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                if (compiler->fieldAnnotations != NULL &&
+                    dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict)) {
+                    dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
+                    dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                }
 
                 hasAnnotation = false;
             }
@@ -1964,9 +1969,11 @@ static void parseClassBody(Compiler *compiler) {
                 ObjString *varName = AS_STRING(currentChunk(compiler)->constants.values[name]);
 
                 Value existingDict;
-                dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict);
-                dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
-                dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                if (compiler->fieldAnnotations != NULL &&
+                    dictGet(compiler->fieldAnnotations, OBJ_VAL(vm->annotationString), &existingDict)) {
+                    dictSet(vm, compiler->fieldAnnotations, OBJ_VAL(varName), existingDict);
+                    dictDelete(vm, compiler->fieldAnnotations, OBJ_VAL(vm->annotationString));
+                }
 
                 hasAnnotation = false;
             }
@@ -1983,6 +1990,11 @@ static void parseClassBody(Compiler *compiler) {
             if (match(compiler, TOKEN_PRIVATE)) {
                 if (match(compiler, TOKEN_IDENTIFIER)) {
                     if (check(compiler, TOKEN_SEMICOLON)) {
+                        if (hasAnnotation) {
+                            error(compiler->parser, "Annotations not allowed on private variables");
+                            hasAnnotation = false;
+                        }
+
                         uint8_t name = identifierConstant(compiler, &compiler->parser->previous);
                         consume(compiler, TOKEN_SEMICOLON, "Expect ';' after private variable declaration.");
                         tableSet(compiler->parser->vm, &compiler->class->privateVariables,
-- 
2.43.0


From 33ce05cc080e1fea780a40b746c38adcef5c4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:34 +0000
Subject: [PATCH 39/69] fix: literals, case lists, unpacking and imports with
 more items than an operand can hold are compile errors

---
 src/vm/compiler.c | 53 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 569baf2..63fc974 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -858,10 +858,10 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
             declareVariable(fnCompiler, &fnCompiler->parser->previous);
             defineVariable(fnCompiler, paramConstant, false);
 
-            if (type == TYPE_INITIALIZER && varKeyword) {
+            if (type == TYPE_INITIALIZER && varKeyword && fnCompiler->function->propertyCount < 255) {
                 identifiers[fnCompiler->function->propertyCount] = paramConstant;
                 indexes[fnCompiler->function->propertyCount++] = index;
-            } else if (varKeyword) {
+            } else if (varKeyword && type != TYPE_INITIALIZER) {
                 error(fnCompiler->parser, "var keyword in a function definition that is not a class constructor");
             }
             if (isSpreadParam) {
@@ -871,13 +871,13 @@ static void beginFunction(Compiler *compiler, Compiler *fnCompiler, FunctionType
                 fnCompiler->function->isVariadic = isSpreadParam;
             }
 
-            if (type == TYPE_INITIALIZER && privateKeyword) {
+            if (type == TYPE_INITIALIZER && privateKeyword && fnCompiler->function->privatePropertyCount < 255) {
                 privateIdentifiers[fnCompiler->function->privatePropertyCount] = paramConstant;
                 privateIndexes[fnCompiler->function->privatePropertyCount++] = index;
 
                 tableSet(compiler->parser->vm, &compiler->class->privateVariables,
                         AS_STRING(currentChunk(fnCompiler)->constants.values[paramConstant]), EMPTY_VAL);
-            } else if (privateKeyword) {
+            } else if (privateKeyword && type != TYPE_INITIALIZER) {
                 error(fnCompiler->parser, "private keyword in a function definition that is not a class constructor");
             }
 
@@ -1142,6 +1142,10 @@ static void list(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > 255) {
+        error(compiler->parser, "Cannot have more than 255 items in a list literal.");
+    }
+
     emitBytes(compiler, OP_NEW_LIST, count);
     consume(compiler, TOKEN_RIGHT_BRACKET, "Expected closing ']'");
 }
@@ -1161,6 +1165,10 @@ static void dict(Compiler *compiler, bool canAssign) {
         count++;
     } while (match(compiler, TOKEN_COMMA));
 
+    if (count > 255) {
+        error(compiler->parser, "Cannot have more than 255 items in a dictionary literal.");
+    }
+
     emitBytes(compiler, OP_NEW_DICT, count);
 
     consume(compiler, TOKEN_RIGHT_BRACE, "Expected closing '}'");
@@ -2163,6 +2171,12 @@ static void varDeclaration(Compiler *compiler, bool constant) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
+
+            if (varCount == 255) {
+                error(compiler->parser, "Cannot have more than 255 variables.");
+                break;
+            }
+
             variables[varCount] = compiler->parser->previous;
             varCount++;
         } while (match(compiler, TOKEN_COMMA));
@@ -2515,6 +2529,11 @@ static void switchStatement(Compiler *compiler) {
                 multipleCases++;
                 expression(compiler);
             } while(match(compiler, TOKEN_COMMA));
+
+            if (multipleCases > 255) {
+                error(compiler->parser, "Cannot have more than 256 values in a case.");
+            }
+
             emitBytes(compiler, OP_MULTI_CASE, multipleCases);
         }
         int compareJump = emitJump(compiler, OP_COMPARE_JUMP);
@@ -2524,6 +2543,7 @@ static void switchStatement(Compiler *compiler) {
         patchJump(compiler, compareJump);
         if (caseCount > 255) {
             errorAtCurrent(compiler->parser, "Switch statement can not have more than 256 case blocks");
+            break;
         }
 
     } while(match(compiler, TOKEN_CASE));
@@ -2556,6 +2576,11 @@ static void withStatement(Compiler *compiler) {
 
     beginScope(compiler);
 
+    if (compiler->localCount == UINT8_COUNT) {
+        error(compiler->parser, "Too many local variables in function.");
+        return;
+    }
+
     int fileIndex = compiler->localCount;
     Local *local = &compiler->locals[compiler->localCount++];
     local->depth = compiler->scopeDepth;
@@ -2666,13 +2691,15 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
-            tokens[varCount] = compiler->parser->previous;
-            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
-            varCount++;
 
-            if (varCount > 255) {
+            if (varCount == 255) {
                 error(compiler->parser, "Cannot have more than 255 variables.");
+                break;
             }
+
+            tokens[varCount] = compiler->parser->previous;
+            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
+            varCount++;
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_FROM, varCount);
@@ -2717,13 +2744,15 @@ static void fromImportStatement(Compiler *compiler) {
 
         do {
             consume(compiler, TOKEN_IDENTIFIER, "Expect variable name.");
-            tokens[varCount] = compiler->parser->previous;
-            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
-            varCount++;
 
-            if (varCount > 255) {
+            if (varCount == 255) {
                 error(compiler->parser, "Cannot have more than 255 variables.");
+                break;
             }
+
+            tokens[varCount] = compiler->parser->previous;
+            variables[varCount] = identifierConstant(compiler, &compiler->parser->previous);
+            varCount++;
         } while (match(compiler, TOKEN_COMMA));
 
         emitBytes(compiler, OP_IMPORT_BUILTIN, index);
-- 
2.43.0


From 83ab9b045bbe96661cc21fd7a6083dc7b75e5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:35 +0000
Subject: [PATCH 40/69] fix: missing dictionary key error does not leak the
 key's text

---
 src/vm/vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 35cb8f8..908bdad 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1945,7 +1945,11 @@ static DictuInterpretResult run(DictuVM *vm) {
                         DISPATCH();
                     }
 
-                    RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                    STORE_FRAME;
+                    char *str = valueToString(indexValue);
+                    runtimeError(vm, "Key %s does not exist within dictionary.", str);
+                    free(str);
+                    return INTERPRET_RUNTIME_ERROR;
                 }
 
                 default: {
@@ -2046,7 +2050,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
                     Value dictValue;
                     if (!dictGet(dict, indexValue, &dictValue)) {
-                        RUNTIME_ERROR("Key %s does not exist within dictionary.", valueToString(indexValue));
+                        STORE_FRAME;
+                        char *str = valueToString(indexValue);
+                        runtimeError(vm, "Key %s does not exist within dictionary.", str);
+                        free(str);
+                        return INTERPRET_RUNTIME_ERROR;
                     }
 
                     vm->stackTop[-1] = dictValue;
-- 
2.43.0


From b6a90a66fc833befecc9e9389a0ba9cc5ceec8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 41/69] fix: toDict() of a class keeps its parts reachable
 while it is built

---
 src/vm/object.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/object.c b/src/vm/object.c
index ec205bb..360749b 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -597,20 +597,20 @@ ObjDict *classToDict(DictuVM *vm, Value value) {
     push(vm, OBJ_VAL(variables));
     dictSet(vm, classDict, variables, OBJ_VAL(variablesDict));
     pop(vm);
-    pop(vm); // variablesDict
 
     Value constants = OBJ_VAL(copyString(vm, "constants", 9));
     push(vm, OBJ_VAL(constants));
     dictSet(vm, classDict, constants, OBJ_VAL(constantsDict));
     pop(vm);
-    pop(vm); // constantsDict
 
     Value methods = OBJ_VAL(copyString(vm, "public_methods", 14));
     push(vm, OBJ_VAL(methods));
     dictSet(vm, classDict, methods, OBJ_VAL(methodsList));
     pop(vm);
-    pop(vm); // methodsList
 
+    pop(vm); // methodsList
+    pop(vm); // constantsDict
+    pop(vm); // variablesDict
     pop(vm); // classDict
     return classDict;
 }
-- 
2.43.0


From 8215dd69ba106ee5aabf2151031ac67aa6d24c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 42/69] fix: buffer offsets that are negative or past the end
 are errors

The bounds check was done on unsigned differences and let them through.
---
 src/optionals/buffer.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index 1015693..ddd5316 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -45,21 +45,21 @@ uint8_t *swap(uint8_t *ptr, size_t len, bool bigEndian) {
     return ptr;
 }
 
-bool ensureSize(Buffer *buffer, size_t offset, size_t size) {
-    return buffer->size - offset >= size;
+bool ensureSize(Buffer *buffer, double offset, size_t size) {
+    return offset >= 0 && offset < buffer->size && (size_t)buffer->size - (size_t)offset >= size;
 }
 
-bool writeInternal(Buffer *buffer, size_t offset, uint8_t *data, size_t len) {
+bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
-    memcpy(buffer->bytes + offset, data, len);
+    memcpy(buffer->bytes + (size_t)offset, data, len);
     return true;
 }
 
-uint8_t *getReadPtr(Buffer *buffer, size_t offset, size_t len) {
+uint8_t *getReadPtr(Buffer *buffer, double offset, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return NULL;
-    return buffer->bytes + offset;
+    return buffer->bytes + (size_t)offset;
 }
 
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
@@ -74,7 +74,7 @@ static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[1]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "size must be greater than 0 and smaller than 2147483647");
     }
@@ -758,7 +758,7 @@ static Value bufferGet(DictuVM *vm, int argCount, Value *args) {
     }
 
     double index = AS_NUMBER(args[1]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -787,7 +787,7 @@ static Value bufferSet(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     double value = AS_NUMBER(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -819,7 +819,7 @@ static Value bufferWriteString(DictuVM *vm, int argCount, Value *args) {
 
     double index = AS_NUMBER(args[1]);
     ObjString *str = AS_STRING(args[2]);
-    if (index < 0) {
+    if (!(index >= 0)) {
         return newResultError(vm, "index must be greater than -1");
     }
     Buffer *buffer = AS_BUFFER(args[0]);
@@ -846,6 +846,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -860,6 +863,9 @@ static Value bufferReadString(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -886,6 +892,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double startParam = AS_NUMBER(args[1]);
+        if (!(startParam >= 0)) {
+            return newResultError(vm, "start must be greater than -1");
+        }
         if (startParam >= buffer->size) {
             return newResultError(vm,
                                   "start greater or equals than buffer length");
@@ -900,6 +909,9 @@ static Value bufferSubArray(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
         double endParam = AS_NUMBER(args[2]);
+        if (!(endParam >= 0)) {
+            return newResultError(vm, "end must be greater than -1");
+        }
         if (endParam > buffer->size) {
             return newResultError(vm, "end greater than buffer length");
         } else {
@@ -1002,7 +1014,7 @@ static Value newBuffer(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0 || capacity >= BUFFER_SIZE_MAX) {
+    if (!(capacity >= 1 && capacity < BUFFER_SIZE_MAX)) {
         return newResultError(
             vm, "capacity must be greater than 0 and less than 2147483647");
     }
-- 
2.43.0


From 65f8e391602ff48cb838e12920a889a2a34b82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 43/69] fix: BigInt functions called with the wrong number of
 arguments stop after the error

new() also reads the big integer inside a Result it is given.
---
 src/optionals/bigint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optionals/bigint.c b/src/optionals/bigint.c
index 37b3b23..bd8ad56 100644
--- a/src/optionals/bigint.c
+++ b/src/optionals/bigint.c
@@ -179,6 +179,7 @@ static Value unwrapBigInt(Value val) {
 static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     if (argCount > 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     if (argCount == 0) {
@@ -194,7 +195,7 @@ static Value newBigInt(DictuVM *vm, int argCount, Value *args) {
     Value val = unwrapBigInt(args[0]);
 
     if (isBigIntValue(val)) {
-        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(args[0])->data));
+        return newBigIntValue(vm, cloneBigInt(vm, AS_ABSTRACT(val)->data));
     }
 
     return newResultError(vm, "error: invalid argument");
@@ -223,6 +224,7 @@ static Value handleLongOrUnwrapError(DictuVM *vm, bool argIsLong) {
 static Value applyOp1Arg(DictuVM *vm, int argCount, Value *args, int (*op)(const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
@@ -271,6 +273,7 @@ static Value applyOp0ArgToReturn(DictuVM *vm, int argCount, Value *args, bigint*
 static Value applyOp1ArgAndReturn(DictuVM *vm, int argCount, Value *args, bigint* (*op)(bigint*, const bigint*, const bigint*)) {
     if (argCount != 1) {
         runtimeError(vm, "wrong number of arguments");
+        return EMPTY_VAL;
     }
 
     bool argIsLong;
-- 
2.43.0


From d9da7023da6103df3fa90df8bdbbfe857a9bf360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 44/69] fix: Log functions reject arguments that are not
 strings

A replaced prefix is freed.
---
 src/optionals/log.c | 51 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/optionals/log.c b/src/optionals/log.c
index 32b2d04..ce30b2f 100644
--- a/src/optionals/log.c
+++ b/src/optionals/log.c
@@ -32,6 +32,11 @@ static Value printLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     struct tm *ptm = timeNow();
 
     char *msg = AS_CSTRING(args[0]);
@@ -47,6 +52,11 @@ static Value printlnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "println() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -63,6 +73,11 @@ static Value fatalLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatal() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -79,6 +94,11 @@ static Value fatallnLog(DictuVM *vm, int argCount, Value *args) {
         runtimeError(vm, "fatalln() takes 1 argument (%d given)", argCount);
         return EMPTY_VAL;
     }
+
+    if (!IS_STRING(args[0])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
     
     struct tm *ptm = timeNow();
 
@@ -106,6 +126,11 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "setPrefix() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
     char *prefix = AS_CSTRING(args[1]);
     
@@ -113,6 +138,7 @@ static Value logObjSetPrefix(DictuVM *vm, int argCount, Value *args) {
         return NIL_VAL;
     }
     
+    free(log->prefix);
     log->prefix = strdup(prefix);
 
     return NIL_VAL;
@@ -139,6 +165,11 @@ static Value logObjPrint(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "print() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -165,6 +196,11 @@ static Value logObjPrintln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "println() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -191,6 +227,11 @@ static Value logObjFatal(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatal() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -209,6 +250,11 @@ static Value logObjFatalln(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_STRING(args[1])) {
+        runtimeError(vm, "fatalln() argument must be a string");
+        return EMPTY_VAL;
+    }
+
     Log *log = AS_LOG(args[0]);
 
     struct tm *ptm = timeNow();
@@ -260,6 +306,11 @@ static Value newLog(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    if (!IS_NUMBER(args[0])) {
+        runtimeError(vm, "new() argument must be a number");
+        return EMPTY_VAL;
+    }
+
     ObjAbstract *abstract = newLogObj(vm);
     Log *log = abstract->data;
 
-- 
2.43.0


From 9b9b986ef8e578010cd8e14a9ca9a4e9c8755e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 45/69] fix: Random.range and Random.select reject empty ranges
 and lists

They divided by zero.
---
 src/optionals/random.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/optionals/random.c b/src/optionals/random.c
index 05afe32..e4694bd 100644
--- a/src/optionals/random.c
+++ b/src/optionals/random.c
@@ -1,3 +1,5 @@
+#include <limits.h>
+
 #include "random.h"
 
 static Value randomRandom(DictuVM *vm, int argCount, Value *args) {
@@ -24,9 +26,14 @@ static Value randomRange(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
-    int upper = AS_NUMBER(args[1]);
-    int lower = AS_NUMBER(args[0]);
-    int random_val = (rand() % (upper - lower + 1)) + lower;
+    if (!(AS_NUMBER(args[0]) >= INT_MIN && AS_NUMBER(args[1]) <= INT_MAX && AS_NUMBER(args[0]) <= AS_NUMBER(args[1]))) {
+        runtimeError(vm, "range() arguments must be the lowest and the highest number");
+        return EMPTY_VAL;
+    }
+
+    long long upper = AS_NUMBER(args[1]);
+    long long lower = AS_NUMBER(args[0]);
+    long long random_val = (rand() % (upper - lower + 1)) + lower;
     return NUMBER_VAL(random_val);
 }
 
@@ -42,6 +49,11 @@ static Value randomSelect(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjList *list = AS_LIST(args[0]);
+    if (list->values.count == 0) {
+        runtimeError(vm, "select() argument must not be an empty list");
+        return EMPTY_VAL;
+    }
+
     argCount = list->values.count;
     args = list->values.values;
 
-- 
2.43.0


From a9186af3a483199854840f0952bc18bb071393e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:11 +0000
Subject: [PATCH 46/69] fix: Math.max and Math.min check their first number

The first value was used unchecked; an empty list was read out of bounds.
---
 src/optionals/math.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 2899cf1..3c5d060 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -95,9 +95,13 @@ static Value maxNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
-    double maximum = AS_NUMBER(args[0]);
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
 
-    for (int i = 1; i < argCount; ++i) {
+    double maximum = -INFINITY;
+
+    for (int i = 0; i < argCount; ++i) {
         Value value = args[i];
         if (!IS_NUMBER(value)) {
             runtimeError(vm, "A non-number value passed to max()");
@@ -123,9 +127,13 @@ static Value minNative(DictuVM *vm, int argCount, Value *args) {
         args = list->values.values;
     }
 
-    double minimum = AS_NUMBER(args[0]);
+    if (argCount == 0) {
+        return NUMBER_VAL(0);
+    }
 
-    for (int i = 1; i < argCount; ++i) {
+    double minimum = INFINITY;
+
+    for (int i = 0; i < argCount; ++i) {
         Value value = args[i];
         if (!IS_NUMBER(value)) {
             runtimeError(vm, "A non-number value passed to min()");
-- 
2.43.0


From 188ce397ab18361a946b7336a2d05b2ca6df8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 47/69] fix: Math.gcd and Math.lcm of zeros and negative
 numbers

lcm(0, 0) divided by zero; a negative argument gave a number that is not the greatest common divisor.
---
 src/optionals/math.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optionals/math.c b/src/optionals/math.c
index 3c5d060..158ca62 100644
--- a/src/optionals/math.c
+++ b/src/optionals/math.c
@@ -231,6 +231,8 @@ static Value tanNative(DictuVM *vm, int argCount, Value *args) {
 
 static long long gcd(long long a, long long b) {
     long long r;
+    a = llabs(a);
+    b = llabs(b);
     while (b > 0) {
         r = a % b;
         a = b;
@@ -286,7 +288,11 @@ static Value gcdNative(DictuVM *vm, int argCount, Value *args) {
 }
 
 long long lcm(long long a, long long b) {
-    return (a * b) / gcd(a, b);
+    if (a == 0 || b == 0) {
+        return 0;
+    }
+
+    return llabs(a / gcd(a, b) * b);
 }
 
 static Value lcmNative(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From 058d448347d93c08fc9a550eb393985905212faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 48/69] fix: Path.join of empty parts and parts made of
 separators only

It read before the start of the string and computed a wrong size.
---
 src/optionals/path.c | 56 +++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index b7336f4..9343640 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -258,57 +258,43 @@ static Value joinNative(DictuVM *vm, int argCount, Value *args) {
     }
 
     ObjString* part;
-    // resultSize = # of dir separators that will be used + length of each string arg
-    size_t resultSize = abs(argCount - 1); // abs is needed here because of a clang bug
-    for (int i = 0; i < argCount; ++i) {
-        part = AS_STRING(args[i]);
-        resultSize += part->length;
-        // Account for leading DIR_SEPARATOR chars to be removed
-        for (int j = 0; j < part->length; ++j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-        // Account for trailing DIR_SEPARATOR chars to be removed
-        for (int j = part->length - 1; j >= 0; --j) {
-            if (part->chars[j] == DIR_SEPARATOR) --resultSize;
-            else break;
-        }
-    }
-    // Account for leading/trailing DIR_SEPARATOR on the first/last part respectively
-    part = AS_STRING(args[0]);
-    resultSize += part->chars[0] == DIR_SEPARATOR;
-    part = AS_STRING(args[argCount - 1]);
-    resultSize += part->chars[part->length - 1] == DIR_SEPARATOR;
+    // Upper bound of the size: length of each string arg + # of dir separators that may be used
+    size_t maxSize = argCount;
+    for (int i = 0; i < argCount; ++i) maxSize += AS_STRING(args[i])->length;
 
-    char* str = ALLOCATE(vm, char, resultSize + 1);
+    char* str = ALLOCATE(vm, char, maxSize + 1);
     char* dest = str;
     for (int i = 0; i < argCount; ++i) {
         part = AS_STRING(args[i]);
 
         // Skip leading DIR_SEPARATOR characters on everything except for one on the first part,
         // and trailing DIR_SEPARATOR characters on everything except for one on the last part.
-        // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc' instead of '///tmp////abc///'
+        // e.g. `join('///tmp///', '/abc///')` returns '/tmp/abc/' instead of '///tmp////abc///'
         int start = 0;
-        while (part->chars[start++] == DIR_SEPARATOR);
-        int end = part->length - 1;
-        while (part->chars[end--] == DIR_SEPARATOR);
-
-        bool lastIteration = i == argCount - 1;
+        while (start < part->length && part->chars[start] == DIR_SEPARATOR) ++start;
+        int end = part->length;
+        while (end > start && part->chars[end - 1] == DIR_SEPARATOR) --end;
 
         // Check if the first part starts with a DIR_SEPARATOR so that we can preserve it
-        bool firstLeadingDirSep = !i && part->chars[0] == DIR_SEPARATOR;
-
-        // Check if the last part ends with a DIR_SEPARATOR so that we can preserve it
-        bool lastTrailingDirSep = lastIteration && part->chars[part->length - 1] == DIR_SEPARATOR;
+        if (i == 0 && start > 0) *dest++ = DIR_SEPARATOR;
 
         // Append the part string to the end of dest
-        for (int j = start - 1 - firstLeadingDirSep; j <= end + 1 + lastTrailingDirSep; ++j)
+        for (int j = start; j < end; ++j)
             *dest++ = part->chars[j];
 
-        // Append a DIR_SEPARATOR if necessary
-        if (!lastIteration && part->chars[end + 1] != DIR_SEPARATOR) *dest++ = DIR_SEPARATOR;
+        if (i == argCount - 1) {
+            // Check if the last part ends with a DIR_SEPARATOR so that we can preserve it
+            if (end < part->length && end > start) *dest++ = DIR_SEPARATOR;
+        } else if (end > start || part->length == 0) {
+            // Append a DIR_SEPARATOR if necessary
+            *dest++ = DIR_SEPARATOR;
+        }
     }
 
+    size_t resultSize = dest - str;
+    str = SHRINK_ARRAY(vm, str, char, maxSize + 1, resultSize + 1);
+    str[resultSize] = '\0';
+
     return OBJ_VAL(takeString(vm, str, resultSize));
 }
 
-- 
2.43.0


From 75e91c8ffa6e2c83c6c583aa3f83312ef2dfc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:11 +0000
Subject: [PATCH 49/69] fix: JSON.stringify of values that hold something not
 serializable is an error

It crashed; a negative indentation wrote past the buffer.
---
 src/optionals/json.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 63c0691..855acb4 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -120,7 +120,13 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                 json_value *json = json_array_new(list->values.count);
 
                 for (int i = 0; i < list->values.count; i++) {
-                    json_array_push(json, stringifyJson(vm, list->values.values[i]));
+                    json_value *item = stringifyJson(vm, list->values.values[i]);
+                    if (item == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
+                    json_array_push(json, item);
                 }
 
                 return json;
@@ -136,6 +142,12 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         continue;
                     }
 
+                    json_value *item = stringifyJson(vm, entry->value);
+                    if (item == NULL) {
+                        json_builder_free(json);
+                        return NULL;
+                    }
+
                     char *key;
 
                     if (IS_STRING(entry->key)) {
@@ -152,7 +164,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                     json_object_push(
                         json,
                         key,
-                        stringifyJson(vm, entry->value)
+                        item
                     );
 
                     if (!IS_STRING(entry->key)) {
@@ -188,6 +200,9 @@ Value stringify(DictuVM *vm, int argCount, Value *args) {
 
         lineType = json_serialize_mode_multiline;
         indent = AS_NUMBER(args[1]);
+        if (indent < 0) {
+            indent = 0;
+        }
     }
 
     json_value *json = stringifyJson(vm, args[0]);
-- 
2.43.0


From 32e73641b1613b2ccdd486b6d06cdb42f452780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 50/69] fix: peek() of an empty Stack or Queue is an error

It read outside of the stored values; a size below 1 is rejected too.
---
 src/optionals/queue.c | 9 +++++++--
 src/optionals/stack.c | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index f09a76c..deae78a 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -110,7 +110,12 @@ static Value queuePeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Queue *queue = AS_QUEUE(args[0]);
-    
+
+    if (queue->count == 0) {
+        runtimeError(vm, "peek() called on an empty queue");
+        return EMPTY_VAL;
+    }
+
     return queue->dq[queue->front];
 }
 
@@ -252,7 +257,7 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index 3916291..d9c3a6b 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -90,7 +90,12 @@ static Value stackPeek(DictuVM *vm, int argCount, Value *args) {
     }
 
     Stack *stack = AS_STACK(args[0]);
-    
+
+    if (stack->top == 0) {
+        runtimeError(vm, "peek() called on an empty stack");
+        return EMPTY_VAL;
+    }
+
     return stack->ds[stack->top - 1];
 }
 
@@ -187,7 +192,7 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
     }
 
     double capacity = AS_NUMBER(args[0]);
-    if (capacity <= 0) {
+    if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
 
-- 
2.43.0


From 45a190619a2c22655454c73e8ff01172f0cd58b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 51/69] fix: a full Queue that wraps around keeps its values

Growing it lost the order, and the collector freed values in use.
---
 src/optionals/queue.c | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index deae78a..6dffad2 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -34,26 +34,8 @@ void grayQueue(DictuVM *vm, ObjAbstract *abstract) {
 
     if (queue == NULL) return;
 
-    if (queue->count == queue->capacity) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        return;
-    }
-
-    if (queue->rear + 1 < queue->front) {
-        for (int i = queue->front; i < queue->capacity; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-
-        for (int i = 0; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
-    } else {
-        for (int i = queue->front; i < queue->rear + 1; ++i) {
-            grayValue(vm, queue->dq[i]);
-        }
+    for (int i = 0; i < queue->count; ++i) {
+        grayValue(vm, queue->dq[(queue->front + i) % queue->capacity]);
     }
 }
 
@@ -129,8 +111,18 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
 
     if (queue->capacity < queue->count + 1) {
         int oldCapacity = queue->capacity;
-        queue->capacity = GROW_CAPACITY(oldCapacity);
-        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, queue->capacity);
+        int capacity = GROW_CAPACITY(oldCapacity);
+        queue->dq = GROW_ARRAY(vm, queue->dq, Value, oldCapacity, capacity);
+        queue->capacity = capacity;
+
+        // The values that wrapped around follow the ones at the end of the old array
+        if (queue->front > queue->rear) {
+            for (int i = 0; i <= queue->rear; ++i) {
+                queue->dq[(oldCapacity + i) % capacity] = queue->dq[i];
+            }
+
+            queue->rear = (oldCapacity + queue->rear) % capacity;
+        }
     }
 
     if (queue->rear == queue->capacity-1) {
-- 
2.43.0


From 56067f0e766dae1eb057f448c5aa34257ed7f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:29 +0000
Subject: [PATCH 52/69] fix: a file keeps the path and the mode it was opened
 with

The collector could free their strings while the file used them.
---
 src/vm/datatypes/files.c | 12 ++++++------
 src/vm/memory.c          |  8 +++++++-
 src/vm/object.c          | 11 ++++++++---
 src/vm/object.h          |  4 ++--
 src/vm/vm.c              |  6 +++---
 5 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ee6462a..ba0b0bf 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -15,14 +15,14 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0 || strcmp(file->openType, "rb") == 0) {
+    if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
 
     int charsWrote = 0;
 
-    if (strcmp(file->openType, "wb") == 0) {
+    if (strcmp(file->openType->chars, "wb") == 0) {
         charsWrote = fwrite(string->chars, 1, string->length, file->file);
     } else {
         charsWrote = fprintf(file->file, "%s", string->chars);
@@ -46,7 +46,7 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
-    if (strcmp(file->openType, "r") == 0) {
+    if (strcmp(file->openType->chars, "r") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
     }
@@ -73,14 +73,14 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     char *buffer = ALLOCATE(vm, char, fileSize + 1);
     if (buffer == NULL) {
-        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path);
+        runtimeError(vm, "Not enough memory to read \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
     size_t bytesRead = fread(buffer, sizeof(char), fileSize, file->file);
     if (bytesRead < fileSize && !feof(file->file)) {
         FREE_ARRAY(vm, char, buffer, fileSize + 1);
-        runtimeError(vm, "Could not read file \"%s\".\n", file->path);
+        runtimeError(vm, "Could not read file \"%s\".\n", file->path->chars);
         return EMPTY_VAL;
     }
 
@@ -174,7 +174,7 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
-    if (offset != 0 && !strstr(file->openType, "b")) {
+    if (offset != 0 && !strstr(file->openType->chars, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
         return EMPTY_VAL;
     }
diff --git a/src/vm/memory.c b/src/vm/memory.c
index c682a73..4c467ae 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -182,8 +182,14 @@ static void blackenObject(DictuVM *vm, Obj *object) {
 
         case OBJ_NATIVE:
         case OBJ_STRING:
-        case OBJ_FILE:
             break;
+
+        case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            grayObject(vm, (Obj *) file->path);
+            grayObject(vm, (Obj *) file->openType);
+            break;
+        }
     }
 }
 
diff --git a/src/vm/object.c b/src/vm/object.c
index 360749b..2ffda53 100644
--- a/src/vm/object.c
+++ b/src/vm/object.c
@@ -182,7 +182,12 @@ ObjSet *newSet(DictuVM *vm) {
 }
 
 ObjFile *newFile(DictuVM *vm) {
-    return ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    ObjFile *file = ALLOCATE_OBJ(vm, ObjFile, OBJ_FILE);
+    file->file = NULL;
+    file->path = NULL;
+    file->openType = NULL;
+
+    return file;
 }
 
 ObjAbstract *newAbstract(DictuVM *vm, AbstractFreeFn func, AbstractTypeFn type) {
@@ -749,8 +754,8 @@ char *objectToString(Value value) {
 
         case OBJ_FILE: {
             ObjFile *file = AS_FILE(value);
-            char *fileString = malloc(sizeof(char) * (strlen(file->path) + 8));
-            snprintf(fileString, strlen(file->path) + 8, "<File %s>", file->path);
+            char *fileString = malloc(sizeof(char) * (strlen(file->path->chars) + 8));
+            snprintf(fileString, strlen(file->path->chars) + 8, "<File %s>", file->path->chars);
             return fileString;
         }
 
diff --git a/src/vm/object.h b/src/vm/object.h
index d39572a..05aa61e 100644
--- a/src/vm/object.h
+++ b/src/vm/object.h
@@ -166,8 +166,8 @@ struct sObjSet {
 struct sObjFile {
     Obj obj;
     FILE *file;
-    char *path;
-    char *openType;
+    ObjString *path;
+    ObjString *openType;
 };
 
 typedef void (*AbstractFreeFn)(DictuVM *vm, ObjAbstract *abstract);
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 908bdad..6ecfeb4 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2398,11 +2398,11 @@ static DictuInterpretResult run(DictuVM *vm) {
 
             ObjFile *file = newFile(vm);
             file->file = fopen(fileNameString->chars, openTypeString->chars);
-            file->path = fileNameString->chars;
-            file->openType = openTypeString->chars;
+            file->path = fileNameString;
+            file->openType = openTypeString;
 
             if (file->file == NULL) {
-                RUNTIME_ERROR("Unable to open file '%s'", file->path);
+                RUNTIME_ERROR("Unable to open file '%s'", file->path->chars);
             }
 
             pop(vm);
-- 
2.43.0


From 9075633ecb994f99b8f1c587c3b1f56117023354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:29 +0000
Subject: [PATCH 53/69] fix: methods of closed files and readLine with any size
 are safe

A file used after its with block was accessed after it was freed; a size of 0 or below, or a line that starts with a NUL byte, was accessed out of bounds. A file left open is closed when it is collected.
---
 src/vm/datatypes/files.c | 53 +++++++++++++++++++++++++++++++---------
 src/vm/memory.c          |  5 ++++
 src/vm/vm.c              |  5 +++-
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/vm/datatypes/files.c b/src/vm/datatypes/files.c
index ba0b0bf..af182cf 100644
--- a/src/vm/datatypes/files.c
+++ b/src/vm/datatypes/files.c
@@ -1,3 +1,5 @@
+#include <limits.h>
+
 #include "files.h"
 #include "../memory.h"
 
@@ -15,6 +17,11 @@ static Value writeFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
+    if (file->file == NULL) {
+        runtimeError(vm, "write() may not be called on a closed file");
+        return EMPTY_VAL;
+    }
+
     if (strcmp(file->openType->chars, "r") == 0 || strcmp(file->openType->chars, "rb") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
@@ -46,6 +53,11 @@ static Value writeLineFile(DictuVM *vm, int argCount, Value *args) {
     ObjFile *file = AS_FILE(args[0]);
     ObjString *string = AS_STRING(args[1]);
 
+    if (file->file == NULL) {
+        runtimeError(vm, "writeLine() may not be called on a closed file");
+        return EMPTY_VAL;
+    }
+
     if (strcmp(file->openType->chars, "r") == 0) {
         runtimeError(vm, "File is not writable!");
         return EMPTY_VAL;
@@ -65,6 +77,11 @@ static Value readFullFile(DictuVM *vm, int argCount, Value *args) {
 
     ObjFile *file = AS_FILE(args[0]);
 
+    if (file->file == NULL) {
+        runtimeError(vm, "read() may not be called on a closed file");
+        return EMPTY_VAL;
+    }
+
     size_t currentPosition = ftell(file->file);
     // Calculate file size
     fseek(file->file, 0L, SEEK_END);
@@ -99,6 +116,13 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
         return EMPTY_VAL;
     }
 
+    ObjFile *file = AS_FILE(args[0]);
+
+    if (file->file == NULL) {
+        runtimeError(vm, "readLine() may not be called on a closed file");
+        return EMPTY_VAL;
+    }
+
     int readLineBufferSize = 4096;
 
     if (argCount == 1) {
@@ -107,31 +131,31 @@ static Value readLineFile(DictuVM *vm, int argCount, Value *args) {
             return EMPTY_VAL;
         }
 
-        readLineBufferSize = AS_NUMBER(args[1]) + 1;
+        double size = AS_NUMBER(args[1]);
+        if (!(size >= 1 && size < INT_MAX)) {
+            runtimeError(vm, "readLine() argument must be greater than 0");
+            return EMPTY_VAL;
+        }
+
+        readLineBufferSize = (int) size + 1;
     }
 
-#ifdef _WIN32
     char *line = ALLOCATE(vm, char, readLineBufferSize);
-#else 
-    char line[readLineBufferSize]; 
-#endif
+    Value result = NIL_VAL;
 
-    ObjFile *file = AS_FILE(args[0]);
     if (fgets(line, readLineBufferSize, file->file) != NULL) {
         int lineLength = strlen(line);
         // Remove newline char
-        if (line[lineLength - 1] == '\n') {
+        if (lineLength > 0 && line[lineLength - 1] == '\n') {
             lineLength--;
             line[lineLength] = '\0';
         }
-        return OBJ_VAL(copyString(vm, line, lineLength));
+        result = OBJ_VAL(copyString(vm, line, lineLength));
     }
 
-#ifdef _WIN32
-    FREE(vm, char, line);
-#endif 
+    FREE_ARRAY(vm, char, line, readLineBufferSize);
 
-    return NIL_VAL;
+    return result;
 }
 
 static Value seekFile(DictuVM *vm, int argCount, Value *args) {
@@ -174,6 +198,11 @@ static Value seekFile(DictuVM *vm, int argCount, Value *args) {
     int offset = AS_NUMBER(args[1]);
     ObjFile *file = AS_FILE(args[0]);
 
+    if (file->file == NULL) {
+        runtimeError(vm, "seek() may not be called on a closed file");
+        return EMPTY_VAL;
+    }
+
     if (offset != 0 && !strstr(file->openType->chars, "b")) {
         runtimeError(vm, "seek() may not have non-zero offset if file is opened in text mode");
         return EMPTY_VAL;
diff --git a/src/vm/memory.c b/src/vm/memory.c
index 4c467ae..d3ab2ea 100644
--- a/src/vm/memory.c
+++ b/src/vm/memory.c
@@ -295,6 +295,11 @@ void freeObject(DictuVM *vm, Obj *object) {
         }
 
         case OBJ_FILE: {
+            ObjFile *file = (ObjFile *) object;
+            if (file->file != NULL) {
+                fclose(file->file);
+            }
+
             FREE(vm, ObjFile, object);
             break;
         }
diff --git a/src/vm/vm.c b/src/vm/vm.c
index 6ecfeb4..17f91a6 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -2415,7 +2415,10 @@ static DictuInterpretResult run(DictuVM *vm) {
             uint8_t slot = READ_BYTE();
             Value file = frame->slots[slot];
             ObjFile *fileObject = AS_FILE(file);
-            fclose(fileObject->file);
+            if (fileObject->file != NULL) {
+                fclose(fileObject->file);
+                fileObject->file = NULL;
+            }
 
             DISPATCH();
         }
-- 
2.43.0


From ccab14243d7ae0f8bd254fd38fa3ac58f269e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:29 +0000
Subject: [PATCH 54/69] fix: System.mkdirAll of an empty path is an error

---
 src/optionals/system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optionals/system.c b/src/optionals/system.c
index 9a17a8b..d565b64 100644
--- a/src/optionals/system.c
+++ b/src/optionals/system.c
@@ -288,6 +288,10 @@ static Value mkdirAllNative(DictuVM *vm, int argCount, Value *args) {
     snprintf(tmp, sizeof(tmp), "%s", dir);
 
     len = strlen(tmp);
+    if (len == 0) {
+        return newResultError(vm, "No such file or directory");
+    }
+
     if (tmp[len - 1] == '/' || tmp[len - 1] == '\\') {
         tmp[len - 1] = 0;
     }
-- 
2.43.0


From de67b28e83b2994e9f8e20626e472599aebb0f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 55/69] fix: Buffer write functions for big endian return the
 value that was written

They returned it with its bytes swapped; as a double that could be taken for a pointer.
---
 src/optionals/buffer.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index ddd5316..d6f89dd 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -53,6 +53,7 @@ bool writeInternal(Buffer *buffer, double offset, uint8_t *data, size_t len) {
     if (!ensureSize(buffer, offset, len))
         return false;
     memcpy(buffer->bytes + (size_t)offset, data, len);
+    swap(buffer->bytes + (size_t)offset, len, buffer->bigEndian);
     return true;
 }
 
@@ -148,7 +149,7 @@ static Value bufferWriteint8(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 1");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -183,7 +184,7 @@ static Value bufferWriteUint16LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -218,7 +219,7 @@ static Value bufferWriteUint32LE(DictuVM *vm, int argCount, Value *args) {
     uint32_t correctVal = (uint32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -253,7 +254,7 @@ static Value bufferWriteUint64LE(DictuVM *vm, int argCount, Value *args) {
     uint64_t correctVal = (uint64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -286,7 +287,7 @@ static Value bufferWriteint64LE(DictuVM *vm, int argCount, Value *args) {
     int64_t correctVal = (int64_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -320,7 +321,7 @@ static Value bufferWriteint32LE(DictuVM *vm, int argCount, Value *args) {
     int32_t correctVal = (int32_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -354,7 +355,7 @@ static Value bufferWriteint16LE(DictuVM *vm, int argCount, Value *args) {
     int16_t correctVal = (int16_t)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 2");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -388,7 +389,7 @@ static Value bufferWritefloat32LE(DictuVM *vm, int argCount, Value *args) {
     float correctVal = (float)value;
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 4");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
@@ -424,7 +425,7 @@ static Value bufferWritefloat64LE(DictuVM *vm, int argCount, Value *args) {
 
     if (!writeInternal(
             buffer, index,
-            swap((uint8_t *)&correctVal, sizeof(correctVal), buffer->bigEndian),
+            (uint8_t *)&correctVal,
             sizeof(correctVal)))
         return newResultError(vm, "index must be smaller than buffer size - 8");
     return newResultSuccess(vm, NUMBER_VAL(correctVal));
-- 
2.43.0


From 7ebe94a0872aad3329a6537e263b079747d8ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 56/69] fix: Buffer.readFloat and readDouble of any NaN give a
 number

Some bit patterns of NaN were taken for pointers.
---
 src/optionals/buffer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/optionals/buffer.c b/src/optionals/buffer.c
index d6f89dd..5d8e483 100644
--- a/src/optionals/buffer.c
+++ b/src/optionals/buffer.c
@@ -1,3 +1,5 @@
+#include <math.h>
+
 #include "buffer.h"
 
 typedef struct {
@@ -63,6 +65,11 @@ uint8_t *getReadPtr(Buffer *buffer, double offset, size_t len) {
     return buffer->bytes + (size_t)offset;
 }
 
+// The payload of a NaN read from raw bytes must not be taken for the tag of another type
+static Value numberFromBytes(double value) {
+    return NUMBER_VAL(isnan(value) ? NAN : value);
+}
+
 static Value bufferResize(DictuVM *vm, int argCount, Value *args) {
     if (argCount != 1) {
         runtimeError(vm, "resize() takes 1 argument (%d given).", argCount);
@@ -455,7 +462,7 @@ static Value bufferReadfloat64LE(DictuVM *vm, int argCount, Value *args) {
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
 
-    return newResultSuccess(vm, NUMBER_VAL(value));
+    return newResultSuccess(vm, numberFromBytes(value));
 }
 
 static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
@@ -480,7 +487,7 @@ static Value bufferReadfloat32LE(DictuVM *vm, int argCount, Value *args) {
         return newResultError(vm, "index must be smaller than buffer size - 4");
     memcpy(&value, ptr, sizeof(value));
     swap((uint8_t *)&value, sizeof(value), buffer->bigEndian);
-    return newResultSuccess(vm, NUMBER_VAL(value));
+    return newResultSuccess(vm, numberFromBytes(value));
 }
 
 static Value bufferReadUint64LE(DictuVM *vm, int argCount, Value *args) {
-- 
2.43.0


From d25d23a4d89e53ec8f24d337ce4f0ecef785ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:57 +0000
Subject: [PATCH 57/69] fix: the size of a Queue or Stack is a whole number
 that fits its capacity

---
 src/optionals/queue.c | 10 +++++++---
 src/optionals/stack.c |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/optionals/queue.c b/src/optionals/queue.c
index 6dffad2..e3582dc 100644
--- a/src/optionals/queue.c
+++ b/src/optionals/queue.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "queue.h"
@@ -135,7 +136,7 @@ static Value queuePush(DictuVM *vm, int argCount, Value *args) {
     return NIL_VAL;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity);
+Queue* createQueue(DictuVM *vm, int capacity);
 
 static void shrinkQueue(DictuVM *vm, Queue *queue) {
     int oldCapacity = queue->capacity;
@@ -191,7 +192,7 @@ static Value queuePop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-Queue* createQueue(DictuVM *vm, double capacity) {
+Queue* createQueue(DictuVM *vm, int capacity) {
     Queue *queue = ALLOCATE(vm, Queue, 1);
     queue->dq = ALLOCATE(vm, Value, capacity);
     queue->capacity = capacity;
@@ -202,7 +203,7 @@ Queue* createQueue(DictuVM *vm, double capacity) {
     return queue;
 }
 
-ObjAbstract* newQueueObj(DictuVM *vm, double capacity) {
+ObjAbstract* newQueueObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeQueue, queueToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -252,6 +253,9 @@ static Value newQueueWithSize(DictuVM *vm, int argCount, Value *args) {
     if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
+    if (capacity > INT_MAX) {
+        return newResultError(vm, "capacity is too large");
+    }
 
     return newResultSuccess(vm, OBJ_VAL(newQueueObj(vm, capacity)));
 }
diff --git a/src/optionals/stack.c b/src/optionals/stack.c
index d9c3a6b..0ed3a92 100644
--- a/src/optionals/stack.c
+++ b/src/optionals/stack.c
@@ -1,3 +1,4 @@
+#include <limits.h>
 #include <string.h>
 
 #include "stack.h"
@@ -141,7 +142,7 @@ static Value stackPop(DictuVM *vm, int argCount, Value *args) {
     return data;
 }
 
-ObjAbstract* newStackObj(DictuVM *vm, double capacity) {
+ObjAbstract* newStackObj(DictuVM *vm, int capacity) {
     ObjAbstract *abstract = newAbstract(vm, freeStack, stackToString);
     push(vm, OBJ_VAL(abstract));
 
@@ -195,6 +196,9 @@ static Value newStackWithSize(DictuVM *vm, int argCount, Value *args) {
     if (!(capacity >= 1)) {
         return newResultError(vm, "capacity must be greater than 0");
     }
+    if (capacity > INT_MAX) {
+        return newResultError(vm, "capacity is too large");
+    }
 
     return OBJ_VAL(newResultSuccess(vm, OBJ_VAL(newStackObj(vm, capacity))));
 }
-- 
2.43.0


From 20013042ae4871e549737f4d605a7a5c4234a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 58/69] fix: Path.basename of a name of one character is that
 name

---
 src/optionals/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 9343640..4df6883 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -58,7 +58,7 @@ static Value basenameNative(DictuVM *vm, int argCount, Value *args) {
     char *path = PathString->chars;
     int len = PathString->length;
 
-    if (!len || (len == 1 && !IS_DIR_SEPARATOR(*path))) {
+    if (!len) {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
-- 
2.43.0


From c8579b4b24ad7524903108c7acb41b82f0aa30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 59/69] fix: Path.extname ignores dots in the names of
 directories

---
 src/optionals/path.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index 4df6883..e33274b 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -89,9 +89,10 @@ static Value extnameNative(DictuVM *vm, int argCount, Value *args) {
     }
 
     char *p = path + len;
-    while (p > path && (*(p - 1) != '.')) --p;
+    while (p > path && *(p - 1) != '.' && !IS_DIR_SEPARATOR(*(p - 1))) --p;
 
-    if (p == path) {
+    // A dot in the name of a directory does not start an extension
+    if (p == path || IS_DIR_SEPARATOR(*(p - 1))) {
         return OBJ_VAL(copyString(vm, "", 0));
     }
 
-- 
2.43.0


From a10b6fe0da856ccc09f8052244578989d21e6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 60/69] fix: Path.isDir of a path where nothing is is false

---
 src/optionals/path.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/optionals/path.c b/src/optionals/path.c
index e33274b..9de4e83 100644
--- a/src/optionals/path.c
+++ b/src/optionals/path.c
@@ -147,9 +147,7 @@ static Value isdirNative(DictuVM *vm, int argCount, Value *args) {
 
     char *path = AS_CSTRING(args[0]);
     struct stat path_stat;
-    stat(path, &path_stat);
-
-    if (S_ISDIR(path_stat.st_mode))
+    if (stat(path, &path_stat) == 0 && S_ISDIR(path_stat.st_mode))
         return TRUE_VAL;
 
     return FALSE_VAL;
-- 
2.43.0


From 487b0412b82f98fa65e6ded45a06791f21b96218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:16 +0000
Subject: [PATCH 61/69] fix: the directory of a path in a directory of one
 character is that directory

---
 src/vm/util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vm/util.c b/src/vm/util.c
index aa7e9de..57340a1 100644
--- a/src/vm/util.c
+++ b/src/vm/util.c
@@ -54,6 +54,10 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         sep--;
     }
 
+    if (sep == path && !IS_DIR_SEPARATOR(*sep)) {
+        return copyString(vm, ".", 1);
+    }
+
     /* trim again */
     while (sep != path) {
         if (0 == IS_DIR_SEPARATOR (*sep))
@@ -61,10 +65,6 @@ ObjString *dirname(DictuVM *vm, char *path, int len) {
         sep--;
     }
 
-    if (sep == path && !IS_DIR_SEPARATOR(*sep)) {
-        return copyString(vm, ".", 1);
-    }
-
     len = sep - path + 1;
 
     return copyString(vm, path, len);
-- 
2.43.0


From ec23e00576a538708bfe43305df4e005f2744ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:35 +0000
Subject: [PATCH 62/69] fix: JSON.parse of surrogate pairs beyond U+1FFFF gives
 the character

---
 src/optionals/json/jsonParseLib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 9e05f8d..83568a5 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -348,7 +348,7 @@ json_value * json_parse_ex (json_settings * settings,
                                 uc_b2 = (uc_b3 << 4) | uc_b4;
                                 uchar2 = (uc_b1 << 8) | uc_b2;
 
-                                uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                                uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                             }
 
                             if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From 07c487c9ef8432c4a822407581a0dcb7be273c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:01 +0000
Subject: [PATCH 63/69] fix: JSON.parse reads every number as the nearest one

---
 src/optionals/json/jsonParseLib.c | 34 +++++++++----------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/optionals/json/jsonParseLib.c b/src/optionals/json/jsonParseLib.c
index 83568a5..b29e576 100644
--- a/src/optionals/json/jsonParseLib.c
+++ b/src/optionals/json/jsonParseLib.c
@@ -248,8 +248,8 @@ json_value * json_parse_ex (json_settings * settings,
     const json_char * end;
     json_value * top, * root, * alloc = 0;
     json_state state = { 0 };
-    double num_digits = 0, num_e = 0;
-    double num_fraction = 0;
+    double num_digits = 0;
+    const json_char * num_start = 0;
 
     /* Skip UTF-8 BOM
      */
@@ -676,11 +676,10 @@ json_value * json_parse_ex (json_settings * settings,
 
                                     flags &= ~ (flag_num_negative | flag_num_e |
                                                 flag_num_e_got_sign | flag_num_e_negative |
-                                                flag_num_zero);
+                                                flag_num_zero | flag_num_got_decimal);
 
                                     num_digits = 0;
-                                    num_fraction = 0;
-                                    num_e = 0;
+                                    num_start = state.ptr + (b == '-');
 
                                     if (b != '-')
                                     {
@@ -765,7 +764,6 @@ json_value * json_parse_ex (json_settings * settings,
                                 else
                                 {
                                     flags |= flag_num_e_got_sign;
-                                    num_e = (num_e * 10) + (b - '0');
                                     continue;
                                 }
 
@@ -773,7 +771,6 @@ json_value * json_parse_ex (json_settings * settings,
                                 {  -- num_digits;
                                     -- state.ptr;
                                     top->type = json_double;
-                                    top->u.dbl = (double)top->u.integer;
                                     continue;
                                 }
 
@@ -781,11 +778,6 @@ json_value * json_parse_ex (json_settings * settings,
                                 continue;
                             }
 
-                            if (flags & flag_num_got_decimal)
-                                num_fraction = (num_fraction * 10) + (b - '0');
-                            else
-                                top->u.dbl = (top->u.dbl * 10) + (b - '0');
-
                             continue;
                         }
 
@@ -801,7 +793,7 @@ json_value * json_parse_ex (json_settings * settings,
                                 continue;
                             }
                         }
-                        else if (b == '.' && top->type == json_integer)
+                        else if (b == '.' && ! (flags & (flag_num_got_decimal | flag_num_e)))
                         {
                             if (!num_digits)
                             {  sprintf (error, "%u:%u: Expected digit before `.`", line_and_col);
@@ -809,7 +801,6 @@ json_value * json_parse_ex (json_settings * settings,
                             }
 
                             top->type = json_double;
-                            top->u.dbl = (double) top->u.integer;
 
                             flags |= flag_num_got_decimal;
                             num_digits = 0;
@@ -824,20 +815,13 @@ json_value * json_parse_ex (json_settings * settings,
                                 {  sprintf (error, "%u:%u: Expected digit after `.`", line_and_col);
                                     goto e_failed;
                                 }
-
-                                top->u.dbl += num_fraction / pow (10.0, num_digits);
                             }
 
                             if (b == 'e' || b == 'E')
                             {
                                 flags |= flag_num_e;
 
-                                if (top->type == json_integer)
-                                {
-                                    top->type = json_double;
-                                    top->u.dbl = (double) top->u.integer;
-                                }
-
+                                top->type = json_double;
                                 num_digits = 0;
                                 flags &= ~ flag_num_zero;
 
@@ -850,10 +834,12 @@ json_value * json_parse_ex (json_settings * settings,
                             {  sprintf (error, "%u:%u: Expected digit after `e`", line_and_col);
                                 goto e_failed;
                             }
-
-                            top->u.dbl *= pow (10.0, ((flags & flag_num_e_negative) ? - num_e : num_e));
                         }
 
+                        /* The number ends here, so this reads exactly its text */
+                        if (top->type == json_double)
+                            top->u.dbl = strtod (num_start, NULL);
+
                         if (flags & flag_num_negative)
                         {
                             if (top->type == json_integer)
-- 
2.43.0


From 7c2d512d087e027685d9af9c2f009e8cb7d84261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:01 +0000
Subject: [PATCH 64/69] fix: JSON.stringify of numbers that are not finite is
 an error

---
 src/optionals/json.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index 855acb4..f1175a9 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -1,3 +1,5 @@
+#include <math.h>
+
 #include "json.h"
 
 static Value parseJson(DictuVM *vm, json_value *json) {
@@ -104,6 +106,11 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_NUMBER(value)) {
         double num = AS_NUMBER(value);
 
+        // JSON has no text for these
+        if (isnan(num) || isinf(num)) {
+            return NULL;
+        }
+
         if ((int) num == num) {
             return json_integer_new((int) num);
         }
-- 
2.43.0


From 6ffc0c420f71c056f19090f9f19cdb23cff9a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:19 +0000
Subject: [PATCH 65/69] fix: JSON.stringify escapes control characters and
 keeps NUL bytes

---
 src/optionals/json.c                | 5 +++--
 src/optionals/json/jsonBuilderLib.c | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/optionals/json.c b/src/optionals/json.c
index f1175a9..f547c0e 100644
--- a/src/optionals/json.c
+++ b/src/optionals/json.c
@@ -119,7 +119,7 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
     } else if (IS_OBJ(value)) {
         switch (AS_OBJ(value)->type) {
             case OBJ_STRING: {
-                return json_string_new(AS_CSTRING(value));
+                return json_string_new_length(AS_STRING(value)->length, AS_CSTRING(value));
             }
 
             case OBJ_LIST: {
@@ -168,8 +168,9 @@ json_value* stringifyJson(DictuVM *vm, Value value) {
                         key = valueToString(entry->key);
                     }
 
-                    json_object_push(
+                    json_object_push_length(
                         json,
+                        IS_STRING(entry->key) ? (size_t) AS_STRING(entry->key)->length : strlen(key),
                         key,
                         item
                     );
diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 2b2e589..679062e 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -479,7 +479,8 @@ static size_t measure_string (unsigned int length,
 
             default:
 
-                ++ measured_length;
+                /* other control characters need a \u escape */
+                measured_length += (unsigned char) c < 0x20 ? 6 : 1;
                 break;
         };
     };
@@ -515,7 +516,11 @@ static size_t serialize_string (json_char * buf,
 
             default:
 
-                *buf ++ = c;
+                if ((unsigned char) c < 0x20)
+                    buf += sprintf (buf, "\\u%04x", (unsigned int) c);
+                else
+                    *buf ++ = c;
+
                 break;
         };
     };
-- 
2.43.0


From 8c76ef92c10576ebc341541a59d92954f5f483f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:20 +0000
Subject: [PATCH 66/69] fix: JSON.stringify of numbers with more than six
 digits keeps them

---
 src/optionals/json/jsonBuilderLib.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/optionals/json/jsonBuilderLib.c b/src/optionals/json/jsonBuilderLib.c
index 679062e..8c0e9fe 100644
--- a/src/optionals/json/jsonBuilderLib.c
+++ b/src/optionals/json/jsonBuilderLib.c
@@ -31,6 +31,7 @@
 #include "jsonBuilderLib.h"
 
 #include <string.h>
+#include <stdlib.h>
 #include <assert.h>
 #include <stdio.h>
 
@@ -528,6 +529,24 @@ static size_t serialize_string (json_char * buf,
     return buf - orig_buf;
 }
 
+/* The smallest number of significant digits that still reads back as the same number
+ */
+static int double_precision (double value)
+{
+    char buf [40];
+    int precision;
+
+    for (precision = 6; precision < 17; ++ precision)
+    {
+        snprintf (buf, sizeof (buf), "%.*g", precision, value);
+
+        if (strtod (buf, NULL) == value)
+            break;
+    }
+
+    return precision;
+}
+
 size_t json_measure (json_value * value)
 {
     return json_measure_ex (value, default_opts);
@@ -667,7 +686,7 @@ size_t json_measure_ex (json_value * value, json_serialize_opts opts)
 
             case json_double:
 
-                total += snprintf (NULL, 0, "%g", value->u.dbl);
+                total += snprintf (NULL, 0, "%.*g", double_precision (value->u.dbl), value->u.dbl);
 
                 /* Because sometimes we need to add ".0" if sprintf does not do it
                  * for us. Downside is that we allocate more bytes than strictly
@@ -885,7 +904,7 @@ void json_serialize_ex (json_char * buf, json_value * value, json_serialize_opts
             case json_double:
 
                 ptr = buf;
-                buf += sprintf (buf, "%g", value->u.dbl);
+                buf += sprintf (buf, "%.*g", double_precision (value->u.dbl), value->u.dbl);
 
                 json_char *dot;
 
-- 
2.43.0


From aebd1fc39dc5319f87ad176aad9d401313df29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:48 +0000
Subject: [PATCH 67/69] fix: Hashlib.hmac with an empty key used an
 uninitialised key

---
 src/optionals/hashlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optionals/hashlib.c b/src/optionals/hashlib.c
index ba8af5e..e724919 100644
--- a/src/optionals/hashlib.c
+++ b/src/optionals/hashlib.c
@@ -64,7 +64,8 @@ static Value hmac(DictuVM *vm, int argCount, Value *args) {
 
     uint8_t digest[32];
     struct tc_hmac_state_struct h;
-    (void)tc_hmac_set_key(&h, (const uint8_t *) key->chars, key->length);
+    // Keys are padded with zero bytes, so an empty key is the same as a single NUL byte
+    (void)tc_hmac_set_key(&h, (const uint8_t *) key->chars, key->length == 0 ? 1 : key->length);
     tc_hmac_init(&h);
     tc_hmac_update(&h, string->chars, string->length);
     tc_hmac_final(digest, TC_SHA256_DIGEST_SIZE, &h);
-- 
2.43.0


From a10a2865863a19e692e2582419a07962c6e4ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:37 +0000
Subject: [PATCH 68/69] fix: importing a name that only starts like the one of
 a built-in module is an error

---
 src/optionals/optionals.c | 2 +-
 src/vm/compiler.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optionals/optionals.c b/src/optionals/optionals.c
index f2fbe81..c7b0b16 100644
--- a/src/optionals/optionals.c
+++ b/src/optionals/optionals.c
@@ -42,7 +42,7 @@ Value importBuiltinModule(DictuVM *vm, int index) {
 
 int findBuiltinModule(char *name, int length, bool *dictuSource) {
     for (int i = 0; modules[i].module != NULL; ++i) {
-        if (strncmp(modules[i].name, name, length) == 0) {
+        if ((int) strlen(modules[i].name) == length && strncmp(modules[i].name, name, length) == 0) {
             *dictuSource = modules[i].dictuSource;
 
             return i;
diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index 63fc974..eb943b8 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2651,7 +2651,7 @@ static void importStatement(Compiler *compiler) {
 
         int index = findBuiltinModule(
             (char *) compiler->parser->previous.start,
-            compiler->parser->previous.length - compiler->parser->current.length,
+            compiler->parser->previous.length,
             &dictuSource
         );
 
-- 
2.43.0


From 1f6e6dfbd52ffa54e9b64194e5b9304f5dd43a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:37 +0000
Subject: [PATCH 69/69] fix: an import gets its own module also when that
 module calls functions that import

---
 src/vm/compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/compiler.c b/src/vm/compiler.c
index eb943b8..d7f2bcf 100644
--- a/src/vm/compiler.c
+++ b/src/vm/compiler.c
@@ -2991,6 +2991,10 @@ ObjFunction *compile(DictuVM *vm, ObjModule *module, const char *source) {
         } while (!match(&compiler, TOKEN_EOF));
     }
 
+    // Functions of other modules that were called may have changed the module
+    // an import statement binds, whoever imports this one has to get this one.
+    emitByte(&compiler, OP_IMPORT_END);
+
     ObjFunction *function = endCompiler(&compiler);
 
     // If we're in the repl we need the constants to live for the entirety of the execution
-- 
2.43.0

