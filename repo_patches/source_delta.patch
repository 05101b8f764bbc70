From 3e2b5a7fcaadbbee2f68032beb429bf62ad9a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 01/89] fix: lexer never loops or reads past the end of the
 source on unterminated literals

---
 src/cxy/lang/frontend/lexer.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..8b540aa 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -113,7 +113,7 @@ static char getCurChar(Lexer *lexer) { return *getCurPtr(lexer); }
 
 static char peekNextChar_(const LexerBuffer *b)
 {
-    if (b->fileSize == (1 + b->filePos.byteOffset)) {
+    if (b->fileSize <= (1 + b->filePos.byteOffset)) {
         if (b->prev) {
             return peekNextChar_(b->prev);
         }
@@ -129,6 +129,8 @@ static inline char peekNextChar(const Lexer *lexer)
 
 static void skipChar(Lexer *lexer)
 {
+    if (isEofReached(lexer))
+        return;
     if (getCurChar(lexer) == '\n') {
         lexer->buffer->filePos.row++;
         lexer->buffer->filePos.col = 1;
@@ -147,8 +149,8 @@ static inline bool isSpaceOrPunctuation(char c)
 
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
-        advanceLexer(lexer);
+    while (!isEofReached(lexer) && !isSpaceOrPunctuation(getCurChar(lexer)))
+        skipChar(lexer);
 }
 
 static bool acceptChar(Lexer *lexer, char c)
@@ -477,7 +479,7 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
                 if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
                     if (acceptChar(lexer, '\\'))
@@ -520,7 +522,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
@@ -530,9 +533,9 @@ Token advanceLexer(Lexer *lexer)
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
+            const char *end = getCurPtr(lexer);
             if (!acceptChar(lexer, '\'') ||
-                convertEscapeSeq(
-                    ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
+                convertEscapeSeq(ptr, end - ptr, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
             return token;
@@ -575,7 +578,8 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) == '0' || getCurChar(lexer) == '1')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -592,7 +596,8 @@ Token advanceLexer(Lexer *lexer)
                     while (isxdigit(getCurChar(lexer)))
                         skipChar(lexer);
 
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -608,7 +613,8 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) >= '0' && getCurChar(lexer) <= '7')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
-- 
2.43.0


From 1f2c5fab0ed0b37db0ff82d668f75a7916e85c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 02/89] fix: character and string literal escapes denote the
 bytes they were written for

---
 src/cxy/core/utils.c              | 51 +++++++++++++++++++++++--------
 src/cxy/lang/backend/c/generate.c | 27 ++++++++--------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..161d69b 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -26,9 +26,15 @@ typedef CxyPair(u32, u32) u32_u32_pair;
 
 static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 
+static inline u32 hexDigitValue(char c)
+{
+    return isdigit((u8)c) ? c - '0' : 10 + (tolower((u8)c) - 'a');
+}
+
 static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
 {
     char *next = NULL;
+    errno = 0;
     unsigned int ord = strtoul(ptr, &next, base);
     *res = ord;
     return ord <= 255 && !errno ? next - ptr : 0;
@@ -50,7 +56,12 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    if (len < 2 || len > 4 || count < len)
+        return (u32_u32_pair){0, 0};
+    for (u32 i = 1; i < len; i++) {
+        if ((s[i] & 0xC0) != 0x80)
+            return (u32_u32_pair){0, 0};
+    }
 
     switch (len) {
     case 2:
@@ -58,15 +69,11 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     case 3:
         return (u32_u32_pair){
             3, ((s[0] & 0xF) << 12) | ((s[1] & 0x3F) << 6) | (s[2] & 0x3F)};
-    case 4:
+    default:
         return (u32_u32_pair){4,
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
-    default:
-        csAssert(false, "invalid UTF-8 sequence");
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -192,14 +199,34 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             dst[j++] = '"';
             i++;
             break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
-                break;
+        case '\'':
+            dst[j++] = '\'';
+            i++;
+            break;
+        case '\\':
+            dst[j++] = '\\';
+            i++;
+            break;
+        case 'x':
+            if (i + 1 < n && isxdigit((u8)str[i + 1])) {
+                u32 chr = 0, digits = 0;
+                for (i++; digits < 2 && i < n && isxdigit((u8)str[i]);
+                     i++, digits++)
+                    chr = (chr << 4) | hexDigitValue(str[i]);
+                dst[j++] = (char)chr;
             }
+            else
+                dst[j++] = '\\';
+            break;
         default:
-            dst[j++] = '\\';
+            if (isodigit(str[i])) {
+                u32 chr = 0, digits = 0;
+                for (; digits < 3 && i < n && isodigit(str[i]); i++, digits++)
+                    chr = (chr << 3) | (u32)(str[i] - '0');
+                dst[j++] = (char)chr;
+            }
+            else
+                dst[j++] = '\\';
             break;
         }
     }
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..9cbb184 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -781,16 +781,13 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
-        format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
+    u32 chr = node->charLiteral.value;
+    if (chr == '\'')
+        format(getState(ctx), "'\\''", NULL);
+    else if (chr < 0x80)
+        format(getState(ctx), "'{cE}'", (FormatArg[]){{.c = chr}});
+    else
+        format(getState(ctx), "{u32}", (FormatArg[]){{.u32 = chr}});
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
@@ -823,10 +820,12 @@ static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+    for (; *p != '\0'; p++) {
+        // literal bytes are already unescaped, UTF-8 sequences are copied as is
+        if ((u8)*p < 0x80)
+            printUtf8(getState(ctx), *p, true);
+        else
+            append(getState(ctx), p, 1);
     }
     format(getState(ctx), "\"", NULL);
 }
-- 
2.43.0


From c8f41ae269570e6b15acc1bac57ee1ea2909ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:33 +0000
Subject: [PATCH 03/89] fix: interned strings with colliding hashes are
 compared in full

---
 src/cxy/core/strpool.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..57cf3db 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -25,14 +25,15 @@ typedef struct {
 
 static bool compareStrFind(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const SizedString *str = right;
+    cstring lhs = *(char **)left;
+    u64 len = strnlen(str->s, str->len);
+    return !strncmp(lhs, str->s, len) && lhs[len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
-- 
2.43.0


From bee97f4a448bc3562b0bdff2c1c75597ad2a3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:33 +0000
Subject: [PATCH 04/89] fix: removing from a hash table keeps every other
 element reachable

---
 src/cxy/core/htable.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..5c2e2fe 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -63,7 +63,7 @@ static inline void rehashTable(HashTable *hashTable, size_t elemSize)
     if (new_capacity <= hashTable->capacity)
         new_capacity = hashTable->capacity * 2 + 1;
     void *new_elems = mallocOrDie(new_capacity * elemSize);
-    HashCode *new_hashes = callocOrDie(new_capacity, elemSize);
+    HashCode *new_hashes = callocOrDie(new_capacity, sizeof(HashCode));
     for (size_t i = 0, n = hashTable->capacity; i < n; ++i) {
         HashCode hash = hashTable->hashes[i];
         if (!isOccupiedHash(hash))
@@ -181,8 +181,11 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
     while (isBucketOccupied(hashTable, next_index)) {
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
-        // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // Move the next element unless its home lies cyclically after the hole
+        bool keep = index < next_index
+                        ? desired_index > index && desired_index <= next_index
+                        : desired_index > index || desired_index <= next_index;
+        if (!keep) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From bd586afecaf8c2b80ee5f00a009ebf9309d1ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:15 +0000
Subject: [PATCH 05/89] fix: a put into the compiler's robin-hood map returns
 the element's final position, also after a clear

---
 src/cxy/core/hmap.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..ef3aa63 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -175,12 +175,10 @@ void hmapInitWithCapacity(Hmap *self,
 
 void hmapDestroy(Hmap *self)
 {
-    if (self->data != NULL) {
-        free(self->data);
-        free(self->sspace0);
-        free(self->sspace1);
-        self->data = NULL;
-    }
+    free(self->data);
+    free(self->sspace0);
+    free(self->sspace1);
+    self->data = self->sspace0 = self->sspace1 = NULL;
 }
 
 void hmapClear(Hmap *self)
@@ -239,9 +237,13 @@ void hmapRemove(Hmap *self, void *data)
 
 HmapStatus hmapPut(Hmap *self, void *data)
 {
+    if (self->nslots == 0)
+        hmapRehash(self, hmapIdealSize(self->nitems));
     HmapStatus status = hmapPutInternal(self, data);
     if (status.s)
         hmapResizeMore(self);
+    // the element may have been displaced or moved by the resize
+    status.f = hmapGet(self, data);
     return status;
 }
 
-- 
2.43.0


From 82133a79c4d7c5fd0b3cf87a191162c8a63b2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:31 +0000
Subject: [PATCH 06/89] fix: resizing tracked pool memory keeps room for its
 header and relinks the block

---
 src/cxy/core/mempool.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 6fe365f..083bf04 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -94,12 +94,18 @@ void *reallocTrackedMem(MemPool *pool, void *ptr, size_t size)
 {
     TrackedMemoryItem *item = ((TrackedMemoryItem *)ptr) - 1;
     pool->trackedAllocations.allocated -= item->size;
-    item = reallocOrDie(item, size);
+    item = reallocOrDie(item, size + sizeof(TrackedMemoryItem));
     item->size = size;
     pool->trackedAllocations.allocated += size;
 
     if (item->prev)
         item->prev->next = item;
+    else
+        pool->trackedAllocations.first = item;
+    if (item->next)
+        item->next->prev = item;
+    else
+        pool->trackedAllocations.last = item;
     return item + 1;
 }
 
-- 
2.43.0


From 2e3bce30a88447aef41ed2306e7251607e8c110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:38 +0000
Subject: [PATCH 07/89] fix: concatenated and anonymous names of any length do
 not overrun their buffers

---
 src/cxy/core/strpool.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 57cf3db..04d7abf 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -1,4 +1,5 @@
 #include "core/strpool.h"
+#include "core/alloc.h"
 #include "core/hash.h"
 #include "core/mempool.h"
 #include "core/utils.h"
@@ -96,10 +97,8 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
     }
-    else
-        len = strlen(prefix);
+    len = strlen(prefix);
 
     csAssert0(len < +MAX_ANONYMOUS_PREFIX_SIZE);
     memcpy(variable, prefix, len);
@@ -110,25 +109,29 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
 
 const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
 {
-    char variable[MAX_ANONYMOUS_PREFIX_SIZE + 32];
     size_t len = strlen(s1);
-    csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
+    va_list ap;
+
+    va_start(ap, s1);
+    for (const char *s; (s = va_arg(ap, const char *));)
+        len += strlen(s);
+    va_end(ap);
+
+    char *variable = mallocOrDie(len + 1);
+    len = strlen(s1);
     memcpy(variable, s1, len);
 
-    va_list ap;
     va_start(ap, s1);
-    const char *s = va_arg(ap, const char *);
-    while (s) {
+    for (const char *s; (s = va_arg(ap, const char *));) {
         size_t sz = strlen(s);
-        csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
         memcpy(&variable[len], s, sz);
-        s = va_arg(ap, const char *);
         len += sz;
     }
-    variable[len] = '\0';
     va_end(ap);
 
-    return makeString(pool, variable);
+    const char *str = makeStringSized(pool, variable, len);
+    free(variable);
+    return str;
 }
 
 cstring joinPath_(StrPool *pool, const char *p1, ...)
@@ -142,7 +145,7 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
         size_t sz = strlen(s);
         const char *next = va_arg(ap, const char *);
         if (sz > 0) {
-            csAssert0(sz + len < PATH_MAX);
+            csAssert0(sz + len + 1 < PATH_MAX);
             memcpy(&path[len], s, sz);
             len += sz;
             if (next && s[sz - 1] != '/')
-- 
2.43.0


From 8735da4656b8062e6aa53e9b34c9ad942f115b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:06 +0000
Subject: [PATCH 08/89] fix: pushing on a dynamic array returns the new
 element; deleting a string builder frees its text

---
 src/cxy/core/array.c | 3 +--
 src/cxy/core/sb.h    | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxy/core/array.c b/src/cxy/core/array.c
index 698097a..bffc334 100644
--- a/src/cxy/core/array.c
+++ b/src/cxy/core/array.c
@@ -53,8 +53,7 @@ void *pushOnDynArrayExplicit(DynArray *array, const void *elem, size_t elemSize)
     memcpy((char *)array->elems + array->elemSize * array->size,
            elem,
            array->elemSize);
-    array->size++;
-    return array->elems + array->elemSize * array->size;
+    return array->elems + array->elemSize * array->size++;
 }
 
 void copyDynArray(DynArray *dst, const DynArray *src)
diff --git a/src/cxy/core/sb.h b/src/cxy/core/sb.h
index f64c089..8034690 100644
--- a/src/cxy/core/sb.h
+++ b/src/cxy/core/sb.h
@@ -44,7 +44,7 @@ void stringBuilderDeinit(StringBuilder *sb);
 static attr(always_inline) void stringBuilderDelete(StringBuilder *sb)
 {
     if (sb) {
-        stringBuilderInit(sb);
+        stringBuilderDeinit(sb);
         free(sb);
     }
 }
-- 
2.43.0


From 76ff3649bdfba19ead6269b8e09d65e1cbb9a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 09/89] fix: parse a conditional expression on the right of an
 assignment

---
 src/cxy/lang/frontend/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..6c2c672 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -848,6 +848,7 @@ static AstNode *prefix(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
 }
 
 static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
+static AstNode *ternary(Parser *P, AstNode *(parsePrimary)(Parser *, bool));
 
 static AstNode *binary(Parser *P,
                        AstNode *lhs,
@@ -893,7 +894,7 @@ static AstNode *assign(Parser *P, AstNode *(parsePrimary)(Parser *, bool))
     const Token tok = *current(P);
     if (isAssignmentOperator(tok.tag)) {
         advance(P);
-        AstNode *rhs = assign(P, parsePrimary);
+        AstNode *rhs = ternary(P, parsePrimary);
 
         return newAstNode_(
             P,
-- 
2.43.0


From 14a47654263a72d70e71b743e15180087003ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 10/89] fix: keep nested unary minus apart in the generated C

---
 src/cxy/lang/backend/c/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 9cbb184..f0e8a4b 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -907,6 +907,13 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
         switch (node->unaryExpr.op) {
         case opMove:
             break;
+        case opMinus:
+        case opPlus:
+            // keep `- -x` from being emitted as the decrement operator `--x`
+            format(getState(ctx),
+                   "{s} ",
+                   (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
+            break;
         default:
             format(getState(ctx),
                    "{s}",
-- 
2.43.0


From bb0241b4494d29a5a81ca195d933ec82a2c461f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 11/89] fix: parenthesise an assignment in a conditional
 expression

---
 src/cxy/lang/backend/c/generate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index f0e8a4b..4e1ddda 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -896,8 +896,12 @@ static void visitTernaryExpr(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), " ", NULL);
         astConstVisit(visitor, node->ternaryExpr.body);
     }
-    format(getState(ctx), ": ", NULL);
+    // an assignment binds looser than the conditional operator in C
+    bool isAssign = nodeIs(node->ternaryExpr.otherwise, AssignExpr);
+    format(getState(ctx), isAssign ? ": (" : ": ", NULL);
     astConstVisit(visitor, node->ternaryExpr.otherwise);
+    if (isAssign)
+        format(getState(ctx), ")", NULL);
 }
 
 static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 481b51512856988840a83fe1279054971237d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 12/89] fix: run the shared body of a case with several matches

---
 src/cxy/lang/backend/c/generate.c | 7 +++++--
 src/cxy/lang/frontend/parser.c    | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 4e1ddda..d4dd8b0 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1598,7 +1598,7 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), "case ", NULL);
         if (nodeIs(node->parentScope, MatchStmt)) {
             format(getState(ctx),
-                   "{u32}: {{{>}\n",
+                   body ? "{u32}: {{{>}\n" : "{u32}:",
                    (FormatArg[]){{.u32 = node->caseStmt.idx}});
             if (node->caseStmt.variable) {
                 astConstVisit(visitor, node->caseStmt.variable);
@@ -1607,8 +1607,11 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
         }
         else {
             astConstVisit(visitor, node->caseStmt.match);
-            format(getState(ctx), ": {{{>}\n", NULL);
+            format(getState(ctx), body ? ": {{{>}\n" : ":", NULL);
         }
+        // `case a, b => body`, `a` falls through to the body of `b`
+        if (body == NULL)
+            return;
     }
     else {
         format(getState(ctx), "default: {{{>}\n", NULL);
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 6c2c672..3d3792b 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2440,6 +2440,10 @@ static AstNode *caseStatement(Parser *P)
         if (!check(P, tokCase, tokRBrace)) {
             body = statement(P, false);
         }
+        else {
+            // only a case followed by a comma shares the body of the next one
+            body = newAstNode(P, &tok, &(AstNode){.tag = astBlockStmt});
+        }
     }
 
     return newAstNode(P,
@@ -2507,6 +2511,10 @@ static AstNode *matchCaseStatement(Parser *P)
         if (!check(P, tokCase, tokRBrace)) {
             body = statement(P, false);
         }
+        else {
+            // only a case followed by a comma shares the body of the next one
+            body = newAstNode(P, &tok, &(AstNode){.tag = astBlockStmt});
+        }
     }
 
     return newAstNode(
-- 
2.43.0


From 730b7ff94f682fafae73beaba53ebd3f21d12f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 13/89] fix: emit a range match of a switch case as a C range

---
 src/cxy/lang/backend/c/generate.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index d4dd8b0..6c6207f 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1606,7 +1606,14 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
             }
         }
         else {
-            astConstVisit(visitor, node->caseStmt.match);
+            const AstNode *match = node->caseStmt.match;
+            if (nodeIs(match, RangeExpr)) {
+                astConstVisit(visitor, match->rangeExpr.start);
+                format(getState(ctx), " ... ", NULL);
+                astConstVisit(visitor, match->rangeExpr.end);
+            }
+            else
+                astConstVisit(visitor, match);
             format(getState(ctx), body ? ": {{{>}\n" : ":", NULL);
         }
         // `case a, b => body`, `a` falls through to the body of `b`
-- 
2.43.0


From a4ac0633ceeae02092648d3fee6d5c3132dd7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 14/89] fix: end a counting loop when the bound is passed, not
 only when it is hit

---
 src/cxy/lang/middle/simplify/simplify.c | 88 ++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 16 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..c8eb657 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,6 +119,77 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+static AstNode *makeForRangeCompare(SimplifyContext *ctx,
+                                    const AstNode *range,
+                                    AstNode *lhs,
+                                    Operator op,
+                                    AstNode *rhs)
+{
+    return makeBinaryExpr(ctx->pool,
+                          &range->loc,
+                          flgNone,
+                          lhs,
+                          op,
+                          rhs,
+                          NULL,
+                          getPrimitiveType(ctx->types, prtBool));
+}
+
+// x < range.end, or x > range.end when counting down
+static AstNode *makeForRangeCondition(SimplifyContext *ctx,
+                                      AstNode *range,
+                                      AstNode *var)
+{
+    AstNode *step = range->rangeExpr.step, *end = range->rangeExpr.end;
+    if (end->type != var->type)
+        end = makeCastExpr(
+            ctx->pool,
+            &end->loc,
+            flgNone,
+            end,
+            makeTypeReferenceNode(ctx->pool, var->type, &end->loc),
+            NULL,
+            var->type);
+    AstNode *x = makeResolvedIdentifier(ctx->pool,
+                                        &range->loc,
+                                        var->varDecl.names->ident.value,
+                                        0,
+                                        var,
+                                        NULL,
+                                        var->type);
+    if (range->rangeExpr.down ||
+        (nodeIs(step, IntegerLit) && step->intLiteral.isNegative) ||
+        (nodeIs(step, UnaryExpr) && step->unaryExpr.op == opMinus &&
+         isLiteralExpr(step->unaryExpr.operand)))
+        return makeForRangeCompare(ctx, range, x, opGt, end);
+    if (step == NULL || isLiteralExpr(step))
+        return makeForRangeCompare(ctx, range, x, opLt, end);
+
+    // the direction is known only at runtime
+    // step < 0 ? x > range.end : x < range.end
+    const Type *type = getPrimitiveType(ctx->types, prtBool);
+    AstNode *down = makeForRangeCompare(
+        ctx,
+        range,
+        deepCloneAstNode(ctx->pool, step),
+        opLt,
+        makeIntegerLiteral(ctx->pool, &range->loc, 0, NULL, range->type));
+    AstNode *gt = makeForRangeCompare(ctx,
+                                      range,
+                                      deepCloneAstNode(ctx->pool, x),
+                                      opGt,
+                                      deepCloneAstNode(ctx->pool, end));
+    return makeAstNode(
+        ctx->pool,
+        &range->loc,
+        &(AstNode){.tag = astTernaryExpr,
+                   .type = type,
+                   .ternaryExpr = {.cond = down,
+                                   .body = gt,
+                                   .otherwise = makeForRangeCompare(
+                                       ctx, range, x, opLt, end)}});
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -134,22 +205,7 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
         &node->loc,
         node->flags,
         // x < range.end
-        makeBinaryExpr(ctx->pool,
-                       &range->loc,
-                       flgNone,
-                       // x
-                       makeResolvedIdentifier(ctx->pool,
-                                              &range->loc,
-                                              var->varDecl.names->ident.value,
-                                              0,
-                                              var,
-                                              NULL,
-                                              var->type),
-                       opNe,
-                       // range.end
-                       range->rangeExpr.end,
-                       NULL,
-                       getPrimitiveType(ctx->types, prtBool)),
+        makeForRangeCondition(ctx, range, var),
         // ...
         body,
         NULL,
-- 
2.43.0


From c5d5c95f86cf20962b9f067457f25615d396e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 15/89] fix: type a range by its end when it starts with a
 literal; check the step of a range

---
 src/cxy/lang/middle/sema/for.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..566cb0e 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -326,6 +326,10 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     const Type *end = checkType(visitor, node->rangeExpr.end);
+    // an untyped literal start takes the type of the end, e.g. `0..300`
+    if (nodeIs(node->rangeExpr.start, IntegerLit) && isNumericType(end) &&
+        isTypeAssignableFrom(end, start))
+        start = end;
     if (!isTypeAssignableFrom(start, end)) {
         logError(ctx->L,
                  &node->rangeExpr.end->loc,
@@ -336,7 +340,7 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
         if (!isNumericType(step)) {
             logError(ctx->L,
                      &node->rangeExpr.start->loc,
-- 
2.43.0


From 25059453c1233020a9548d5ee24e2dedc2e0d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 16/89] fix: apply a cast to its whole operand in the generated
 C

---
 src/cxy/lang/backend/c/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 6c6207f..21abc43 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -987,7 +987,14 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), to);
     format(getState(ctx), ")", NULL);
+    // the cast applies to the whole operand, not just to its first part
+    bool group = nodeIs(expr, BinaryExpr) || nodeIs(expr, TernaryExpr) ||
+                 nodeIs(expr, AssignExpr);
+    if (group)
+        format(getState(ctx), "(", NULL);
     astConstVisit(visitor, expr);
+    if (group)
+        format(getState(ctx), ")", NULL);
 }
 
 static void visitGroupExpr(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From d3c9f0ffb4bda55209c09a5b05811ebdc2cef02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 17/89] fix: resolve a shorthand enum option against a constant
 value's enum

---
 src/cxy/lang/middle/sema/member.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index 8d3ff9d..ef41a2b 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -51,20 +51,21 @@ static const Type *determineMemberTargetType(TypingContext *ctx,
         return NULL;
     }
 
-    const Type *stripped = stripPointerOnce(type, NULL);
+    const Type *stripped = unwrapType(stripPointerOnce(type, NULL), NULL);
     if (!typeIs(stripped, Enum)) {
         logError(ctx->L,
                  &node->loc,
                  "shorthand member expression on type '{t}', only supported on "
                  "enum types",
                  (FormatArg[]){{.t = type}});
+        return NULL;
     }
 
     node->memberExpr.target = makeResolvedPath(ctx->pool,
                                                &node->loc,
-                                               type->name,
+                                               stripped->name,
                                                type->flags & flgConst,
-                                               type->tEnum.decl,
+                                               stripped->tEnum.decl,
                                                NULL,
                                                type);
     return type;
-- 
2.43.0


From f65f460cf94ced6f0ddda907d676414df4a74378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 18/89] fix: order a value and a range consistently when
 looking for duplicate switch cases

---
 src/cxy/lang/middle/sema/switch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..72b413c 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -70,11 +70,11 @@ static int compareLiteralNode(const void *left, const void *right)
     }
     else if (nodeIs(lhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(rhs));
-        return isIntegerInRange(lhs, getLiteralValue(rhs));
+        return -isIntegerInRange(lhs, getLiteralValue(rhs));
     }
     else if (nodeIs(rhs, RangeExpr)) {
         csAssert0(isIntegralLiteral(lhs));
-        return -isIntegerInRange(rhs, getLiteralValue(lhs));
+        return isIntegerInRange(rhs, getLiteralValue(lhs));
     }
 
     csAssert0(isLiteralExpr(lhs));
-- 
2.43.0


From a41dd8fa553871e56d93da87fb50530e877ebc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 19/89] fix: emit nested array literals as nested C
 initializers

---
 src/cxy/lang/backend/c/generate.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 21abc43..2bc2bb5 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -855,6 +855,22 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+static void generateArrayElements(ConstAstVisitor *visitor, const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    format(getState(ctx), "{{", NULL);
+    for (const AstNode *it = node->arrayExpr.elements; it; it = it->next) {
+        // C initializes an array element with a nested list, not a literal
+        if (nodeIs(it, ArrayExpr))
+            generateArrayElements(visitor, it);
+        else
+            astConstVisit(visitor, it);
+        if (it->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -864,7 +880,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    generateArrayElements(visitor, node);
 }
 
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From c5139617e96ab190aff73e5d1045aa5a768a3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:19 +0000
Subject: [PATCH 20/89] fix: apply a cast to its own type to its whole operand
 too

---
 src/cxy/lang/backend/c/generate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 2bc2bb5..5fce605 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -972,8 +972,15 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
         return;
     }
 
+    // the cast applies to the whole operand, not just to its first part
+    bool group = nodeIs(expr, BinaryExpr) || nodeIs(expr, TernaryExpr) ||
+                 nodeIs(expr, AssignExpr);
     if (to == unThisType(from)) {
+        if (group)
+            format(getState(ctx), "(", NULL);
         astConstVisit(visitor, expr);
+        if (group)
+            format(getState(ctx), ")", NULL);
         return;
     }
 
@@ -1003,9 +1010,6 @@ static void visitCastExpr(ConstAstVisitor *visitor, const AstNode *node)
     format(getState(ctx), "(", NULL);
     generateTypeName(ctx, getState(ctx), to);
     format(getState(ctx), ")", NULL);
-    // the cast applies to the whole operand, not just to its first part
-    bool group = nodeIs(expr, BinaryExpr) || nodeIs(expr, TernaryExpr) ||
-                 nodeIs(expr, AssignExpr);
     if (group)
         format(getState(ctx), "(", NULL);
     astConstVisit(visitor, expr);
-- 
2.43.0


From 071793581d7004cc2f134c63dfb2338050fc49cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 21/89] fix: compute the returned value before running deferred
 statements

---
 src/cxy/lang/middle/defer.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 56e9bd4..99e1019 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -148,6 +148,29 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         scope = scope->next;
     }
     ctx->bsc.scope->flags |= bscSealed;
+    AstNode *expr = node->returnStmt.expr;
+    if (expressions.first && expr && !isLiteralExpr(expr) &&
+        !isVoidType(expr->type) &&
+        !typeIs(unwrapType(expr->type, NULL), Array)) {
+        // compute the returned value before running the deferred statements
+        AstNode *var =
+            makeVarDecl(ctx->pool,
+                        &expr->loc,
+                        flgNone,
+                        makeAnonymousVariable(ctx->strings, "_ret"),
+                        NULL,
+                        expr,
+                        NULL,
+                        expr->type);
+        node->returnStmt.expr = makeResolvedIdentifier(ctx->pool,
+                                                       &expr->loc,
+                                                       var->_name,
+                                                       0,
+                                                       var,
+                                                       NULL,
+                                                       var->type);
+        astModifierAdd(&ctx->block, var);
+    }
     astModifierAdd(&ctx->block, expressions.first);
 }
 
-- 
2.43.0


From 4adeeb4fd664f855edaefd32b8a164667194765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 22/89] fix: let members of a struct name the struct without
 endless recursion

---
 src/cxy/lang/middle/sema/struct.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/lang/middle/sema/struct.c b/src/cxy/lang/middle/sema/struct.c
index 9ebd151..bb4fd90 100644
--- a/src/cxy/lang/middle/sema/struct.c
+++ b/src/cxy/lang/middle/sema/struct.c
@@ -452,6 +452,8 @@ void checkStructDecl(AstVisitor *visitor, AstNode *node)
             ?: makeThisType(ctx->types, node->structDecl.name, flgNone);
     const Type *this = node->structDecl.thisType;
 
+    // members can refer to the struct by its name
+    node->type = this;
     ctx->currentStruct = node;
     evaluateStructMembers(visitor, node);
     ctx->currentStruct = NULL;
-- 
2.43.0


From ba80589a59765c3b7e30bc22e0ccfefe5cb548a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 23/89] fix: inherit fields and virtual functions through more
 than one level of classes

---
 src/cxy/lang/middle/sema/check.h        |  1 +
 src/cxy/lang/middle/sema/class.c        |  7 ++-----
 src/cxy/lang/middle/sema/inheritance.c  | 23 +++++++++++++++++++----
 src/cxy/lang/middle/simplify/simplify.c | 22 ++++++++++++++++++----
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..29c56f7 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -160,6 +160,7 @@ const Type *resolveGenericDecl(AstVisitor *visitor,
                                const AstNode *generic,
                                AstNode *node);
 
+AstNode *findVirtualBase(AstNode *node);
 AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
                                      AstNode *node,
                                      AstNode *init);
diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..c1653a6 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -22,10 +22,7 @@ static void inheritClassMembers(TypingContext *ctx,
                                 AstNodeList *into,
                                 AstNode *base)
 {
-    if (base->classDecl.base) {
-        inheritClassMembers(ctx, into, resolvePath(base->classDecl.base));
-    }
-
+    // the members of a base already include those that it inherited
     AstNode *member = base->classDecl.members;
     for (; member; member = member->next) {
         if (isInheritable(member)) {
@@ -311,7 +308,7 @@ void checkClassDecl(AstVisitor *visitor, AstNode *node)
         goto checkClassInterfacesError;
 
     u8 isVirtual = hasFlag(node, Virtual);
-    if (hasFlag(base, Virtual) && !isVirtual) {
+    if (findVirtualBase(node) && !isVirtual) {
         // Add - vtable: &Base_VTable member
         vTableMember = inheritanceMakeVTableMember(ctx, node, NULL);
     }
diff --git a/src/cxy/lang/middle/sema/inheritance.c b/src/cxy/lang/middle/sema/inheritance.c
index 5443590..6c8afde 100644
--- a/src/cxy/lang/middle/sema/inheritance.c
+++ b/src/cxy/lang/middle/sema/inheritance.c
@@ -21,6 +21,18 @@ AstNode *vTableMembersFind(TypingContext *ctx,
     return NULL;
 }
 
+AstNode *findVirtualBase(AstNode *node)
+{
+    AstNode *base = node->classDecl.base;
+    while (base) {
+        base = resolvePath(base);
+        if (hasFlag(base, Virtual))
+            return base;
+        base = base->classDecl.base;
+    }
+    return NULL;
+}
+
 static AstNode *makeVTableVariable(TypingContext *ctx,
                                    AstNode *node,
                                    AstNode *vTableType,
@@ -226,7 +238,7 @@ AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
                                      AstNode *node,
                                      AstNode *init)
 {
-    AstNode *type = getVTableType(resolvePath(node->classDecl.base));
+    AstNode *type = getVTableType(findVirtualBase(node));
     const Type *type_ = makePointerType(ctx->types, type->type, flgNone);
     AstNode *member =
         makeStructField(ctx->pool,
@@ -243,14 +255,17 @@ AstNode *inheritanceMakeVTableMember(TypingContext *ctx,
 
 AstNode *inheritanceBuildVTable(TypingContext *ctx, AstNode *node)
 {
-    AstNode *base = resolvePath(node->classDecl.base);
+    AstNode *base = findVirtualBase(node);
     AstNode *def = getVTableDefault(base), *type = getVTableType(base);
 
     AstNodeList value = {NULL};
     AstNode *member = def->structExpr.fields;
     for (; member; member = member->next) {
-        AstNode *func =
-            findMemberDeclInType(node->type, member->_namedNode.name);
+        AstNode *func = NULL;
+        for (AstNode *it = node; func == NULL && it != base;
+             it = resolvePath(it->classDecl.base)) {
+            func = findMemberDeclInType(it->type, member->_namedNode.name);
+        }
         if (func != NULL) {
             // Change the function we resolve to
             insertAstNode(
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index c8eb657..736e7bb 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -65,14 +65,29 @@ static bool nodeNeedsTemporaryVar(const AstNode *node)
     return true;
 }
 
+static AstNode *findVirtualTable(AstNode *decl)
+{
+    // the closest class of the hierarchy that declares virtual functions
+    while (nodeIs(decl, ClassDecl) && !hasFlag(decl, Virtual))
+        decl = decl->classDecl.base ? resolvePath(decl->classDecl.base) : NULL;
+    return nodeIs(decl, ClassDecl) ? decl->classDecl.members : NULL;
+}
+
 static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
 {
     const Type *type = stripReference(target->type);
     if (!isClassOrStructType(type))
         return false;
-    AstNode *decl = getTypeDecl(type), *func = getTypeDecl(member->type);
+    if (nodeIs(target, ReferenceOf))
+        target = target->unaryExpr.operand;
+    if (nodeIs(target, Identifier) && target->ident.value == S_super)
+        return false;
 
-    return hasFlag(decl, Virtual) && hasFlag(func, Virtual);
+    AstNode *func = getTypeDecl(member->type),
+            *vTable = findVirtualTable(getTypeDecl(type));
+    return vTable && nodeIs(func, FuncDecl) &&
+           findMemberDeclInType(vTable->type->pointer.pointed,
+                                func->_namedNode.name);
 }
 
 static AstNode *virtualDispatch(SimplifyContext *ctx,
@@ -80,8 +95,7 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                                 AstNode *member)
 {
     // [target].vtable.[member](target, [args])
-    AstNode *decl = getTypeDecl(target->type),
-            *vTable = decl->classDecl.members,
+    AstNode *vTable = findVirtualTable(getTypeDecl(stripReference(target->type))),
             *vTableFunc = findMemberDeclInType(vTable->type->pointer.pointed,
                                                member->ident.value);
     AstNode *base = NULL;
-- 
2.43.0


From d7a05b4e30d18fa9a0ca993a9e9fd92daa9e6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 24/89] fix: apply the truthy operator to the condition of a
 conditional expression

---
 src/cxy/lang/middle/sema/check.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..58161ad 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -777,6 +777,16 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    const Type *cond_ = stripReference(unwrapType(cond, NULL));
+    if (isClassOrStructType(cond_)) {
+        if (transformToTruthyOperator(visitor, node->ternaryExpr.cond))
+            cond = node->ternaryExpr.cond->type;
+        else if (typeIs(node->ternaryExpr.cond->type, Error)) {
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+    }
+
     if (!isTruthyType(cond)) {
         logError(ctx->L,
                  &node->ternaryExpr.cond->loc,
-- 
2.43.0


From ca1bc64a1e868e0e8c4c870fb9b12d1a2d4020eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 25/89] fix: type a chain of members of an expression by its
 last member

---
 src/cxy/lang/middle/sema/member.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cxy/lang/middle/sema/member.c b/src/cxy/lang/middle/sema/member.c
index ef41a2b..4cb385f 100644
--- a/src/cxy/lang/middle/sema/member.c
+++ b/src/cxy/lang/middle/sema/member.c
@@ -76,6 +76,18 @@ void checkMemberExpr(AstVisitor *visitor, AstNode *node)
     TypingContext *ctx = getAstVisitorContext(visitor);
     AstNode *target = node->memberExpr.target,
             *member = node->memberExpr.member;
+    if (target && nodeIs(member, Path) && member->path.elements->next) {
+        // <expr>.a.b is the member `b` of the member `a` of <expr>
+        AstNode *name = member->path.elements;
+        AstNode *rest = shallowCloneAstNode(ctx->pool, member);
+        rest->path.elements = name->next;
+        name->next = NULL;
+        target = makeMemberExpr(
+            ctx->pool, &node->loc, node->flags, target, member, NULL, NULL);
+        target->parentScope = node->parentScope;
+        node->memberExpr.target = target;
+        node->memberExpr.member = member = rest;
+    }
     const Type *target_ =
         target ? checkType(visitor, target)
                : determineMemberTargetType(ctx, node->parentScope, node);
-- 
2.43.0


From 4e323032d96b52a3432c025a20851ba533fceb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 26/89] fix: initialize an array variable with a C initializer
 list instead of a compound literal

---
 src/cxy/lang/backend/c/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 5fce605..f5c6afc 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1706,6 +1706,9 @@ static void visitVariableDecl(ConstAstVisitor *visitor, const AstNode *node)
         format(getState(ctx), " = ", NULL);
         if (nullInit)
             format(getState(ctx), " {{}", NULL);
+        else if (nodeIs(node->varDecl.init, ArrayExpr))
+            // C cannot initialize an array from a compound literal
+            generateArrayElements(visitor, node->varDecl.init);
         else
             astConstVisit(visitor, node->varDecl.init);
     }
-- 
2.43.0


From 3f4af752f9d89385f5655b882452ea2241ca3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 27/89] fix: move the value of a catch expression out of its
 temporary

---
 src/cxy/lang/middle/sema/exception.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/exception.c b/src/cxy/lang/middle/sema/exception.c
index 64a2335..1f732f8 100644
--- a/src/cxy/lang/middle/sema/exception.c
+++ b/src/cxy/lang/middle/sema/exception.c
@@ -321,11 +321,13 @@ void checkCatchBinaryOperator(AstVisitor *visitor,
         if (catcher->variable != NULL) {
             node->tag = astPath;
             clearAstBody(node);
+            // the temporary is read just once, its value is moved out
+            node->flags |= flgMove;
             node->path.elements =
                 makeResolvedPathElement(ctx->pool,
                                         &node->loc,
                                         catcher->variable->_name,
-                                        flgNone,
+                                        flgMove,
                                         catcher->variable,
                                         NULL,
                                         catcher->variable->type);
-- 
2.43.0


From 5e008df0b6504fc0494e56651584635226e7cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 28/89] fix: keep reference counts right when assigning,
 deleting, choosing or returning class objects

The old value of a variable or member was dropped before the new value was
computed, a plain variable on the right of an assignment or in a branch of a
conditional was not counted, a parameter returned on one branch leaked on the
others, and 'delete' on a local emitted an invalid C call.
---
 src/cxy/lang/middle/mem/manage.c | 87 +++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 19 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..264b357 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -189,7 +189,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // a parameter always starts with a value
+    bool drop = nodeIs(var, FuncParamDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
@@ -316,6 +317,28 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
+static AstNode *makeOwnedValue(MemContext *ctx, AstNode *expr);
+
+// The value of a conditional expression is owned if both its branches are
+static void ownTernaryBranches(MemContext *ctx, AstNode *node)
+{
+    while (nodeIs(node, GroupExpr))
+        node = node->groupExpr.expr;
+    if (!nodeIs(node, TernaryExpr))
+        return;
+    node->ternaryExpr.body = makeOwnedValue(ctx, node->ternaryExpr.body);
+    node->ternaryExpr.otherwise =
+        makeOwnedValue(ctx, node->ternaryExpr.otherwise);
+}
+
+static AstNode *makeOwnedValue(MemContext *ctx, AstNode *expr)
+{
+    ownTernaryBranches(ctx, expr);
+    if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
+        return makeCopyExpr(ctx, expr);
+    return expr;
+}
+
 static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
 {
     if (dynArrayEmpty(&ctx->scopes))
@@ -413,8 +436,8 @@ static void visitVariableDecl(AstVisitor *visitor, AstNode *node)
     insertVariableTrace(ctx, node, init ? vtsAssigned : vtsUninitialized);
     pushOnDynArray(ctx->locals, &node);
     astVisit(visitor, init);
-    if (isLeftValueExpr(init) && nodeNeedsMemMgmt(init))
-        node->varDecl.init = makeCopyExpr(ctx, init);
+    if (init)
+        node->varDecl.init = makeOwnedValue(ctx, init);
 }
 
 static void visitIdentifier(AstVisitor *visitor, AstNode *node)
@@ -448,7 +471,7 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
             return;
         case opDelete:
             vt->state = vtsDropped;
-            if (nodeNeedsMemMgmt(node)) {
+            if (nodeNeedsMemMgmt(operand)) {
                 transformToDropExpr(ctx, node, operand);
             }
             return;
@@ -469,17 +492,42 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * Computes the value assigned by \a node into a temporary variable, so that the
+ * value currently held by the left-hand side can be dropped after the new value
+ * has been computed (the new value might be reachable only through the old one)
+ */
+static void evaluateBeforeDrop(MemContext *ctx, AstNode *node)
+{
+    AstNode *rhs = node->assignExpr.rhs;
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &rhs->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_as"),
+                               NULL,
+                               rhs,
+                               NULL,
+                               rhs->type);
+    astModifierAdd(&ctx->blockModifier, var);
+    node->assignExpr.rhs = makeResolvedIdentifier(
+        ctx->pool, &rhs->loc, var->_name, 0, var, NULL, rhs->type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
+    AstNode *rhs = node->assignExpr.rhs;
     AstNode *lhs = resolveIdentifier(node->assignExpr.lhs);
 
     if (isLocalVariable(lhs)) {
-        AstNode *rhs = node->assignExpr.rhs;
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
+        if (nodeNeedsMemMgmt(lhs))
+            node->assignExpr.rhs = makeOwnedValue(ctx, rhs);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            if (!nodeIs(rhs, NullLit))
+                evaluateBeforeDrop(ctx, node);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
@@ -495,18 +543,17 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 
     lhs = node->assignExpr.lhs;
     if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
+        astVisit(visitor, rhs);
+        node->assignExpr.rhs = makeOwnedValue(ctx, rhs);
+        if (!nodeIs(rhs, NullLit))
+            evaluateBeforeDrop(ctx, node);
         astModifierAdd(&ctx->blockModifier,
                        makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
-        astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
-        astVisitFallbackVisitAll(visitor, node);
+        return;
     }
 
-    AstNode *rhs = node->assignExpr.rhs;
-    if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
-        node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
-    }
+    astVisitFallbackVisitAll(visitor, node);
+    node->assignExpr.rhs = makeOwnedValue(ctx, rhs);
 }
 
 static void visitCallExpr(AstVisitor *visitor, AstNode *node)
@@ -532,6 +579,8 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
 
     for (; arg && param; arg = arg->next, param = param->next) {
         astVisit(visitor, arg);
+        if (nodeNeedsMemMgmt(param))
+            ownTernaryBranches(ctx, arg);
         if (isLeftValueExpr(arg) && nodeNeedsMemMgmt(param) &&
             !hasFlag(arg, Move))
             transformToCopyExpr(ctx, arg, deepCloneAstNode(ctx->pool, arg));
@@ -550,6 +599,7 @@ static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
                 expr = from;
         }
 
+        ownTernaryBranches(ctx, expr);
         if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
             transformToCopyExpr(ctx, expr, deepCloneAstNode(ctx->pool, expr));
     }
@@ -562,8 +612,7 @@ static void visitStructExpr(AstVisitor *visitor, AstNode *node)
     for (; field; field = field->next) {
         AstNode *value = field->fieldExpr.value;
         astVisit(visitor, value);
-        if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
-            field->fieldExpr.value = makeCopyExpr(ctx, value);
+        field->fieldExpr.value = makeOwnedValue(ctx, value);
     }
 }
 
@@ -573,6 +622,7 @@ static void visitArrayExpr(AstVisitor *visitor, AstNode *node)
     AstNode *elem = node->arrayExpr.elements;
     for (; elem; elem = elem->next) {
         astVisit(visitor, elem);
+        ownTernaryBranches(ctx, elem);
         if (isLeftValueExpr(elem) && nodeNeedsMemMgmt(elem))
             transformToCopyExpr(ctx, elem, deepCloneAstNode(ctx->pool, elem));
     }
@@ -583,8 +633,7 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
     MemContext *ctx = getAstVisitorContext(visitor);
     AstNode *value = node->unionValue.value;
     astVisit(visitor, value);
-    if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
-        node->unionValue.value = makeCopyExpr(ctx, value);
+    node->unionValue.value = makeOwnedValue(ctx, value);
 }
 
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
@@ -602,8 +651,8 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             csAssert0(vt);
             vt->state = vtsMoved;
         }
-        else if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr)) {
-            expr = makeCopyExpr(ctx, expr);
+        else {
+            expr = makeOwnedValue(ctx, expr);
         }
 
         if (!isLiteralExpr(expr)) {
-- 
2.43.0


From 4dd30b40486b6fc679c4f5083b1521851f277549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 29/89] fix: merge what the cases of a switch do to a variable
 by variable, with drop flags

---
 src/cxy/lang/middle/mem/manage.c | 59 +++++++++++++-------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 264b357..5d4f804 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -131,25 +131,29 @@ static void restoreVariableState(MemContext *ctx, DynArray *vars)
     }
 }
 
-static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
+static VariableState mergeStates(VariableState lhs, VariableState rhs)
+{
+    if (lhs == rhs)
+        return lhs;
+    if (lhs == vtsAssigned || rhs == vtsAssigned || lhs == vtsMaybeAssigned ||
+        rhs == vtsMaybeAssigned)
+        return vtsMaybeAssigned;
+    return vtsUninitialized;
+}
+
+static void mergeVariableStates(DynArray *lhs, const DynArray *rhs)
 {
-    bool allMaybeAssigned = true;
     for (u32 i = 0; i < lhs->size; i++) {
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
-        VariableState state;
-        if (varLhs->state == varRhs->state)
-            state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
-            state = vtsMaybeAssigned;
-        else
-            state = vtsUninitialized;
-
-        varLhs->state = state;
-        allMaybeAssigned = allMaybeAssigned && state == vtsMaybeAssigned;
+        for (u32 j = 0; j < rhs->size; j++) {
+            const VariableTrace *varRhs =
+                &dynArrayAt(VariableTrace *, rhs, j);
+            if (varLhs->variable == varRhs->variable) {
+                varLhs->state = mergeStates(varLhs->state, varRhs->state);
+                break;
+            }
+        }
     }
-    return allMaybeAssigned;
 }
 
 static bool nodeNeedsMemMgmt(const AstNode *node)
@@ -225,16 +229,8 @@ static void mergeUpdateVariableStates(MemContext *ctx,
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
         const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
         csAssert0(varLhs->variable == varRhs->variable);
-        VariableState state;
-        if (varLhs->state == varRhs->state)
-            state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned ||
-                 varLhs->state == vtsMaybeAssigned ||
-                 varRhs->state == vtsMaybeAssigned)
-            state = vtsMaybeAssigned;
-        else
-            state = vtsUninitialized;
-
+        const VariableState state =
+            mergeStates(varLhs->state, varRhs->state);
         VariableTrace *vt = findVariableTrace(ctx, varLhs->variable);
         csAssert0(vt);
         vt->state = state;
@@ -373,16 +369,6 @@ static void sealAndFinalizeCurrentBlock(MemContext *ctx)
     }
 }
 
-static void updateVariableStates(MemContext *ctx, const DynArray *vars)
-{
-    dynArrayFor(var, VariableTrace, vars)
-    {
-        VariableTrace *vt = findVariableTrace(ctx, var->variable);
-        csAssert0(vt);
-        vt->state = var->state;
-    }
-}
-
 static void reportUseUnassigned(MemContext *ctx,
                                 const AstNode *node,
                                 const VariableTrace *vt)
@@ -829,7 +815,8 @@ static void visitSwitch(AstVisitor *visitor, AstNode *node)
         mergeVariableStates(&lhs, &rhs);
         freeDynArray(&rhs);
     }
-    updateVariableStates(ctx, &lhs);
+    // variables that only some of the cases assign or move need drop flags
+    mergeUpdateVariableStates(ctx, &lhs, &lhs);
     freeDynArray(&lhs);
 }
 
-- 
2.43.0


From bfc98e05de8b7814ca4e0a2c3391c9592a33a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 30/89] fix: count a class object chosen by a conditional
 expression in an argument

---
 src/cxy/lang/middle/mem/manage.c        | 2 ++
 src/cxy/lang/middle/simplify/simplify.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 5d4f804..cd1d179 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -416,6 +416,8 @@ static void visitVariableDecl(AstVisitor *visitor, AstNode *node)
     AstNode *init = node->varDecl.init;
     if (!isLocalVariable(node)) {
         astVisit(visitor, init);
+        if (hasFlag(node, Move))
+            ownTernaryBranches(ctx, init);
         return;
     }
 
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 736e7bb..06e6bd2 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -814,7 +814,7 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
             AstNode *var =
                 makeVarDecl(ctx->pool,
                             &arg->loc,
-                            flgTemporary | (arg->flags & flgConst),
+                            flgTemporary | flgMove | (arg->flags & flgConst),
                             makeAnonymousVariable(ctx->strings, "_a"),
                             NULL,
                             deepCloneAstNode(ctx->pool, arg),
-- 
2.43.0


From 282ffc4085c673ff436bd8df9371fd4c73dc5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 31/89] fix: hash strings longer than 127 bytes and every byte
 of a buffer

---
 src/cxy/runtime/builtins.cxy | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..1ebc3b3 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -275,7 +275,7 @@ pub func hash_fnv1a_ptr(h: HashCode, ptr: ^const void) =>
 
 pub func hash_fnv1a_string(h: HashCode, str: string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -285,7 +285,7 @@ pub func hash_fnv1a_string(h: HashCode, str: string)
 
 pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -295,7 +295,7 @@ pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 
 pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -306,7 +306,7 @@ pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 
 pub func hash_fnv1a_string_igc(h: HashCode, str: const string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
-- 
2.43.0


From 98499cc4eb693c6a41511a76b7fe6ed95414569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 32/89] fix: encode characters above U+FFFF correctly

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 1ebc3b3..e24c753 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -606,7 +606,7 @@ pub class OutputStream {
             size = 3
         }
         else if (ch < 0x200000) {
-            data.[0] = <char> (0xF0 | (ch >> 16))
+            data.[0] = <char> (0xF0 | (ch >> 18))
             data.[1] = <char> (0x80 | ((ch >> 12) & 0x3f))
             data.[2] = <char> (0x80 | ((ch >> 6) & 0x3f))
             data.[3] = <char> (0x80 | (ch & 0x3f))
-- 
2.43.0


From f3752e9d40ccf7f279fb5142d22ffa54a23e9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 33/89] fix: print unsigned 64 bit integers as unsigned

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index e24c753..0b4cb11 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -643,6 +643,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (#U == #u64)
+            appendUnSignedInt(<u64>val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 30469d1b3b2b956b501e6b79df2c81225a20c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 34/89] fix: find the last occurrence of a character at the
 start of a string

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 0b4cb11..8c8138d 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -494,11 +494,11 @@ pub struct __string {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (s.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -879,11 +879,11 @@ pub class String : OutputStream {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (_data.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
-- 
2.43.0


From 0988b145c0f095a6fbe13e1c97f62e638a2f6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 35/89] fix: keep a string terminated when trimming it on the
 left; resize within its capacity

---
 src/cxy/runtime/builtins.cxy | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 8c8138d..fe54d72 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -813,7 +813,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
@@ -846,6 +846,7 @@ pub class String : OutputStream {
             var p = ptroff!(this._data + i);
             memmove(_data, p, _size - i)
             _size = _size - i
+            _data.[_size] = '\0'`char
         }
     }
 
-- 
2.43.0


From 10aa7128f812d8df146634fee4df22d5d164ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:56 +0000
Subject: [PATCH 36/89] fix: keep the order of the data written to a buffered
 stream when a chunk exactly fills the buffer

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index fe54d72..1e0dc93 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1016,7 +1016,7 @@ pub class BufferedOutputStream: OutputStream {
 
     func append(data: ^const void, size: u64): Optional[u64] {
         var room = _capacity - _size
-        if (size > room && _size > 0) {
+        if (size >= room && _size > 0) {
             sync()
             room = _capacity
         }
-- 
2.43.0


From 010aa101f574a37496e0a308996688fb8de11c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:56 +0000
Subject: [PATCH 37/89] fix: print to the standard output

---
 src/cxy/runtime/builtins.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 1e0dc93..c8ead98 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1232,10 +1232,10 @@ pub var SysConfNumProcs = sysconf(SC_NPROCESSORS_ONLN!);
 pub func print[T](data: &const T) {
     require!(T.isString, "type '{t}' is not a string, `print` only supports string types", #T)
     #if (T.isClass) {
-        write(0, data.data(), data.size())
+        write(1, data.data(), data.size())
     }
     else {
-        write(0, data, strlen(data))
+        write(1, data, strlen(data))
     }
 }
 
-- 
2.43.0


From 31c4eb522c06d16067104a3f0499feaffa5804f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:56 +0000
Subject: [PATCH 38/89] fix: iterate with the range operator of a class that
 has a base class

---
 src/cxy/lang/middle/sema/for.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 566cb0e..94307d7 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -15,7 +15,7 @@ static const Type *findCustomRange(TypingContext *ctx,
     type = stripReference(type);
     const Type *rangeOp = findMemberInType(type, S_Range);
     if (rangeOp) {
-        rangeOp = matchOverloadedFunction(
+        return matchOverloadedFunction(
             ctx->L, rangeOp, (const Type *[]){}, 0, loc, flags & flgConst);
     }
     type = getTypeBase(type);
@@ -23,7 +23,7 @@ static const Type *findCustomRange(TypingContext *ctx,
         return findCustomRange(ctx, type, loc, flags);
     }
 
-    return rangeOp;
+    return NULL;
 }
 
 static const Type *findIteratorType(TypingContext *ctx, AstNode *range)
-- 
2.43.0


From dba9a4faf8ed482f99e881231d24162ce5e0cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:13 +0000
Subject: [PATCH 39/89] fix: terminate an empty string that has room reserved

---
 src/cxy/runtime/builtins.cxy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c8ead98..e5114d1 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -767,6 +767,7 @@ pub class String : OutputStream {
         if (this._data == null) {
             this._data = <^char> malloc(newSize + 1)
             this._capacity = newSize
+            this._data.[0] = '\0'`char
         }
         else if (this._capacity < newSize) {
             while (this._capacity < newSize) {
-- 
2.43.0


From a03ab19d5bf6e29ca997b25b23730eda67c64d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 40/89] fix: give 64-bit integer literals a 64-bit type in the
 generated C

---
 src/cxy/lang/backend/c/generate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index f5c6afc..bf046de 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -793,18 +793,22 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    const Type *type = unwrapType(resolveType(node->type), NULL);
     if (node->intLiteral.isNegative)
         format(getState(ctx),
                "{i64}",
                (FormatArg[]){{.i64 = node->intLiteral.value}});
-    else if (isUnsignedType(node->type))
-        format(getState(ctx),
-               "{u64}u",
-               (FormatArg[]){{.u64 = node->intLiteral.uValue}});
     else
         format(getState(ctx),
                "{u64}",
                (FormatArg[]){{.u64 = node->intLiteral.uValue}});
+
+    if (!node->intLiteral.isNegative && isUnsignedType(type))
+        format(getState(ctx), "u", NULL);
+    // without a suffix C computes with a 64-bit literal in 32 bits
+    if (typeIs(type, Primitive) &&
+        (type->primitive.id == prtI64 || type->primitive.id == prtU64))
+        format(getState(ctx), "ll", NULL);
 }
 
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From fe1e508de65fe3ced3ce87a4935d9331acaedd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 41/89] fix: find an overloaded operator of a const class
 object

---
 src/cxy/lang/middle/sema/binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..ebdb275 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -55,7 +55,7 @@ static bool checkClassBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     cstring name = getOpOverloadName(node->binaryExpr.op);
     const Type *target = stripPointerOrReference(node->binaryExpr.lhs->type);
     const NamedTypeMember *overload =
-        findOverloadMemberUpInheritanceChain(target, name);
+        findOverloadMemberUpInheritanceChain(stripAll(target), name);
 
     const Type *rhs = checkType(visitor, node->binaryExpr.rhs);
     if (typeIs(rhs, Error)) {
-- 
2.43.0


From 4f2e34f256788fac646e8fc2bf6cf17198eebe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 42/89] fix: grow a vector that has room for less than two
 elements

---
 src/cxy/stdlib/vector.cxy | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 43f8daf..3697103 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -17,7 +17,8 @@ pub class Vector[T] {
 
     - func grow() {
         if (_size >= _capacity) {
-            _capacity += (_capacity / 2)
+            // a capacity below 2 has no half to grow by
+            _capacity += (_capacity / 2) + (_capacity < 2 ? 1 : 0)
             _data = <^T> realloc(_data !: ^void, elemSize() * _capacity)
            #if (T.isDestructible) {
                memset(ptroff!(_data + _size), 0, elemSize() * (_capacity - _size))
-- 
2.43.0


From e846fa50ed9a850c1cf56c68376dce22e51d834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 43/89] fix: leave no stale references behind the elements of a
 vector

---
 src/cxy/stdlib/vector.cxy | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxy/stdlib/vector.cxy b/src/cxy/stdlib/vector.cxy
index 3697103..f88a6e1 100644
--- a/src/cxy/stdlib/vector.cxy
+++ b/src/cxy/stdlib/vector.cxy
@@ -60,6 +60,10 @@ pub class Vector[T] {
         var tmp = _data;
         _size--
         memmove(tmp, ptroff!(tmp + 1), elemSize() * _size)
+        #if (T.isDestructible) {
+            // the last element has moved down, its old place holds nothing
+            memset(ptroff!(tmp + _size), 0, elemSize())
+        }
         return item
     }
 
@@ -71,6 +75,10 @@ pub class Vector[T] {
             _size = newSize
         }
         _data = <^T> realloc(_data !: ^void, elemSize() * newSize)
+        #if (T.isDestructible) {
+            if (newSize > _size)
+                memset(ptroff!(_data + _size), 0, elemSize() * (newSize - _size))
+        }
        _capacity = newSize;
     }
 
-- 
2.43.0


From 98028d795dfdd92bb3495dead0d0cfdf84bc3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 44/89] fix: find hash map entries whose probe run wraps around
 the end of the table

---
 src/cxy/stdlib/hash.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..f001255 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -50,10 +50,10 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
     }
 
     - const func probe(i: u64, h: u64) {
-        var v = i - (h - 1)
-        if (v < 0)
-            v = _capacity + v
-        return v
+        // slots past the end continue at the start, the difference is unsigned
+        if (i < h - 1)
+            return _capacity + i - (h - 1)
+        return i - (h - 1)
     }
 
     @[inline, static]
-- 
2.43.0


From e3afd220fc27daf7eca5966c638b270115e2f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 45/89] fix: iterate over hash maps with more than 127 slots

---
 src/cxy/stdlib/hash.cxy | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f001255..854ac6f 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -196,7 +196,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             return
 
         var i = Hasher{}(&key) % _capacity
-        var j = 0
+        var j = 0`u64
         while {
             const h =  _data.[i].hash
             if (h == 0 || j > probe(i, h))
@@ -276,7 +276,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         func `[]=`(key: K, value: V) => insert(&&key, &&value)
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -290,7 +290,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -304,7 +304,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(key: K, value: V) -> void) {
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key, _data.[i].value)
@@ -314,7 +314,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(key: &const K, value: &const V) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
@@ -331,7 +331,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -345,7 +345,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -359,7 +359,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(item: K) -> void) {
-            var i = 0;
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key)
@@ -369,7 +369,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(item: &const K) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
-- 
2.43.0


From e125c9e192e36bdbcaf0101272d1572a0d269f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 46/89] fix: end HashMap.map

---
 src/cxy/stdlib/hash.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 854ac6f..d9a4ce7 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -318,6 +318,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -373,6 +374,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
-- 
2.43.0


From 4e3a651094f0d979e43eedadbdedef546f58a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 47/89] fix: decode the last group of base64 text within its
 bounds

---
 src/cxy/stdlib/base64.cxy | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cxy/stdlib/base64.cxy b/src/cxy/stdlib/base64.cxy
index 99b2bf5..1beb418 100644
--- a/src/cxy/stdlib/base64.cxy
+++ b/src/cxy/stdlib/base64.cxy
@@ -106,22 +106,24 @@ pub func decodeBuffer(os: &OutputStream, data: ^const void, size: u64): !void {
 
     const it = ptroff!(p + i);
     i = 0;
-    while (i < 4 && (p.[i] != <u8>'=') && ASCII_LOOKUP.[it.[i]] != 64)
+    while (i < sz && ASCII_LOOKUP.[it.[i]] != 64)
         i++
 
-    if ((sz - i) != 0 && (it.[i] != <u8>'=')) {
+    // padding may only complete a last group of at least two characters
+    if (sz != 0 && (sz != 4 || i < 2 ||
+        (i < 3 && it.[2] != <u8>'=') || (i < 4 && it.[3] != <u8>'=')))
+    {
         // invalid base64 character
         raise Base64Error("base64::decode - invalid base64 encoded string passed");
     }
 
-    sz -= 4-i;
-    if (sz > 1) {
+    if (i > 1) {
         os << <char>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4)
     }
-    if (sz > 2) {
+    if (i > 2) {
         os << <char>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2)
     }
-    if (sz > 3) {
+    if (i > 3) {
         os << <char>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]);
     }
 }
-- 
2.43.0


From 2ad11913c6c4acc847fc593183bf5103acd9543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 48/89] fix: url encode groups of three bytes

---
 src/cxy/stdlib/base64.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/base64.cxy b/src/cxy/stdlib/base64.cxy
index 1beb418..869ab82 100644
--- a/src/cxy/stdlib/base64.cxy
+++ b/src/cxy/stdlib/base64.cxy
@@ -152,12 +152,12 @@ const b64tableU = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz012345678
 pub func urlEncodeBuffer(os: &OutputStream, buf: ^const void, size: u64) {
     var i = 0`u64;
     var p = buf !: ^const u8;
-    while (i < (<i64>size)-2) {
+    while (i + 2 < size) {
         os << <char>(b64tableU.[(p.[i] >> 2) & 0x3F] )
         os << <char>(b64tableU.[((p.[i] & 0x3) << 4) | (p.[i + 1] & 0xF0) >> 4] )
         os << <char>(b64tableU.[((p.[i + 1] & 0xF) << 2) | (p.[i + 2] & 0xC0) >> 6] )
         os << <char>(b64tableU.[p.[i + 2] & 0x3F] )
-        i +=2
+        i += 3
     }
 
     if (i < size) {
-- 
2.43.0


From 8a05cb07b1fa4058e7461a9ae78d1dc267a7a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 49/89] fix: size of a url safe base64 encoding

---
 src/cxy/stdlib/base64.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/base64.cxy b/src/cxy/stdlib/base64.cxy
index 869ab82..247057f 100644
--- a/src/cxy/stdlib/base64.cxy
+++ b/src/cxy/stdlib/base64.cxy
@@ -172,10 +172,10 @@ pub func urlEncodeBuffer(os: &OutputStream, buf: ^const void, size: u64) {
 }
 
 pub func urlEncodeSize(size: u64) {
-    var i = size - (size % 2)
+    var i = size - (size % 3)
     var len = 0`u64
     if (i > 0) {
-        len = i*2
+        len = (i / 3) * 4
     }
     if (i < size) {
         len++
-- 
2.43.0


From 0a262d334807358a4d3f8f84dfca978b6782a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:57 +0000
Subject: [PATCH 50/89] fix: decode the characters of the url safe base64
 alphabet

---
 src/cxy/stdlib/base64.cxy | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/cxy/stdlib/base64.cxy b/src/cxy/stdlib/base64.cxy
index 247057f..fe2bcc4 100644
--- a/src/cxy/stdlib/base64.cxy
+++ b/src/cxy/stdlib/base64.cxy
@@ -187,36 +187,44 @@ pub func urlEncodeSize(size: u64) {
     return len
 }
 
+func urlLookup(c: u8) : u8 {
+    if (c == <u8>'-')
+        return 62
+    if (c == <u8>'_')
+        return 63
+    return ASCII_LOOKUP.[c]
+}
+
 pub func urlDecodeBuffer(os: &OutputStream, buf: ^const void, size: u64): !void {
     var p = buf !: const ^u8
     var i = 0`u64
     var sz = size
     while (sz > 4) {
         var it = ptroff!(p + i)
-        if (ASCII_LOOKUP.[it.[0]] == 64 ||
-            ASCII_LOOKUP.[it.[1]] == 64 ||
-            ASCII_LOOKUP.[it.[2]] == 64 ||
-            ASCII_LOOKUP.[it.[3]] == 64)
+        if (urlLookup(it.[0]) == 64 ||
+            urlLookup(it.[1]) == 64 ||
+            urlLookup(it.[2]) == 64 ||
+            urlLookup(it.[3]) == 64)
         {
             raise Base64Error("Base64::urlDecode - invalid base64 encoded string passed");
         }
 
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2))
-        os << <char>(<u8>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]))
+        os << <char>(<u8>(urlLookup(it.[0]) << 2 | urlLookup(it.[1]) >> 4))
+        os << <char>(<u8>(urlLookup(it.[1]) << 4 | urlLookup(it.[2]) >> 2))
+        os << <char>(<u8>(urlLookup(it.[2]) << 6 | urlLookup(it.[3])))
         sz -= 4;
         i += 4
     }
 
     var it = ptroff!(p + i)
     if (sz > 1) {
-       os << <char>(ASCII_LOOKUP.[it.[0]] << 2 | ASCII_LOOKUP.[it.[1]] >> 4)
+       os << <char>(urlLookup(it.[0]) << 2 | urlLookup(it.[1]) >> 4)
     }
     if (sz > 2) {
-       os << <char>(ASCII_LOOKUP.[it.[1]] << 4 | ASCII_LOOKUP.[it.[2]] >> 2)
+       os << <char>(urlLookup(it.[1]) << 4 | urlLookup(it.[2]) >> 2)
     }
     if (sz > 3) {
-       os << <char>(ASCII_LOOKUP.[it.[2]] << 6 | ASCII_LOOKUP.[it.[3]]);
+       os << <char>(urlLookup(it.[2]) << 6 | urlLookup(it.[3]));
     }
 }
 
-- 
2.43.0


From 03953967916974262d7984cd135fddc6f0f789d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 51/89] fix: print a char as its byte

---
 src/cxy/runtime/builtins.cxy | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index e5114d1..2d881d5 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -651,7 +651,12 @@ pub class OutputStream {
             appendFloat(val)
         else #if (U.isBoolean)
             appendBool(val)
-        else #if (#U == #wchar || #U == #char)
+        else #if (#U == #char) {
+             // a byte of a text, possibly part of a longer character
+             var byte = <char>val;
+             append((ptrof byte) !: ^const void, 1)
+        }
+        else #if (#U == #wchar)
              appendChar(val)
          else #if(#U == __string)
             appendString(val.s)
-- 
2.43.0


From d36d5af6c112a316908a9daae1fc91fcc2bf7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:31 +0000
Subject: [PATCH 52/89] fix: initialise modules in the order of their imports
 at any optimisation level

---
 src/cxy/lang/backend/c/generate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index bf046de..7a37e36 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -21,6 +21,7 @@ typedef struct CBackend {
     cstring filename;
     FILE *output;
     bool testMode;
+    u32 initializers;
 } CBackend;
 
 typedef struct CodegenContext {
@@ -1773,7 +1774,10 @@ static void visitFuncDecl(ConstAstVisitor *visitor, const AstNode *node)
         return;
     if (!hasFlag(node, Extern)) {
         if (hasFlag(node, Constructor))
-            format(getState(ctx), "__attribute__((constructor))\n", NULL);
+            // initializers without a priority run in an unspecified order
+            format(getState(ctx),
+                   "__attribute__((constructor({u32})))\n",
+                   (FormatArg[]){{.u32 = 101 + ctx->backend->initializers++}});
         if (findAttribute(node, S_inline))
             format(getState(ctx), "__attribute__((always_inline))", NULL);
         else if (findAttribute(node, S_noinline))
@@ -2066,6 +2070,7 @@ void *initCompilerBackend(CompilerDriver *driver, int argc, char **argv)
     backend->output = f;
     backend->filename = filename;
     backend->testMode = options->cmd == cmdTest;
+    backend->initializers = 0;
 
     appendCode(f, "#define nullptr ((void *)0)\n");
     appendCode(f, "#define true  1\n");
-- 
2.43.0


From 9e9ff62c4f8013b9810b5513c01a412e4d0e65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:31 +0000
Subject: [PATCH 53/89] fix: terminate path views before passing them to the
 system

---
 src/cxy/stdlib/path.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/path.cxy b/src/cxy/stdlib/path.cxy
index fcade12..c2b8b33 100644
--- a/src/cxy/stdlib/path.cxy
+++ b/src/cxy/stdlib/path.cxy
@@ -188,7 +188,7 @@ pub func current() => Path( file! )
 
 @inline
 func withNullTermination[T](s: &const __string, fn: func(p: ^const char) -> T ) {
-    if (s.isnt()) {
+    if (!s.isnt()) {
         var p: [char, 1024] = [];
         s.copyto(p, sizeof!(p))
         return fn(p !: ^const char)
-- 
2.43.0


From 078fc7cbb5178f43e72edc34fa4c47124b538ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:31 +0000
Subject: [PATCH 54/89] fix: do not follow links when removing

---
 src/cxy/stdlib/path.cxy | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/path.cxy b/src/cxy/stdlib/path.cxy
index c2b8b33..9048fc3 100644
--- a/src/cxy/stdlib/path.cxy
+++ b/src/cxy/stdlib/path.cxy
@@ -259,7 +259,7 @@ pub func islink(path: PathLike) {
 
     return withNullTermination[bool](&spath, (p: ^const char) => {
         var s = Stat{};
-        if (stat(p !: string, ptrof s) != 0)
+        if (lstat(p !: string, ptrof s) != 0)
             return false
 
         return (s.st_mode & S_IFMT!) == S_IFLNK!
@@ -361,7 +361,8 @@ pub func isDirEmpty(path: PathLike): !bool {
 
 pub func remove(path: PathLike, recursive: bool = false): !void {
     var spath = cast[__string](&path);
-    if (isdir(spath)) {
+    const isLink = islink(spath);
+    if (isdir(spath) && !isLink) {
         if (!isDirEmpty(spath)) {
             if (!recursive)
                 raise IOError(f"attempt to delete a non empty directory ${spath}")
@@ -376,7 +377,7 @@ pub func remove(path: PathLike, recursive: bool = false): !void {
         if (status != 0)
             raise IOError(f"deleting directory '${spath}' failed: ${strerr()}")
     }
-    else if (exists(path)) {
+    else if (isLink || exists(path)) {
         var status = withNullTermination[i32](&spath, (p: ^const char) => unistd.unlink(p))
         if (status != 0)
             raise IOError(f"deleting file '${spath}' failed: ${strerr()}")
-- 
2.43.0


From 9ed2a17005c29953ce2f9bf4f3d5f1ff01f9460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 55/89] fix: clear the holder of a mutex that nobody waits for

---
 src/cxy/stdlib/coro.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 6ed2f5b..635b11e 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -377,11 +377,11 @@ pub struct Mutex {
     }
 
     func unlock() {
-        var next = waiting.pop()
+        var next = waiting.pop();
+        holder = next
         if (next == null) {
             return
         }
-        holder = next
         coroResume!(next, 0)
     }
 }
-- 
2.43.0


From 7687ba9d4aa22a87583ecdf04dc1480c86ce5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 56/89] fix: keep the stack of a finished coroutine when the
 cache is full

---
 src/cxy/stdlib/coro.cxy | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 635b11e..86ae3e7 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -164,11 +164,9 @@ class CoroutineScheduler {
             var stack = stacks.pop();
             vmem.munmap(stack !: ^void, stackSize)
         }
-        else {
-            // cache the stack
-            var base = (ptr !: ^u8) + (-stackSize);
-            stacks.push(base !: ^CachedStack);
-        }
+        // cache the stack (it cannot be unmapped yet, it is still in use)
+        var base = (ptr !: ^u8) + (-stackSize);
+        stacks.push(base !: ^CachedStack);
     }
 
     @inline
-- 
2.43.0


From da1f4d0e2bf5da2c9d61df78302f8d043ad1afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 57/89] fix: do not use the locals of a function that started a
 coroutine after it

---
 src/cxy/lang/middle/builtins.h | 1 +
 src/cxy/stdlib/coro.cxy        | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/builtins.h b/src/cxy/lang/middle/builtins.h
index 2d35f55..7de7ca1 100644
--- a/src/cxy/lang/middle/builtins.h
+++ b/src/cxy/lang/middle/builtins.h
@@ -13,6 +13,7 @@ extern "C" {
 // clang-format off
 #define OVERRIDABLE_BUILTINS(f)    \
     f(__scheduler)                 \
+    f(__coro_epilogue)             \
     f(__thread_launch)             \
     f(timestamp)                   \
     f(fdWaitRead)                  \
diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 86ae3e7..4645018 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -321,6 +321,9 @@ func __get_scheduler() {
     return &__cxy_coro_scheduler
 }
 
+@[noinline, __override_builtin("__coro_epilogue")]
+func __finish(): void { __scheduler().epilogue() }
+
 macro coroSuspend() __scheduler().suspend()
 macro coroResume(CO, RES) __scheduler().resume(CO!, RES!)
 macro coroYield() __scheduler().yld()
@@ -335,7 +338,9 @@ macro __async(CALL, NAME) {
         var cr = sched.prologue(NAME!, file!, line!);
         __cxy_coro_setsp!(cr !: ^void)
         CALL!
-        sched.epilogue()
+        // the function that started the coroutine may have returned by now,
+        // none of its locals or temporaries can be used
+        __coro_epilogue()
     }
 }
 
-- 
2.43.0


From b7fa9a8a4c1d11f711e8ccdf324522b891b0365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 58/89] fix: remove the timer of a file event only while it is
 set

---
 src/cxy/stdlib/native/evloop/ae.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index ab3d047..b03c5f9 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -717,6 +717,12 @@ static void aeFileEventTimeout(aeEventLoop *eventLoop, int fd, aeFileEvent *fe)
         fe->wfileProc(eventLoop, fd, fe->clientData, AE_TIMEOUT);
 }
 
+static void aeInitFileEvent(aeFileEvent *fe)
+{
+    fe->mask = AE_NONE;
+    fe->timer.when_sec = fe->timer.when_ms = 0;
+}
+
 aeEventLoop *aeCreateEventLoop(void *context, int setsize)
 {
     aeEventLoop *eventLoop;
@@ -742,7 +748,7 @@ aeEventLoop *aeCreateEventLoop(void *context, int setsize)
     /* Events with mask == AE_NONE are not set. So let's initialize the
      * vector with it. */
     for (i = 0; i < setsize; i++)
-        eventLoop->events[i].mask = AE_NONE;
+        aeInitFileEvent(&eventLoop->events[i]);
     return eventLoop;
 
 err:
@@ -784,7 +790,7 @@ int aeResizeSetSize(aeEventLoop *eventLoop, int setsize)
     /* Make sure that if we created new slots, they are initialized with
      * an AE_NONE mask. */
     for (i = eventLoop->maxfd + 1; i < setsize; i++)
-        eventLoop->events[i].mask = AE_NONE;
+        aeInitFileEvent(&eventLoop->events[i]);
     return AE_OK;
 }
 
@@ -1137,8 +1143,10 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
             int invert = fe->mask & AE_BARRIER;
 
             aeTimeEvent *te = (aeTimeEvent *)fe;
-            if (te->when_sec > 0 || te->when_ms > 0)
+            if (te->when_sec > 0 || te->when_ms > 0) {
                 aeRemoveTimerEvent(eventLoop, te);
+                te->when_sec = te->when_ms = 0;
+            }
 
             /* Note the "fe->mask & mask & ..." code: maybe an already
              * processed event removed an element that fired and we still
-- 
2.43.0


From 22588c708ec0aa449d30bf28ee8a9343193eddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 59/89] fix: wake readers when the peer hangs up and report
 only what was asked

---
 src/cxy/stdlib/native/evloop/ae.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index b03c5f9..3bc1c8f 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -449,9 +449,9 @@ static int aeApiPoll(aeEventLoop *eventLoop, struct timeval *tvp)
             if (e->events & EPOLLOUT)
                 mask |= AE_WRITABLE;
             if (e->events & EPOLLERR)
-                mask |= AE_WRITABLE;
+                mask |= AE_READABLE | AE_WRITABLE;
             if (e->events & EPOLLHUP)
-                mask |= AE_WRITABLE;
+                mask |= AE_READABLE | AE_WRITABLE;
             eventLoop->fired[j].fd = e->data.fd;
             eventLoop->fired[j].mask = mask;
         }
@@ -1125,7 +1125,7 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
 
         for (j = 0; j < numevents; j++) {
             aeFileEvent *fe = &eventLoop->events[eventLoop->fired[j].fd];
-            int mask = eventLoop->fired[j].mask;
+            int mask = eventLoop->fired[j].mask & fe->mask;
             int fd = eventLoop->fired[j].fd;
             int fired = 0; /* Number of events fired for current fd. */
 
-- 
2.43.0


From 8b959ae9ce5f31da9aff9cb00680ddcd14267777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 60/89] fix: wake the coroutine waiting for a descriptor once

---
 src/cxy/stdlib/coro.cxy | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 4645018..05bbce3 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -179,10 +179,12 @@ class CoroutineScheduler {
     }
 
     @[static]
-    func eventLoopCallback(loop: ^ae.aeEventLoop, @unused fd: i32, arg: ^void, mask: i32) {
+    func eventLoopCallback(loop: ^ae.aeEventLoop, fd: i32, arg: ^void, mask: i32) {
         // resume the coroutine waiting for the event
         var scheduler = &(loop.context !: This);
         var cr = arg !: ^Coroutine;
+        // the descriptor stays ready until the coroutine runs, do not wake it again
+        ae.aeDeleteFileEvent(loop, fd, ae.State.AE_READABLE | ae.State.AE_WRITABLE)
         // printf("    fev(%p, %s:%p)\n", scheduler.running, cr.name, cr)
         scheduler.resume(cr, mask)
     }
@@ -268,9 +270,7 @@ class CoroutineScheduler {
         );
         if (status == ae.Status.AE_OK) {
             // suspend the current coroutine
-            var result = suspend();
-            ae.aeDeleteFileEvent(eventLoop, fd, ae.State.AE_WRITABLE)
-            return result
+            return suspend()
         }
         return status
     }
@@ -286,9 +286,7 @@ class CoroutineScheduler {
         );
         if (status == .AE_OK) {
             // suspend the current coroutine
-            var result = suspend();
-            ae.aeDeleteFileEvent(eventLoop, fd, ae.State.AE_READABLE)
-            return result
+            return suspend()
         }
         return status
     }
-- 
2.43.0


From 33fabc7e732aeee34369141d96a31dfa0d3bd8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 61/89] fix: reject negative descriptors in the event loop

---
 src/cxy/stdlib/native/evloop/ae.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index 3bc1c8f..0bf9035 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -811,7 +811,7 @@ enum Status aeCreateFileEvent(aeEventLoop *eventLoop,
                               void *clientData,
                               uint64_t timeout)
 {
-    if (fd >= eventLoop->setsize) {
+    if (fd < 0 || fd >= eventLoop->setsize) {
         errno = ERANGE;
         return AE_ERR;
     }
-- 
2.43.0


From cefde9b51de514b0e97afaf2781f2f6ad0001d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 62/89] fix: prefer a base class over ^void when choosing an
 overload

---
 src/cxy/lang/middle/sema/function.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index 10ced8b..e838dc4 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -111,7 +111,8 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
             if (!perfectMatch) {
                 compatible = isTypeAssignableFrom(paramType, argType);
                 if (compatible) {
-                    score--;
+                    // anything can be passed to `^void`, it is the last choice
+                    score -= isVoidPointer(paramType) ? 2 : 1;
                     continue;
                 }
                 compatible = isExplicitConstructableFrom(L, paramType, argType);
-- 
2.43.0


From 00fb3f84ac323e8047c35a419ccab6cae6032072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 63/89] fix: end reading a file that is shorter than it was

---
 src/cxy/stdlib/os.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index b2a03ea..4537040 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -388,6 +388,8 @@ pub class FileInputStream: InputStream {
             var tmp = read(p, st.st_size - nRead)
             if (!tmp)
                 raise IOError(f"error reading file ${fd}: ${strerr()}")
+            if (*tmp == 0)
+                break // the file is shorter than it was
             nRead += *tmp
         }
         s.resize(nRead)
-- 
2.43.0


From 08a839282bf7023f372d905b8eea817d88220bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 64/89] fix: report errors of reading a stream to its end

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 4537040..aac4ee9 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -400,7 +400,7 @@ pub class FileInputStream: InputStream {
         var buf: [char, 4092] = []
         while {
             var tmp = read(buf, 4092)
-            if (*tmp < 0)
+            if (!tmp)
                 raise IOError(f"reading command output failed: ${strerr()}")
             if (*tmp == 0)
                 return;
-- 
2.43.0


From 38d3675138088fc3938d59bfe55fa36e5efd47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 65/89] fix: wait for writability when a write would block

---
 src/cxy/stdlib/os.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index aac4ee9..9034395 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -263,9 +263,9 @@ pub func copy[Src, Dest](dst: &const Dest, src: &const Src): !void {
             var numWritten = sendfile.sendfile(dstFd.fd, srcFd.fd, ptrof copied, size-copied);
             if (numWritten == -1 || numWritten == 0) {
                 if (errno! == EAGAIN! || errno! == EWOULDBLOCK!) {
-                    const ret = fdWaitRead(srcFd.fd)
-                    if (ret != State.AE_READABLE)
-                        raise IOError(f"Waiting for file ${srcFd.fd} to be readable failed: ${strerr()}")
+                    const ret = fdWaitWrite(dstFd.fd)
+                    if (ret != State.AE_WRITABLE)
+                        raise IOError(f"Waiting for file ${dstFd.fd} to be writable failed: ${strerr()}")
                     continue
                 }
                 raise IOError(f"copy file ${srcFd.fd}->${dstFd.fd} failed: ${strerr()}")
@@ -474,7 +474,7 @@ pub class FileOutputStream : OutputStream {
             var tmp = append(p, size - numWritten)
             if (!tmp) {
                 if (errno! == EAGAIN!) {
-                    const ret = fdWaitRead(fd, timeout)
+                    const ret = fdWaitWrite(fd, timeout)
                     if (ret != State.AE_WRITABLE)
                         raise IOError(f"Waiting for file ${fd} to be writable failed: ${strerr()}")
                     continue
-- 
2.43.0


From b9c90ee2f12a1149005d47844a5a47fc562be138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 66/89] fix: do not skip data when a file is copied in parts

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 9034395..bac56dd 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -270,7 +270,7 @@ pub func copy[Src, Dest](dst: &const Dest, src: &const Src): !void {
                 }
                 raise IOError(f"copy file ${srcFd.fd}->${dstFd.fd} failed: ${strerr()}")
             }
-            copied += numWritten;
+            // sendfile has advanced `copied`
         }
     }
     else {
-- 
2.43.0


From 7d76e973a3e145ef3836d9853d05c3c84e937523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:03 +0000
Subject: [PATCH 67/89] fix: close the descriptor of a file once and of a
 temporary file

---
 src/cxy/stdlib/os.cxy | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index bac56dd..38b37fd 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -135,12 +135,12 @@ pub struct FileDescriptor {
     func close() {
         if (fd != -1)
             unistd.close(fd)
+        fd = -1
     }
 
     func `deinit`() {
         if (closeAfter) {
             close()
-            fd = -1
             closeAfter = false
         }
     }
@@ -191,8 +191,10 @@ pub struct TempFile {
         if (path != null) {
             unistd.unlink(path.str() !: ^const char)
             path = null
-            fd = -1;
         }
+        if (fd != -1)
+            unistd.close(fd)
+        fd = -1
     }
 
     @inline
-- 
2.43.0


From b69dc044e759f7f9157a6ae4bad2901cfbd4eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 68/89] fix: call the selected overload of a method of an
 expression

---
 src/cxy/lang/middle/sema/call.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxy/lang/middle/sema/call.c b/src/cxy/lang/middle/sema/call.c
index 8205d47..ec90867 100644
--- a/src/cxy/lang/middle/sema/call.c
+++ b/src/cxy/lang/middle/sema/call.c
@@ -46,6 +46,9 @@ static void reAssignCalleeType(AstNode *node, const Type *type)
                 !nodeIs(resolved, FieldDecl))
                 member->ident.resolvesTo = type->func.decl;
         }
+        else if (nodeIs(member, Path)) {
+            reAssignCalleeType(member, type);
+        }
     }
     else if (nodeIs(node, Identifier)) {
         AstNode *resolved = node->ident.resolvesTo;
-- 
2.43.0


From 9b100c950e28ceff7eb54fd000dbd8d174772ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 69/89] fix: recognise processes ended by a signal

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 38b37fd..0536b79 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -115,7 +115,7 @@ else #if (!defined MACOS) {
 }
 
 macro _W_INT(x)      *(<^i32>(ptrof x!))
-macro _WSTATUS(x)    =(_W_INT!(x!) & 0177)
+macro _WSTATUS(x)    =(_W_INT!(x!) & 0x7f)
 macro WIFEXITED(x)   =(_WSTATUS!(x!) == 0)
 macro WEXITSTATUS(x) =((_W_INT!(x!) >> 8) & 0x000000ff)
 
-- 
2.43.0


From 17ddeb299fa9afbc6f1038ed78ef0f4d49ea8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 70/89] fix: return the input stream of a process

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 0536b79..b5b635a 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -537,7 +537,7 @@ pub struct Process {
             _stdin = FileOutputStream(_fdin)
             _fdin = -1
         }
-        return &_fdin
+        return &_stdin
     }
 
     func `deinit`() {
-- 
2.43.0


From 217ec0bf2751aee8a3f5a684fb8f23997d323f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 71/89] fix: connect the input of a process to the end of the
 pipe it reads

---
 src/cxy/stdlib/os.cxy | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index b5b635a..095661f 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -632,23 +632,22 @@ pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process
 
     if (pid == 0) {
         // Child process
-        unistd.dup2(input.[1], STDIN_FILENO!)
+        unistd.dup2(input.[0], STDIN_FILENO!)
         unistd.dup2(out.[1], STDOUT_FILENO!)
         unistd.dup2(err.[1], STDERR_FILENO!)
-        unistd.close(input.[0])
+        unistd.close(input.[1])
         unistd.close(out.[0])
         unistd.close(err.[0])
         for (const x, _: env)
             stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
-        var ret = unistd.execvp(cmd !: ^const char, argv.data !: ^^const char)
-        raise IOError(f"starting ${cmd} failed: ${strerr()}")
-        stdlib.exit(ret)
+        unistd.execvp(cmd !: ^const char, argv.data !: ^^const char)
+        unistd._exit(127)
     }
     else if (pid > 0) {
-        unistd.close(input.[1])
+        unistd.close(input.[0])
         unistd.close(out.[1])
         unistd.close(err.[1])
-        return Process(pid, input.[0], out.[0], err.[0])
+        return Process(pid, input.[1], out.[0], err.[0])
     }
     raise IOError(f"forking process failed: ${strerr()}")
 }
-- 
2.43.0


From e44c87ed1f3dc61970525c35ab4287e7d8422d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 72/89] fix: end a child that cannot execute its command

---
 src/cxy/stdlib/os.cxy | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 095661f..43f1a7e 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -796,9 +796,8 @@ pub func execute[T](
                 stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
         }
 
-        var ret = unistd.execvp("sh" !: ^const char, argv !: ^^const char)
-        raise IOError(f"starting ${cmd} failed: ${strerr()}")
-        stdlib.exit(ret)
+        unistd.execvp("sh" !: ^const char, argv !: ^^const char)
+        unistd._exit(127)
     }
     else if (pid > 0) {
         return Process(pid).wait()
-- 
2.43.0


From 7066ad0bfe14a2212f1775c75640230fdadf3d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 73/89] fix: close the pipes of a process that cannot be
 created

---
 src/cxy/stdlib/os.cxy | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 43f1a7e..66267cc 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -608,6 +608,11 @@ pub struct Process {
     }
 }
 
+func closePipe(fds: [i32, 2]) {
+    unistd.close(fds.[0])
+    unistd.close(fds.[1])
+}
+
 pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process {
     var input:[i32, 2] = []
     var out:[i32, 2] = []
@@ -621,14 +626,26 @@ pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process
 
     if (unistd.pipe(input) != 0)
         raise IOError(f"opening process input stream failed: ${strerr()}")
-    if (unistd.pipe(out) != 0)
-        raise IOError(f"opening process output stream failed: ${strerr()}")
-    if (unistd.pipe(err) != 0)
-        raise IOError(f"opening process error stream failed: ${strerr()}")
+    if (unistd.pipe(out) != 0) {
+        const msg = strerr();
+        closePipe(input)
+        raise IOError(f"opening process output stream failed: ${msg}")
+    }
+    if (unistd.pipe(err) != 0) {
+        const msg = strerr();
+        closePipe(input)
+        closePipe(out)
+        raise IOError(f"opening process error stream failed: ${msg}")
+    }
 
     var pid = unistd.fork();
-    if (pid == -1)
-        raise IOError(f"creating a process failed: ${strerr()}")
+    if (pid == -1) {
+        const msg = strerr();
+        closePipe(input)
+        closePipe(out)
+        closePipe(err)
+        raise IOError(f"creating a process failed: ${msg}")
+    }
 
     if (pid == 0) {
         // Child process
-- 
2.43.0


From 3a269649079229e45dbf4a64de241cc2cd2ea123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 74/89] fix: drop what a loop leaves behind exactly once when
 it is left early

---
 src/cxy/lang/middle/mem/manage.c | 70 +++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index cd1d179..4d235f6 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -17,6 +17,9 @@ typedef struct {
     AstNode *lastDropScope;
     bool used;
     bool destroyed;
+    // Merged states with which the current loop is left (or continued) early
+    VariableState jumpState;
+    bool jumped;
 } VariableTrace;
 
 typedef struct {
@@ -245,6 +248,9 @@ static AstNode *makeDropVariable(MemContext *ctx,
                                  bool updateInChildLoop)
 {
     AstNode *var = vt->variable;
+    // Within a loop, what the variable holds depends on previous iterations
+    if (vt->state != vtsAssigned && vt->dropFlags == NULL)
+        insertedDropFlags(ctx, vt);
     AstNode *drop = makeBackendCallExpr(
         ctx->pool,
         &var->loc,
@@ -335,7 +341,9 @@ static AstNode *makeOwnedValue(MemContext *ctx, AstNode *expr)
     return expr;
 }
 
-static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
+static void sealCurrentJumpPoint(MemContext *ctx,
+                                 bool isReturn,
+                                 const AstNode *returned)
 {
     if (dynArrayEmpty(&ctx->scopes))
         return;
@@ -345,7 +353,8 @@ static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
         {
             VariableTrace *vt = findVariableTrace(ctx, var[0]);
             csAssert0(vt);
-            if (vtNeedsMemMgmt(ctx, vt)) {
+            // ownership of a variable that is returned goes to the caller
+            if (vt->variable != returned && vtNeedsMemMgmt(ctx, vt)) {
                 astModifierAdd(&ctx->blockModifier,
                                makeDropVariable(ctx, vt, false));
             }
@@ -627,7 +636,7 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    AstNode *expr = node->returnStmt.expr;
+    AstNode *expr = node->returnStmt.expr, *returned = NULL;
 
     if (expr) {
         ctx->returnStmt = true;
@@ -638,6 +647,7 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
             VariableTrace *vt = findVariableTrace(ctx, var);
             csAssert0(vt);
             vt->state = vtsMoved;
+            returned = var;
         }
         else {
             expr = makeOwnedValue(ctx, expr);
@@ -672,19 +682,63 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         ctx->returnStmt = false;
     }
 
-    sealCurrentJumpPoint(ctx, true);
+    sealCurrentJumpPoint(ctx, true, returned);
+}
+
+/**
+ * Control leaves (or starts over) the current loop from this point, with
+ * variables in their current state
+ */
+static void recordJumpStates(MemContext *ctx)
+{
+    HmapIterator it = hmapIterator(&ctx->variables);
+    VariableTrace *vt = NULL;
+    while ((vt = hmapNext(&it))) {
+        vt->jumpState = vt->jumped ? mergeStates(vt->jumpState, vt->state)
+                                   : vt->state;
+        vt->jumped = true;
+    }
+}
+
+static void enterLoopJumpStates(MemContext *ctx)
+{
+    HmapIterator it = hmapIterator(&ctx->variables);
+    VariableTrace *vt = NULL;
+    while ((vt = hmapNext(&it)))
+        vt->jumped = false;
+}
+
+/**
+ * Merges the states with which the loop was left early, and restores those
+ * of the enclosing loop
+ */
+static void mergeJumpStates(MemContext *ctx, const DynArray *outer)
+{
+    for (u32 i = 0; i < outer->size; i++) {
+        const VariableTrace *saved = &dynArrayAt(VariableTrace *, outer, i);
+        VariableTrace *vt = findVariableTrace(ctx, saved->variable);
+        csAssert0(vt);
+        if (vt->jumped)
+            vt->state = mergeStates(vt->state, vt->jumpState);
+        vt->jumped = saved->jumped;
+        vt->jumpState = saved->jumpState;
+        if (vtNeedsDropFlags(vt))
+            insertedDropFlags(ctx, vt);
+    }
 }
 
 static void visitBreakStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    recordJumpStates(ctx);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitContinueStmt(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
-    sealCurrentJumpPoint(ctx, false);
+    recordJumpStates(ctx);
+    sealCurrentJumpPoint(ctx, false, NULL);
 }
 
 static void visitBlockStmt(AstVisitor *visitor, AstNode *node)
@@ -796,11 +850,15 @@ static void visitWhileStmt(AstVisitor *visitor, AstNode *node)
 
     DynArray lhs = captureVariableState(ctx);
     DynArray rhs = captureVariableState(ctx);
+    DynArray outer = captureVariableState(ctx);
+    enterLoopJumpStates(ctx);
     ctx->inLoop = true;
     astVisit(visitor, node->whileStmt.body);
     restoreVariableState(ctx, &lhs);
     restoreVariableState(ctx, &rhs);
     mergeUpdateVariableStates(ctx, &lhs, &rhs);
+    mergeJumpStates(ctx, &outer);
+    freeDynArray(&outer);
     freeDynArray(&lhs);
     freeDynArray(&rhs);
 }
-- 
2.43.0


From 525185daa6f9a5d66a9a3652c636cdbbe3f098be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 75/89] fix: keep tokens of an included source apart from those
 of its includer

---
 src/cxy/lang/frontend/lexer.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 8b540aa..63fea4d 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -113,12 +113,8 @@ static char getCurChar(Lexer *lexer) { return *getCurPtr(lexer); }
 
 static char peekNextChar_(const LexerBuffer *b)
 {
-    if (b->fileSize <= (1 + b->filePos.byteOffset)) {
-        if (b->prev) {
-            return peekNextChar_(b->prev);
-        }
+    if (b->fileSize <= (1 + b->filePos.byteOffset))
         return EOF;
-    }
     return b->fileData[b->filePos.byteOffset + 1];
 }
 
@@ -138,8 +134,6 @@ static void skipChar(Lexer *lexer)
     else
         lexer->buffer->filePos.col++;
     lexer->buffer->filePos.byteOffset++;
-    if (isEofReached(lexer) && lexer->buffer->prev)
-        popBuffer(lexer);
 }
 
 static inline bool isSpaceOrPunctuation(char c)
@@ -297,12 +291,12 @@ Token advanceLexer(Lexer *lexer)
         }
 
         skipSpaces(lexer);
-        begin = lexer->buffer->filePos;
-
+        // An included source ends between tokens, never within one
         while (isEofReached(lexer) && lexer->buffer->prev) {
             popBuffer(lexer);
             skipSpaces(lexer);
         }
+        begin = lexer->buffer->filePos;
         if (isEofReached(lexer))
             return makeToken(lexer, &begin, tokEoF);
         buffer = lexer->buffer;
-- 
2.43.0


From a2e5c7f2ec23ecf8a24b488b113042ffdcf14de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 76/89] fix: prefer the overload of an argument's own type also
 for constant arguments

---
 src/cxy/lang/middle/sema/function.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/sema/function.c b/src/cxy/lang/middle/sema/function.c
index e838dc4..fb59ef4 100644
--- a/src/cxy/lang/middle/sema/function.c
+++ b/src/cxy/lang/middle/sema/function.c
@@ -78,7 +78,7 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
     AstNode *decls = callee->func.decl->list.first ?: callee->func.decl,
             *decl = decls;
     const Type *found = NULL;
-    u64 maxScore = argsCount * 2, matchScore = 0, declarations = 0;
+    u64 maxScore = argsCount * 4, matchScore = 0, declarations = 0;
 
     for (; decl; decl = decl->list.link) {
         const Type *type = decl->type;
@@ -111,13 +111,18 @@ const Type *matchOverloadedFunctionPerfectMatch(Log *L,
             if (!perfectMatch) {
                 compatible = isTypeAssignableFrom(paramType, argType);
                 if (compatible) {
+                    // whether a value is constant hardly matters to its copy,
                     // anything can be passed to `^void`, it is the last choice
-                    score -= isVoidPointer(paramType) ? 2 : 1;
+                    if (unwrapType(paramType, NULL) ==
+                        unwrapType(argType, NULL))
+                        score -= 1;
+                    else
+                        score -= isVoidPointer(paramType) ? 4 : 2;
                     continue;
                 }
                 compatible = isExplicitConstructableFrom(L, paramType, argType);
                 if (compatible) {
-                    score--;
+                    score -= 2;
                     continue;
                 }
                 break;
-- 
2.43.0


From fb8a31737aa1416288a60e96ef04a711c0f20bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 77/89] fix: parenthesise operands that come from a macro in
 the generated C

---
 src/cxy/lang/backend/c/generate.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 7a37e36..8cbd56e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -888,14 +888,34 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
     generateArrayElements(visitor, node);
 }
 
+/**
+ * Generates an operand that binds at least as tight as \a precedence, within
+ * parentheses if it otherwise wouldn't (e.g. operands coming from a macro)
+ */
+static void generateOperand(ConstAstVisitor *visitor,
+                            const AstNode *operand,
+                            int precedence)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    bool group = nodeIs(operand, TernaryExpr) || nodeIs(operand, AssignExpr) ||
+                 (nodeIs(operand, BinaryExpr) &&
+                  getBinaryOpPrecedence(operand->binaryExpr.op) > precedence);
+    if (group)
+        format(getState(ctx), "(", NULL);
+    astConstVisit(visitor, operand);
+    if (group)
+        format(getState(ctx), ")", NULL);
+}
+
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->binaryExpr.lhs);
+    int precedence = getBinaryOpPrecedence(node->binaryExpr.op);
+    generateOperand(visitor, node->binaryExpr.lhs, precedence);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getBinaryOpString(node->assignExpr.op)}});
-    astConstVisit(visitor, node->binaryExpr.rhs);
+    generateOperand(visitor, node->binaryExpr.rhs, precedence - 1);
 }
 
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -944,10 +964,10 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         }
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor, node->unaryExpr.operand, 0);
     }
     else {
-        astConstVisit(visitor, node->unaryExpr.operand);
+        generateOperand(visitor, node->unaryExpr.operand, 0);
         format(getState(ctx),
                "{s}",
                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
-- 
2.43.0


From ad0fabfd2d7a37ae9c708f73c8e3b068830c3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 78/89] fix: emit the smallest 64-bit integer as a signed C
 constant

---
 src/cxy/lang/backend/c/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 8cbd56e..0a1e383 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -795,6 +795,12 @@ static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     const Type *type = unwrapType(resolveType(node->type), NULL);
+    if (node->intLiteral.isNegative && node->intLiteral.value == INT64_MIN) {
+        // in C 9223372036854775808 is not a signed literal to be negated
+        format(getState(ctx), "(-9223372036854775807ll - 1)", NULL);
+        return;
+    }
+
     if (node->intLiteral.isNegative)
         format(getState(ctx),
                "{i64}",
-- 
2.43.0


From a2ba380ed931ceeab38b172c3873761c40bfdedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 79/89] fix: type an integer literal beyond the signed range as
 u64

---
 src/cxy/lang/middle/sema/check.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 58161ad..1ab455b 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -746,8 +746,11 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
         node->type = getPrimitiveType(ctx->types, prtChar);
         break;
     case astIntegerLit:
-        node->type =
-            getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
+        if (!node->intLiteral.isNegative && node->intLiteral.uValue > INT64_MAX)
+            node->type = getPrimitiveType(ctx->types, prtU64);
+        else
+            node->type =
+                getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
         break;
     case astFloatLit:
         node->type = getPrimitiveType(ctx->types, prtF64);
-- 
2.43.0


From 9eede54428639d145f64a035458d09a04cf7a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 80/89] fix: give the cast of a literal its sign and see
 through parentheses

---
 src/cxy/lang/middle/sema/cast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..cf2dfee 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -10,10 +10,8 @@
 static void castIntegerLiteral(const Type *to, AstNode *expr)
 {
 #define CAST_INTEGER(TYP)                                                      \
-    if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
-    else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+    expr->intLiteral.value = (i64)(TYP)expr->intLiteral.uValue;                \
+    expr->intLiteral.isNegative = (TYP)-1 < 0 && expr->intLiteral.value < 0;
 
     switch (to->primitive.id) {
     case prtU8:
@@ -50,6 +48,8 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
 {
     if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
         AstNode *expr = node->castExpr.expr;
+        while (nodeIs(expr, GroupExpr))
+            expr = expr->groupExpr.expr;
         expr->type = node->type;
         if (isIntegerType(node->type)) {
             if (nodeIs(expr, FloatLit)) {
-- 
2.43.0


From d25e6ccb9d7920de30fde367bf25b5203a336e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 81/89] fix: evaluate a parenthesised literal at compile time

---
 src/cxy/lang/middle/eval/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..63d5f2d 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -102,7 +102,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
-- 
2.43.0


From 88bd69d1400b86714eae9c477bdaa6f94aa18957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 82/89] fix: compute constant expressions with exact integers

---
 src/cxy/lang/frontend/ast.h               |  13 +-
 src/cxy/lang/middle/eval/binary.c         |  57 +++---
 src/cxy/lang/middle/eval/literal.c        | 228 +++++++++++++++++-----
 src/cxy/lang/middle/eval/unary.c          |  35 +---
 src/cxy/lang/middle/preprocess/evaluate.c |  88 +++------
 5 files changed, 238 insertions(+), 183 deletions(-)

diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..55282fe 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1510,10 +1510,15 @@ bool isStaticMemberFunction(const AstNode *node);
 f64 nodeGetNumericLiteral(const AstNode *node);
 i64 getEnumLiteralValue(const AstNode *node);
 
-void nodeSetNumericLiteral(AstNode *node,
-                           AstNode *lhs,
-                           AstNode *rhs,
-                           f64 value);
+// Replaces `node` with the value of `lhs op rhs`, returns an error message when
+// the operation has no value
+cstring nodeEvalNumericLiterals(AstNode *node,
+                                Operator op,
+                                const AstNode *lhs,
+                                const AstNode *rhs);
+
+// Replaces `node` with the value of `op operand`, for +, - and ~
+void nodeEvalNumericLiteral(AstNode *node, Operator op, const AstNode *operand);
 
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..cf8ab3e 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -57,7 +57,7 @@ void evalStringConcatenation(EvalContext *ctx,
                              AstNode *lhs,
                              AstNode *rhs)
 {
-    StringBuilder sb;
+    StringBuilder sb = {};
     stringBuilderInit(&sb);
     evalStringBuilderAppend(ctx, &sb, lhs);
     csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
@@ -90,6 +90,19 @@ bool verifyBinaryExprOperand(EvalContext *ctx, AstNode *node)
     return true;
 }
 
+static void evalNumericOperation(EvalContext *ctx,
+                                 AstNode *node,
+                                 AstNode *lhs,
+                                 AstNode *rhs)
+{
+    cstring error =
+        nodeEvalNumericLiterals(node, node->binaryExpr.op, lhs, rhs);
+    if (error != NULL) {
+        logError(ctx->L, &node->loc, error, NULL);
+        node->tag = astError;
+    }
+}
+
 static void evalAddOperation(EvalContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -120,8 +133,7 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalSubOperation(EvalContext *ctx, AstNode *node)
@@ -145,8 +157,7 @@ static void evalSubOperation(EvalContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalMulOperation(EvalContext *ctx, AstNode *node)
@@ -177,8 +188,7 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
@@ -209,16 +219,7 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
-    }
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalModOperation(EvalContext *ctx, AstNode *node)
@@ -244,11 +245,7 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -302,11 +299,7 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -412,10 +405,7 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
         if (!checkComparisonOperation(ctx, node))                              \
             return;                                                            \
                                                                                \
-        memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
-        node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 static void evalIsOperation(EvalContext *ctx, AstNode *node)
@@ -456,10 +446,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
             return;                                                            \
         }                                                                      \
                                                                                \
-        memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
-        node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..ca0467e 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -44,66 +44,192 @@ i64 getEnumLiteralValue(const AstNode *node)
     return option->value;
 }
 
-void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
+// Wide enough for every value of a literal, signed or unsigned
+typedef __int128 LiteralInt;
+
+static LiteralInt getIntegerLiteral(const AstNode *node)
 {
-    switch (lhs->tag) {
+    switch (node->tag) {
+    case astNullLit:
+        return 0;
     case astBoolLit:
-        if (nodeIs(rhs, BoolLit)) {
-            node->tag = astBoolLit;
-            node->boolLiteral.value = value == 0;
-        }
-        else if (nodeIs(rhs, CharLit) || nodeIs(rhs, IntegerLit)) {
-            node->tag = astIntegerLit;
-            node->intLiteral.isNegative = value < 0;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
-        else {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
-        break;
+        return node->boolLiteral.value;
     case astCharLit:
-        if (nodeIs(rhs, BoolLit) || nodeIs(rhs, CharLit)) {
-            node->tag = astCharLit;
-            node->charLiteral.value = (wchar)value;
-        }
-        else if (nodeIs(rhs, IntegerLit)) {
-            node->tag = astIntegerLit;
-            node->intLiteral.isNegative = value < 0;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
-        else {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
-        break;
+        return node->charLiteral.value;
     case astIntegerLit:
-        if (nodeIs(rhs, FloatLit)) {
-            node->tag = astFloatLit;
-            node->floatLiteral.value = value;
-        }
-        else {
-            node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
-            if (node->intLiteral.isNegative)
-                node->intLiteral.value = (i64)value;
-            else
-                node->intLiteral.uValue = (u64)value;
-        }
+        return node->intLiteral.isNegative
+                   ? (LiteralInt)node->intLiteral.value
+                   : (LiteralInt)node->intLiteral.uValue;
+    default:
+        unreachable("NOT AN INTEGRAL LITERAL");
+    }
+}
+
+static void setIntegerLiteral(AstNode *node, LiteralInt value)
+{
+    node->tag = astIntegerLit;
+    if (value < 0) {
+        node->intLiteral.value = (i64)value;
+        node->intLiteral.isNegative = node->intLiteral.value < 0;
+    }
+    else {
+        node->intLiteral.uValue = (u64)value;
+        node->intLiteral.isNegative = false;
+    }
+}
+
+static void setBooleanLiteral(AstNode *node, bool value)
+{
+    node->tag = astBoolLit;
+    node->boolLiteral.value = value;
+}
+
+static cstring evalFloatLiterals(AstNode *node, Operator op, f64 lhs, f64 rhs)
+{
+    f64 value = 0;
+    switch (op) {
+    case opAdd:
+        value = lhs + rhs;
         break;
-    case astFloatLit:
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
+    case opSub:
+        value = lhs - rhs;
+        break;
+    case opMul:
+        value = lhs * rhs;
+        break;
+    case opDiv:
+        value = lhs / rhs;
         break;
+    case opEq:
+        setBooleanLiteral(node, lhs == rhs);
+        return NULL;
+    case opNe:
+        setBooleanLiteral(node, lhs != rhs);
+        return NULL;
+    case opLt:
+        setBooleanLiteral(node, lhs < rhs);
+        return NULL;
+    case opGt:
+        setBooleanLiteral(node, lhs > rhs);
+        return NULL;
+    case opLeq:
+        setBooleanLiteral(node, lhs <= rhs);
+        return NULL;
+    case opGeq:
+        setBooleanLiteral(node, lhs >= rhs);
+        return NULL;
+    default:
+        return "unsupported comp-time operation between float operands";
+    }
+
+    node->tag = astFloatLit;
+    node->floatLiteral.value = value;
+    return NULL;
+}
+
+cstring nodeEvalNumericLiterals(AstNode *node,
+                                Operator op,
+                                const AstNode *lhs,
+                                const AstNode *rhs)
+{
+    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit))
+        return evalFloatLiterals(node,
+                                 op,
+                                 nodeGetNumericLiteral(lhs),
+                                 nodeGetNumericLiteral(rhs));
+
+    // the operands share their memory with the result
+    AstTag lTag = lhs->tag, rTag = rhs->tag;
+    LiteralInt left = getIntegerLiteral(lhs), right = getIntegerLiteral(rhs),
+               value = 0;
+    switch (op) {
+    case opAdd:
+        value = left + right;
+        break;
+    case opSub:
+        value = left - right;
+        break;
+    case opMul:
+        value = (LiteralInt)((unsigned __int128)left * (unsigned __int128)right);
+        break;
+    case opDiv:
+    case opMod:
+        if (right == 0)
+            return "comp-time division by zero";
+        value = op == opDiv ? left / right : left % right;
+        break;
+    case opShl:
+    case opShr:
+        if (right < 0 || right > 63)
+            return "comp-time shift by a negative or too large amount";
+        value = op == opShl ? (LiteralInt)((unsigned __int128)left << right)
+                            : left >> right;
+        break;
+    case opBAnd:
+        value = left & right;
+        break;
+    case opBOr:
+        value = left | right;
+        break;
+    case opBXor:
+        value = left ^ right;
+        break;
+    case opEq:
+        setBooleanLiteral(node, left == right);
+        return NULL;
+    case opNe:
+        setBooleanLiteral(node, left != right);
+        return NULL;
+    case opLt:
+        setBooleanLiteral(node, left < right);
+        return NULL;
+    case opGt:
+        setBooleanLiteral(node, left > right);
+        return NULL;
+    case opLeq:
+        setBooleanLiteral(node, left <= right);
+        return NULL;
+    case opGeq:
+        setBooleanLiteral(node, left >= right);
+        return NULL;
     default:
         unreachable("NOT SUPPORTED");
     }
+
+    if (lTag == astBoolLit && rTag == astBoolLit) {
+        setBooleanLiteral(node, value != 0);
+    }
+    else if (lTag == astCharLit && (rTag == astCharLit || rTag == astBoolLit)) {
+        node->tag = astCharLit;
+        node->charLiteral.value = (wchar)value;
+    }
+    else {
+        setIntegerLiteral(node, value);
+    }
+    return NULL;
+}
+
+void nodeEvalNumericLiteral(AstNode *node, Operator op, const AstNode *operand)
+{
+    if (nodeIs(operand, FloatLit)) {
+        f64 value = operand->floatLiteral.value;
+        node->tag = astFloatLit;
+        node->floatLiteral.value = op == opMinus ? -value : value;
+        return;
+    }
+
+    LiteralInt value = getIntegerLiteral(operand);
+    switch (op) {
+    case opMinus:
+        setIntegerLiteral(node, -value);
+        break;
+    case opCompl:
+        setIntegerLiteral(node, ~value);
+        break;
+    default:
+        setIntegerLiteral(node, value);
+        break;
+    }
 }
 
 bool evalBooleanCast(EvalContext *ctx, AstNode *node)
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..9dc3d28 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,19 +43,7 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeEvalNumericLiteral(node, opMinus, rhs);
 }
 
 static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
@@ -64,19 +52,7 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeEvalNumericLiteral(node, opPlus, rhs);
 }
 
 static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
@@ -91,7 +67,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +78,7 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeEvalNumericLiteral(node, opCompl, rhs);
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -133,7 +108,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..dc0d741 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -8,6 +8,19 @@
 #include "lang/frontend/flag.h"
 #include "lang/frontend/strings.h"
 
+static void evalNumericOperation(PreprocessorContext *ctx,
+                                 AstNode *node,
+                                 AstNode *lhs,
+                                 AstNode *rhs)
+{
+    cstring error =
+        nodeEvalNumericLiterals(node, node->binaryExpr.op, lhs, rhs);
+    if (error != NULL) {
+        logError(ctx->L, &node->loc, error, NULL);
+        node->tag = astError;
+    }
+}
+
 static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -22,8 +35,7 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
@@ -38,8 +50,7 @@ static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
@@ -60,8 +71,7 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
@@ -83,16 +93,7 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    if (nodeIs(lhs, FloatLit) || nodeIs(rhs, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value =
-            nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
-    }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
-    }
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
@@ -108,11 +109,7 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    evalNumericOperation(ctx, node, lhs, rhs);
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -157,11 +154,7 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
@@ -205,10 +198,7 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
                                                                                \
-        memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
-        node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
@@ -221,10 +211,7 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
     static void eval##Name##Operation(PreprocessorContext *ctx, AstNode *node) \
     {                                                                          \
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
-        memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
-        node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        evalNumericOperation(ctx, node, lhs, rhs);                             \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
@@ -268,37 +255,13 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeEvalNumericLiteral(node, opMinus, rhs);
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
-        node->tag = astFloatLit;
-        node->floatLiteral.value = value;
-    }
-    else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
-    }
+    nodeEvalNumericLiteral(node, opPlus, rhs);
 }
 
 static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
@@ -310,12 +273,11 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeEvalNumericLiteral(node, opCompl, rhs);
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 6161366f1a9697cd691921d4833a0d8521d22cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:40 +0000
Subject: [PATCH 83/89] fix: append a negative integer to a string at compile
 time

---
 src/cxy/lang/middle/eval/binary.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index cf8ab3e..acdfb62 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
-- 
2.43.0


From 2835d5665ca6f28a0950cf436ab2f3a98f34b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:40 +0000
Subject: [PATCH 84/89] fix: iterate and index arrays and ranges at compile
 time

A range from a negative number produced unsigned values, its step was
rejected (and a downward one not followed), elements of an array took the
ones after them along and indexing an array always failed.
---
 src/cxy/lang/middle/eval/eval.c  |  7 +++++--
 src/cxy/lang/middle/eval/for.c   | 18 +++++++++++++++---
 src/cxy/lang/middle/eval/index.c | 13 +++++++++----
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 63d5f2d..581a9cc 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -276,13 +276,14 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
             "unsupported comp-time operation '..', range start and stop must "
             "be compile time expressions",
             NULL);
+        node->tag = astError;
     }
 
     node->next = next;
@@ -291,13 +292,15 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
 
 void evalArrayExpr(AstVisitor *visitor, AstNode *node)
 {
+    u64 i = 0;
     AstNode *arg = node->arrayExpr.elements;
-    for (; arg; arg = arg->next) {
+    for (; arg; arg = arg->next, i++) {
         if (!evaluate(visitor, arg)) {
             node->tag = astError;
             return;
         }
     }
+    node->arrayExpr.len = i;
 }
 
 void evalVarDecl(AstVisitor *visitor, AstNode *node)
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..602026d 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -61,7 +61,9 @@ static bool evalExprForStmtArray(AstVisitor *visitor,
     for (; elem; elem = elem->next) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         body->parentScope = node->parentScope;
-        variable->varDecl.init = elem;
+        // only this element, not the ones that follow it
+        variable->varDecl.init = copyAstNode(ctx->pool, elem);
+        variable->varDecl.init->next = NULL;
 
         const Type *type = evalType(ctx, body);
 
@@ -177,13 +179,23 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
         step = range->rangeExpr.step
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
+    bool down = range->rangeExpr.down || step < 0;
+    if (step == 0) {
+        logError(ctx->L,
+                 &range->loc,
+                 "step of comp-time range cannot be zero",
+                 NULL);
+        node->tag = astError;
+        return false;
+    }
 
-    for (; i < count; i += step) {
+    for (; down ? i > count : i < count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.isNegative = i < 0, .value = i}});
 
         if (body) {
             body->parentScope = node->parentScope;
diff --git a/src/cxy/lang/middle/eval/index.c b/src/cxy/lang/middle/eval/index.c
index 5880db7..93bd7f9 100644
--- a/src/cxy/lang/middle/eval/index.c
+++ b/src/cxy/lang/middle/eval/index.c
@@ -14,12 +14,14 @@ static bool evalAstNodeAtIndex(EvalContext *ctx,
     if (atIndex == NULL) {
         logError(ctx->L,
                  &node->loc,
-                 "index {0} is out of bounds, target has {u64} elements",
+                 "index {i64} is out of bounds, target has {u64} elements",
                  (FormatArg[]){{.i64 = index}, {.u64 = countAstNodes(list)}});
         node->tag = astError;
         return false;
     }
+    AstNode *next = node->next;
     *node = *atIndex;
+    node->next = next;
     return true;
 }
 
@@ -77,13 +79,16 @@ static bool evalIntegerIndexExpr(EvalContext *ctx, AstNode *node)
     AstNode *index = node->indexExpr.index;
 
     i64 i = (i64)nodeGetNumericLiteral(index);
-    u64 len = nodeIs(target, StringLit) ? strlen(target->stringLiteral.value)
-                                        : target->arrayExpr.len;
+    // other targets are checked against the number of their elements
+    u64 len = nodeIs(target, StringLit)   ? strlen(target->stringLiteral.value)
+              : nodeIs(target, ArrayExpr) ? target->arrayExpr.len
+              : nodeIs(target, TupleExpr) ? target->tupleExpr.len
+                                          : UINT32_MAX;
     if (i < 0 || i >= len) {
         logError(ctx->L,
                  &node->loc,
                  "index out of bounds for comp-time index "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
-- 
2.43.0


From 21a3aade21a86b9939167f68bce1338129fd0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:28 +0000
Subject: [PATCH 85/89] fix: keep recovering from syntax errors and parse
 deeply nested blocks

Recovering from an error in a block left its exception frame behind; after
16 of them, or with blocks nested that deep, the compiler died of an
uncaught exception, as it did on an error in the module declaration or an
include it cannot find.
---
 src/cxy/core/e4c.h             |  2 +-
 src/cxy/lang/frontend/parser.c | 26 ++++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/cxy/core/e4c.h b/src/cxy/core/e4c.h
index 585b863..0332f19 100644
--- a/src/cxy/core/e4c.h
+++ b/src/cxy/core/e4c.h
@@ -17,7 +17,7 @@ extern "C" {
 
 /* Maximum number of nested `try` blocks */
 #ifndef E4C_MAX_FRAMES
-#define E4C_MAX_FRAMES 16
+#define E4C_MAX_FRAMES 1024
 #endif
 
 /* Maximum length (in bytes) of an exception message */
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 3d3792b..c115a94 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1398,8 +1398,8 @@ static AstNode *block(Parser *P)
                 listAddAstNode(&stmts, statement(P, false));
                 match(P, tokSemicolon);
             } E4C_CATCH(ParserException) {
+                // not leaving the handler, the frame must be released
                 synchronizeUntil(P, tokRBrace);
-                break;
             })
     }
     consume0(P, tokRBrace);
@@ -3688,9 +3688,17 @@ AstNode *parseProgram(Parser *P)
     AstNodeList decls = {NULL};
     AstNode *module = NULL;
     AstNodeList topLevel = {NULL};
-
-    if (check(P, tokModule))
-        module = parseModuleDecl(P);
+    bool aborted = false;
+
+    E4C_TRY_BLOCK(
+        {
+            if (check(P, tokModule))
+                module = parseModuleDecl(P);
+        } E4C_CATCH(ParserException) {
+            synchronize(E4C_EXCEPTION.ctx);
+        } E4C_CATCH(ParserAbort) { aborted = true; })
+    if (aborted)
+        return NULL;
 
     while (check(P, tokImport) || check(P, tokDefine) ||
            (check(P, tokAt) &&
@@ -3704,7 +3712,9 @@ AstNode *parseProgram(Parser *P)
                     listAddAstNode(&topLevel, node);
             } E4C_CATCH(ParserException) {
                 synchronize(E4C_EXCEPTION.ctx);
-            } E4C_CATCH(ParserAbort) { return NULL; })
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     while (!isEoF(P)) {
@@ -3713,7 +3723,11 @@ AstNode *parseProgram(Parser *P)
                 AstNode *decl = comptime(P, comptimeDeclaration);
                 if (decl)
                     listAddAstNode(&decls, decl);
-            } E4C_CATCH(ParserException) { synchronize(E4C_EXCEPTION.ctx); })
+            } E4C_CATCH(ParserException) {
+                synchronize(E4C_EXCEPTION.ctx);
+            } E4C_CATCH(ParserAbort) { aborted = true; })
+        if (aborted)
+            return NULL;
     }
 
     return newAstNode(P,
-- 
2.43.0


From 54bd7acf18650b684a827f8a68c5724554dbaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:43 +0000
Subject: [PATCH 86/89] fix: diagnostics whose format strings crashed the
 compiler

A lone { in the message about compile time markers, a quote inside a
placeholder, and placeholders without an argument made the formatter
assert or read a null argument list while reporting an error.
---
 src/cxy/driver/cxyfile.c          | 4 ++--
 src/cxy/lang/frontend/parser.c    | 2 +-
 src/cxy/lang/middle/eval/for.c    | 2 +-
 src/cxy/lang/middle/eval/member.c | 2 +-
 src/cxy/lang/middle/sema/check.c  | 2 +-
 src/cxy/lang/middle/sema/for.c    | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cxy/driver/cxyfile.c b/src/cxy/driver/cxyfile.c
index adc7cc3..38eac7a 100644
--- a/src/cxy/driver/cxyfile.c
+++ b/src/cxy/driver/cxyfile.c
@@ -201,7 +201,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "parsing '{s}' failed: {s}",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
@@ -210,7 +210,7 @@ bool loadCxyfile(CompilerDriver *cc, cstring path)
         logError(cc->L,
                  NULL,
                  "invalid Cxyfile, file is missing 'package' definition",
-                 (FormatArg[]){{.s = except}});
+                 (FormatArg[]){{.s = path}, {.s = except}});
         return false;
     }
 
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index c115a94..cacf951 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -1687,7 +1687,7 @@ static AstNode *substitute(Parser *P, bool allowStructs)
     if (match(P, tokHash, tokSubstitutue)) {
         parserError(P,
                     &previous(P)->fileLoc,
-                    "compile time markers `#` or `#{` cannot be used in "
+                    "compile time markers `#` or `#{{` cannot be used in "
                     "current context",
                     NULL);
     }
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index 602026d..6ac44f8 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -253,7 +253,7 @@ void evalForStmt(AstVisitor *visitor, AstNode *node)
                      &rangeLoc,
                      "`#for` loop range expression is not comptime iterable, "
                      "parameter '{s}' is not variadic",
-                     NULL);
+                     (FormatArg[]){{.s = node->forStmt.range->ident.value}});
             node->tag = astError;
             return;
         }
diff --git a/src/cxy/lang/middle/eval/member.c b/src/cxy/lang/middle/eval/member.c
index 401fdb1..46ebacb 100644
--- a/src/cxy/lang/middle/eval/member.c
+++ b/src/cxy/lang/middle/eval/member.c
@@ -27,7 +27,7 @@ static bool evalIntegerMemberExpr(EvalContext *ctx, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "member out of bounds for comp-time integer member "
-                 "expression, requested index '{i64}', expecting '< {u64'}",
+                 "expression, requested index '{i64}', expecting '< {u64}'",
                  (FormatArg[]){{.i64 = i}, {.u64 = len}});
 
         node->tag = astError;
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 1ab455b..440658e 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -321,7 +321,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
         logError(ctx->L,
                  &node->loc,
                  "inconsistent yield type, expecting `{t}` (deduced from first "
-                 "yield expression) got `t`",
+                 "yield expression) got `{t}`",
                  (FormatArg[]){{.t = block->type}, {.t = type}});
         node->type = ERROR_TYPE(ctx);
         return;
diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 94307d7..ee126c3 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -346,7 +346,7 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
                      &node->rangeExpr.start->loc,
                      "`range` step type '{t}' is not supported, expecting a "
                      "numeric type",
-                     (FormatArg[]){{.t = start}, {.t = end}});
+                     (FormatArg[]){{.t = step}});
             node->type = ERROR_TYPE(ctx);
             return;
         }
-- 
2.43.0


From 084289b0cb1d817a6fadac775b84f5fbdec2d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:03 +0000
Subject: [PATCH 87/89] fix: dispatch and override overloaded virtual functions

Virtual functions that share a name got one member of the virtual table,
a call through the base class always ran the base's, and the table held
whichever overload was found last. Functions override those with the
same parameters, and overloads have a member each.
---
 src/cxy/lang/middle/defer.c             |  8 +---
 src/cxy/lang/middle/mangle.c            | 63 +++++++++++++++++++++++-
 src/cxy/lang/middle/mangle.h            | 13 +++++
 src/cxy/lang/middle/sema/inheritance.c  | 64 +++++++++++++++++++++----
 src/cxy/lang/middle/simplify/simplify.c | 15 +++---
 5 files changed, 139 insertions(+), 24 deletions(-)

diff --git a/src/cxy/lang/middle/defer.c b/src/cxy/lang/middle/defer.c
index 99e1019..a10f337 100644
--- a/src/cxy/lang/middle/defer.c
+++ b/src/cxy/lang/middle/defer.c
@@ -39,12 +39,6 @@ static inline bool blockScopeIsSealed(BlockScope *scope)
     return (scope->flags & bscSealed) == bscSealed;
 }
 
-static bool astNodeNameNeedsMangling(const AstNode *node)
-{
-    return nodeIs(node, FuncDecl) &&
-           (node->list.link != NULL || node->funcDecl.index > 0);
-}
-
 static inline bool blockScopeNeedsSealing(BlockScope *scope)
 {
     return !blockScopeIsSealed(scope) && scope->data.size > 0;
@@ -177,7 +171,7 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
 static void visitFuncDecl(AstVisitor *visitor, AstNode *node)
 {
     DeferContext *ctx = getAstVisitorContext(visitor);
-    if (astNodeNameNeedsMangling(node)) {
+    if (isOverloadedFunction(node)) {
         node->funcDecl.name = makeMangledName(ctx->strings,
                                               node->funcDecl.name,
                                               node->type->func.params,
diff --git a/src/cxy/lang/middle/mangle.c b/src/cxy/lang/middle/mangle.c
index d5a99d1..c6bb4fc 100644
--- a/src/cxy/lang/middle/mangle.c
+++ b/src/cxy/lang/middle/mangle.c
@@ -141,4 +141,65 @@ cstring makeMangledName(
     free(str);
     freeFormatState(&state);
     return mangled;
-}
\ No newline at end of file
+}
+
+static bool hasSameParams(const Type *lhs, const Type *rhs)
+{
+    if (lhs->func.paramsCount != rhs->func.paramsCount)
+        return false;
+    for (u64 i = 0; i < lhs->func.paramsCount; i++) {
+        if (resolveAndUnThisType(lhs->func.params[i]) !=
+            resolveAndUnThisType(rhs->func.params[i]))
+            return false;
+    }
+    return true;
+}
+
+static cstring mangleFunctionName(struct StrPool *strings, const AstNode *func)
+{
+    return makeMangledName(strings,
+                           func->funcDecl.name,
+                           func->type->func.params,
+                           func->type->func.paramsCount,
+                           hasFlag(func, Const));
+}
+
+bool isOverloadedFunction(const AstNode *node)
+{
+    return nodeIs(node, FuncDecl) &&
+           (node->list.link != NULL || node->funcDecl.index > 0);
+}
+
+bool isSameMemberFunction(struct StrPool *strings,
+                          const AstNode *lhs,
+                          const AstNode *rhs)
+{
+    if (lhs == rhs)
+        return true;
+    if (!typeIs(lhs->type, Func) || !typeIs(rhs->type, Func) ||
+        !hasSameParams(lhs->type, rhs->type))
+        return false;
+    // the names of overloaded functions are mangled at some point
+    cstring lname = lhs->funcDecl.name, rname = rhs->funcDecl.name;
+    if (lname == rname)
+        return !isOverloadedFunction(lhs) || !isOverloadedFunction(rhs) ||
+               hasFlag(lhs, Const) == hasFlag(rhs, Const);
+    return mangleFunctionName(strings, lhs) == rname ||
+           mangleFunctionName(strings, rhs) == lname;
+}
+
+AstNode *findVTableMember(struct StrPool *strings,
+                          const Type *vTable,
+                          const AstNode *func)
+{
+    const TypeMembersContainer *members = vTable->tStruct.members;
+    for (u64 i = 0; i < members->count; i++) {
+        const Type *type = members->members[i].type;
+        if (typeIs(type, Func) && nodeIs(type->func.decl, FuncDecl) &&
+            isSameMemberFunction(strings, type->func.decl, func))
+            return (AstNode *)members->members[i].decl;
+    }
+    return isOverloadedFunction(func)
+               ? NULL
+               : findMemberDeclInType(vTable, func->_namedNode.name);
+}
diff --git a/src/cxy/lang/middle/mangle.h b/src/cxy/lang/middle/mangle.h
index a4d35d2..9fa0a3f 100644
--- a/src/cxy/lang/middle/mangle.h
+++ b/src/cxy/lang/middle/mangle.h
@@ -16,6 +16,19 @@ cstring makeMangledName(struct StrPool *strings,
                         u64 count,
                         bool isConst);
 
+/// A function that shares its name with others in its scope
+bool isOverloadedFunction(const AstNode *node);
+
+/// Whether the functions (of a class and a base of it) override one another
+bool isSameMemberFunction(struct StrPool *strings,
+                          const AstNode *lhs,
+                          const AstNode *rhs);
+
+/// The member of a virtual table through which the function is called
+AstNode *findVTableMember(struct StrPool *strings,
+                          const Type *vTable,
+                          const AstNode *func);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/cxy/lang/middle/sema/inheritance.c b/src/cxy/lang/middle/sema/inheritance.c
index 6c8afde..89bfa19 100644
--- a/src/cxy/lang/middle/sema/inheritance.c
+++ b/src/cxy/lang/middle/sema/inheritance.c
@@ -4,23 +4,65 @@
 
 #include "check.h"
 
+#include "../mangle.h"
+
 #include "lang/frontend/flag.h"
 #include "lang/frontend/strings.h"
 
+static AstNode *getVTableFunction(const AstNode *field)
+{
+    const Type *type = field->structField.type->type;
+    csAssert0(typeIs(type, Func));
+    return type->func.decl;
+}
+
 AstNode *vTableMembersFind(TypingContext *ctx,
                            AstNode *members,
                            const AstNode *member)
 {
     AstNode *it = members;
     while (it) {
-        if (member->_namedNode.name == it->_namedNode.name) {
+        if (isSameMemberFunction(ctx->strings, getVTableFunction(it), member))
             return it;
-        }
         it = it->next;
     }
     return NULL;
 }
 
+/**
+ * The function of the class that overrides the given one of its base
+ */
+static AstNode *findOverride(TypingContext *ctx,
+                             AstNode *node,
+                             const AstNode *base)
+{
+    AstNode *member = node->classDecl.members;
+    for (; member; member = member->next) {
+        if (nodeIs(member, FuncDecl) &&
+            isSameMemberFunction(ctx->strings, member, base))
+            return member;
+    }
+    if (isOverloadedFunction(base))
+        return NULL;
+    member = findMemberDeclInType(node->type, base->funcDecl.name);
+    return nodeIs(member, FuncDecl) && !isOverloadedFunction(member) ? member
+                                                                     : NULL;
+}
+
+/**
+ * Overloaded functions have a name each in the virtual table
+ */
+static cstring getVTableMemberName(TypingContext *ctx, const AstNode *func)
+{
+    if (!isOverloadedFunction(func))
+        return func->_namedNode.name;
+    return makeMangledName(ctx->strings,
+                           func->_namedNode.name,
+                           func->type->func.params,
+                           func->type->func.paramsCount,
+                           hasFlag(func, Const));
+}
+
 AstNode *findVirtualBase(AstNode *node)
 {
     AstNode *base = node->classDecl.base;
@@ -157,11 +199,10 @@ static void inheritanceChainBuildVTableType(TypingContext *ctx,
     AstNode *base = node->classDecl.base;
     if (base != NULL) {
         inheritanceChainBuildVTableType(ctx, members, init, resolvePath(base));
-        AstNode *field = init->first;
-        for (; field; field = field->next) {
-            AstNode *member =
-                findMemberDeclInType(node->type, field->_namedNode.name);
-            if (nodeIs(member, FuncDecl)) {
+        AstNode *field = init->first, *it = members->first;
+        for (; field; field = field->next, it = it->next) {
+            AstNode *member = findOverride(ctx, node, getVTableFunction(it));
+            if (member) {
                 field->fieldExpr.value =
                     makeMemberFunctionRef(ctx, node, member);
             }
@@ -178,12 +219,13 @@ static void inheritanceChainBuildVTableType(TypingContext *ctx,
         AstNode *field = vTableMembersFind(ctx, members->first, member);
         if (field)
             continue;
+        cstring name = getVTableMemberName(ctx, member);
         insertAstNode(
             members,
             makeStructField(
                 ctx->pool,
                 &member->loc,
-                member->_namedNode.name,
+                name,
                 flgConst,
                 makeTypeReferenceNode(ctx->pool, member->type, &member->loc),
                 NULL,
@@ -194,7 +236,7 @@ static void inheritanceChainBuildVTableType(TypingContext *ctx,
             makeFieldExpr(
                 ctx->pool,
                 &member->loc,
-                member->_namedNode.name,
+                name,
                 flgConst,
                 member->funcDecl.body
                     ? makeMemberFunctionRef(ctx, node, member)
@@ -262,9 +304,11 @@ AstNode *inheritanceBuildVTable(TypingContext *ctx, AstNode *node)
     AstNode *member = def->structExpr.fields;
     for (; member; member = member->next) {
         AstNode *func = NULL;
+        const Type *type_ =
+            findMemberDeclInType(type->type, member->_namedNode.name)->type;
         for (AstNode *it = node; func == NULL && it != base;
              it = resolvePath(it->classDecl.base)) {
-            func = findMemberDeclInType(it->type, member->_namedNode.name);
+            func = findOverride(ctx, it, type_->func.decl);
         }
         if (func != NULL) {
             // Change the function we resolve to
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 06e6bd2..983c571 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -3,6 +3,7 @@
 //
 
 #include "../defer.h"
+#include "../mangle.h"
 #include "../n2e.h"
 
 #include "driver/driver.h"
@@ -73,7 +74,9 @@ static AstNode *findVirtualTable(AstNode *decl)
     return nodeIs(decl, ClassDecl) ? decl->classDecl.members : NULL;
 }
 
-static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
+static bool isVirtualDispatch(SimplifyContext *ctx,
+                              const AstNode *target,
+                              const AstNode *member)
 {
     const Type *type = stripReference(target->type);
     if (!isClassOrStructType(type))
@@ -86,8 +89,7 @@ static bool isVirtualDispatch(const AstNode *target, const AstNode *member)
     AstNode *func = getTypeDecl(member->type),
             *vTable = findVirtualTable(getTypeDecl(type));
     return vTable && nodeIs(func, FuncDecl) &&
-           findMemberDeclInType(vTable->type->pointer.pointed,
-                                func->_namedNode.name);
+           findVTableMember(ctx->strings, vTable->type->pointer.pointed, func);
 }
 
 static AstNode *virtualDispatch(SimplifyContext *ctx,
@@ -96,8 +98,9 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
 {
     // [target].vtable.[member](target, [args])
     AstNode *vTable = findVirtualTable(getTypeDecl(stripReference(target->type))),
-            *vTableFunc = findMemberDeclInType(vTable->type->pointer.pointed,
-                                               member->ident.value);
+            *vTableFunc = findVTableMember(ctx->strings,
+                                           vTable->type->pointer.pointed,
+                                           getTypeDecl(member->type));
     AstNode *base = NULL;
     if (nodeIs(target, ReferenceOf)) {
         base = deepCloneAstNode(ctx->pool, target->unaryExpr.operand);
@@ -858,7 +861,7 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     }
 
     target->flags |= flgReference;
-    if (isVirtualDispatch(target, call)) {
+    if (isVirtualDispatch(ctx, target, call)) {
         node->callExpr.callee = virtualDispatch(ctx, target, call);
         target->next = args;
         node->callExpr.args = target;
-- 
2.43.0


From 8754114e4c64389cdb973b8157eba5a742e44f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:09 +0000
Subject: [PATCH 88/89] fix: clear a member after the object it holds is
 deleted

---
 src/cxy/lang/middle/mem/manage.c | 51 ++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 4d235f6..3daf349 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -450,6 +450,56 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * Whether evaluating \a node twice designates the same location
+ */
+static bool isStableLocation(const AstNode *node)
+{
+    switch (node->tag) {
+    case astGroupExpr:
+        return isStableLocation(node->groupExpr.expr);
+    case astMemberExpr:
+        return isStableLocation(node->memberExpr.target);
+    case astIndexExpr:
+        return isStableLocation(node->indexExpr.target) &&
+               isStableLocation(node->indexExpr.index);
+    default:
+        return nodeIs(node, Identifier) || isIntegralLiteral(node);
+    }
+}
+
+/**
+ * A member (or an element) that holds an object does not own it anymore after
+ * it has been deleted
+ */
+static void clearDeletedMember(MemContext *ctx, AstNode *operand)
+{
+    const Type *type = stripReference(operand->type);
+    if (!isClassType(type) ||
+        !(nodeIs(operand, MemberExpr) || nodeIs(operand, IndexExpr)) ||
+        !isStableLocation(operand))
+        return;
+    AstNode *address = makePointerOfExpr(ctx->pool,
+                                         &operand->loc,
+                                         flgNone,
+                                         deepCloneAstNode(ctx->pool, operand),
+                                         NULL,
+                                         makePointerType(ctx->types, type, 0));
+    astModifierAddAsNext(
+        &ctx->blockModifier,
+        makeExprStmt(ctx->pool,
+                     &operand->loc,
+                     flgNone,
+                     makeBackendCallExpr(ctx->pool,
+                                         &operand->loc,
+                                         flgNone,
+                                         bfiZeromem,
+                                         address,
+                                         makeVoidType(ctx->types)),
+                     NULL,
+                     makeVoidType(ctx->types)));
+}
+
 static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -479,6 +529,7 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
 
     if (node->unaryExpr.op == opDelete) {
         if (nodeNeedsMemMgmt(operand)) {
+            clearDeletedMember(ctx, operand);
             transformToDropExpr(ctx, node, operand);
         }
         else {
-- 
2.43.0


From cdfbc9d0e1d22415572eeb10e97c0ace29c81b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:03 +0000
Subject: [PATCH 89/89] fix: prepare call arguments only on the side of a
 condition that is evaluated

---
 src/cxy/lang/middle/simplify/simplify.c | 163 +++++++++++++++++++++++-
 1 file changed, 162 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 983c571..e69e660 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -903,10 +903,162 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+/**
+ * Visits \a expr, an expression that is evaluated only under some condition.
+ * \returns a block with what has to be executed before the expression can be
+ * evaluated followed by the expression, or NULL if there is no such thing
+ */
+static AstNode *visitConditionalExpr(AstVisitor *visitor, AstNode *expr)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *stmt = makeExprStmt(
+                ctx->pool, &expr->loc, flgNone, expr, NULL, expr->type),
+            *block = makeBlockStmt(ctx->pool,
+                                   &expr->loc,
+                                   stmt,
+                                   NULL,
+                                   makeVoidType(ctx->types));
+    AstModifier saved = ctx->block;
+    astModifierInit(&ctx->block, block);
+    astModifierNext(&ctx->block, stmt);
+    astVisit(visitor, expr);
+    ctx->block = saved;
+    block->blockStmt.last = stmt;
+    return block->blockStmt.stmts == stmt ? NULL : block;
+}
+
+/**
+ * Turns the last expression of \a block into an assignment to \a var
+ */
+static void assignLastExpr(SimplifyContext *ctx, AstNode *block, AstNode *var)
+{
+    AstNode *stmt = block->blockStmt.last, *expr = stmt->exprStmt.expr;
+    stmt->exprStmt.expr =
+        makeAssignExpr(ctx->pool,
+                       &expr->loc,
+                       flgNone,
+                       makeResolvedIdentifier(ctx->pool,
+                                              &expr->loc,
+                                              var->_namedNode.name,
+                                              0,
+                                              var,
+                                              NULL,
+                                              var->type),
+                       opAssign,
+                       expr,
+                       NULL,
+                       var->type);
+    stmt->type = var->type;
+}
+
+static void replaceWithVariable(AstNode *node, AstNode *var)
+{
+    node->tag = astIdentifier;
+    clearAstBody(node);
+    node->ident.value = var->_namedNode.name;
+    node->ident.resolvesTo = var;
+    node->type = var->type;
+    node->flags |= flgMove;
+}
+
+static void visitLogicalExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    astVisit(visitor, lhs);
+    AstNode *block = visitConditionalExpr(visitor, rhs);
+    if (block == NULL)
+        return;
+
+    // var x = lhs; if (x) { ...; x = rhs } or if (!x) { ...; x = rhs }
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_l"),
+                               NULL,
+                               lhs,
+                               NULL,
+                               getPrimitiveType(ctx->types, prtBool));
+    AstNode *cond = makeResolvedIdentifier(ctx->pool,
+                                           &lhs->loc,
+                                           var->_namedNode.name,
+                                           0,
+                                           var,
+                                           NULL,
+                                           var->type);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &lhs->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             var->type);
+    assignLastExpr(ctx, block, var);
+    var->next = makeIfStmt(
+        ctx->pool, &node->loc, flgNone, cond, block, NULL, NULL);
+    astModifierAdd(&ctx->block, var);
+    replaceWithVariable(node, var);
+}
+
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *cond = node->ternaryExpr.cond, *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    astVisit(visitor, cond);
+    AstNode *then = visitConditionalExpr(visitor, body),
+            *else_ = visitConditionalExpr(visitor, otherwise);
+    if (then == NULL && else_ == NULL)
+        return;
+
+    // var x; if (cond) { ...; x = body } else { ...; x = otherwise }
+    if (then == NULL)
+        then = makeBlockStmt(
+            ctx->pool,
+            &body->loc,
+            makeExprStmt(ctx->pool, &body->loc, flgNone, body, NULL, body->type),
+            NULL,
+            makeVoidType(ctx->types));
+    if (else_ == NULL)
+        else_ = makeBlockStmt(ctx->pool,
+                              &otherwise->loc,
+                              makeExprStmt(ctx->pool,
+                                           &otherwise->loc,
+                                           flgNone,
+                                           otherwise,
+                                           NULL,
+                                           otherwise->type),
+                              NULL,
+                              makeVoidType(ctx->types));
+    then->blockStmt.last = getLastAstNode(then->blockStmt.stmts);
+    else_->blockStmt.last = getLastAstNode(else_->blockStmt.stmts);
+    AstNode *stmt = makeIfStmt(
+        ctx->pool, &node->loc, flgNone, cond, then, else_, NULL);
+    AstNode *var = makeVarDecl(ctx->pool,
+                               &node->loc,
+                               flgTemporary,
+                               makeAnonymousVariable(ctx->strings, "_t"),
+                               NULL,
+                               NULL,
+                               stmt,
+                               node->type);
+    assignLastExpr(ctx, then, var);
+    assignLastExpr(ctx, else_, var);
+    astModifierAdd(&ctx->block, var);
+    replaceWithVariable(node, var);
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
-    astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
+    if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        visitLogicalExpr(visitor, node);
+        return;
+    }
+
+    astVisitFallbackVisitAll(visitor, node);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
     if (node->binaryExpr.op == opIs) {
         const Type *type = stripPointerOrReferenceOnce(lhs->type, NULL);
@@ -1183,6 +1335,14 @@ void visitIfStmt(AstVisitor *visitor, AstNode *node)
     if (!isBooleanType(cond->type)) {
         simplifyCondition(ctx, cond);
     }
+    AstNode *otherwise = node->ifStmt.otherwise;
+    if (nodeIs(otherwise, IfStmt)) {
+        // what the condition needs is executed only if it is evaluated
+        node->ifStmt.otherwise = makeBlockStmt(
+            ctx->pool, &otherwise->loc, otherwise, NULL, otherwise->type);
+        node->ifStmt.otherwise->parentScope = node;
+        otherwise->parentScope = node->ifStmt.otherwise;
+    }
     astVisitFallbackVisitAll(visitor, node);
 }
 
@@ -1488,6 +1648,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0

