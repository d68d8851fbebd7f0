From d7a9f3dc13a857cff8cfba8933db1e08e121788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:04 +0000
Subject: [PATCH 01/51] fix: do not evacuate live registers into the frame
 pointer across calls

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From a97ea092f1b3f9384d2dccc426f27b54dcfe9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:18 +0000
Subject: [PATCH 02/51] fix: address through the register that holds the
 pointer value, not the last one numbered

---
 src/immcgen/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..4e9a86a 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -181,7 +181,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From a25b87cc894879af313522d78a39ee95556fe244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:02 +0000
Subject: [PATCH 03/51] fix: convert through every level of a nested cast and
 generate code for casts in any position

---
 src/immcgen/expression.c | 18 ++++++++++++++++++
 src/immcgen/expression.h |  1 +
 src/immcgen/immcgen.c    |  3 +++
 src/immcgen/util.c       |  2 --
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..6f27dcc 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,24 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+
+    if (immcgen->srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 4e9a86a..fdae720 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -110,8 +110,6 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     DType* cast_dtype = NULL;
     if (child_srt->type == SRT_CAST_EXPR) {
         cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
         immcgen->srt = child_srt;
         index = 0;
         child_srt = vector_at(child_srt->children, index);
-- 
2.43.0


From 4c3578964e7f5b9cae6be7dea4c96ea4be9d959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:11 +0000
Subject: [PATCH 04/51] fix: reduce integer constants to the width of the type
 they are converted to

---
 src/immcgen/util.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index fdae720..3701f65 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -191,15 +191,23 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
 
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int nbytes = dtype_nbytes(dtype);
+
+    unsigned long long value =
+        iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
 
     if (dtype_isunsignedinteger(dtype)) {
-        unsigned long long value =
-            iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 1);
-        return new_unsigned_iliteral(type, value);
-    } else {
-        long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
-        IntegerLiteralType type = iliteral_type_get(rank, 0);
-        return new_signed_iliteral(type, value);
+        return new_unsigned_iliteral(type, nbytes == 4 ? (unsigned int)value : value);
     }
-}
\ No newline at end of file
+
+    IntegerLiteralType type = iliteral_type_get(rank, 0);
+    switch (nbytes) {
+        case 1:
+            return new_signed_iliteral(type, (signed char)value);
+        case 4:
+            return new_signed_iliteral(type, (int)value);
+        default:
+            return new_signed_iliteral(type, (long long)value);
+    }
+}
-- 
2.43.0


From 18b75463a6e382ae20197ce41b153ed0295886b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:45 +0000
Subject: [PATCH 05/51] fix: diagnose character constants and string literals
 that the end of the file cuts off

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..52a5808 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("character constant is not terminated");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("character constant is not terminated");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("string literal is not terminated");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 07395aebd8f054ef888c67b64e0b98717d39d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:57 +0000
Subject: [PATCH 06/51] fix: do not mistake byte 0xff in the source for the end
 of the file

---
 src/lexer/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From f292916844cc49b327d00a26692a4c891ae3c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:07 +0000
Subject: [PATCH 07/51] fix: give integer constants the first type that can
 represent them

---
 src/lexer/reader.c | 21 ++++++++++++++++++---
 src/lexer/util.c   | 29 ++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 52a5808..bc07597 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -68,8 +68,13 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            err = new_error("integer constant is too large");
+            return new_lexerret_item_error(err);
+        }
+
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -84,8 +89,13 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 010, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
+        if (iliteral == NULL) {
+            err = new_error("integer constant is too large");
+            return new_lexerret_item_error(err);
+        }
+
+        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         return new_lexerret_item(ctoken);
     }
 
@@ -97,8 +107,13 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
     IntegerLiteralType suffix = read_integer_suffix(lexer);
 
     IntegerLiteral* iliteral = create_iliteral(value, 10, suffix);
-    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     free(value);
+    if (iliteral == NULL) {
+        err = new_error("integer constant is too large");
+        return new_lexerret_item_error(err);
+    }
+
+    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     return new_lexerret_item(ctoken);
 }
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 7b0d9df..595d372 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,8 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -208,13 +210,30 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    errno = 0;
+    unsigned long long parsed_value = strtoull(value, NULL, base);
+    if (errno == ERANGE) {
+        return NULL;
+    }
+
+    // use the first type in which the value can be represented; only constants in bases other than ten become unsigned
+    int is_decimal = base == 10;
+    if (type == INTEGER_INT && parsed_value > INT_MAX) {
+        type = !is_decimal && parsed_value <= UINT_MAX ? INTEGER_UNSIGNED_INT : INTEGER_LONG;
+    } else if (type == INTEGER_UNSIGNED_INT && parsed_value > UINT_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (!iliteral_type_isunsigned(type) && parsed_value > LLONG_MAX) {
+        if (is_decimal) {
+            return NULL;
+        }
+        type = type == INTEGER_LONGLONG ? INTEGER_UNSIGNED_LONGLONG : INTEGER_UNSIGNED_LONG;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
-        return new_unsigned_iliteral(type, unsigned_value);
-    } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_unsigned_iliteral(type, parsed_value);
     }
+    return new_signed_iliteral(type, parsed_value);
 }
 
 void integer_suffix_map_add(Map* integer_suffix_map, char* suffix_str, IntegerLiteralType type) {
-- 
2.43.0


From 26cdee24cf862b0d7b328225e22553a0d8e85096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 08/51] fix: character constants have the value of a (signed)
 char converted to int

---
 src/resolver/expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..5972bf7 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1655,7 +1655,7 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    IntegerLiteral* iliteral = new_signed_iliteral(INTEGER_INT, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
-- 
2.43.0


From 5f3c92027762e0ff314c07c32145b3a3e6c184a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:10 +0000
Subject: [PATCH 09/51] fix: diagnose escape sequences whose value does not fit
 in a character

---
 src/lexer/reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index bc07597..e31506c 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -4,6 +4,7 @@
 #include "../literal/sliteral.h"
 #include "./util.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -407,6 +408,9 @@ ErrorableInt* read_octal_escape_seqence(Lexer* lexer) {
         lexer->content_index++;
     }
 
+    if (value > UCHAR_MAX) {
+        return new_errint_error(new_error("octal escape sequence is out of range"));
+    }
     return new_errint(value);
 }
 
@@ -425,6 +429,9 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
         }
         value = value * 0x10 + *hexdigit_ref;
         lexer->content_index++;
+        if (value > UCHAR_MAX) {
+            return new_errint_error(new_error("hexadecimal escape sequence is out of range"));
+        }
     }
 
     return new_errint(value);
-- 
2.43.0


From 21ad91a84b49d8f05ea6363b8872e7d0dce35297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:34 +0000
Subject: [PATCH 10/51] fix: load constants that do not fit a 32-bit immediate
 into a register

---
 src/immcgen/util.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 3701f65..a98a67b 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -2,11 +2,13 @@
 #include "../error/errint.h"
 #include "../immc/immc.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
+int iliteral_isimmediate(IntegerLiteral* iliteral);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
@@ -120,7 +122,17 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
         DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
         IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
         ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
-        return new_int_immcope(suffix, iliteral);
+        ImmcOpe* immcope = new_int_immcope(suffix, iliteral);
+        if (iliteral_isimmediate(iliteral)) {
+            return immcope;
+        }
+
+        immcgen->next_reg_id++;
+        ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, iliteral_isunsigned(iliteral));
+        ImmcOpe* dst = new_reg_immcope(suffix, dst_reg);
+
+        vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, immcope, NULL));
+        return immcope_copy(dst);
     }
 
     append_child_immcode(immcgen, codes, index);
@@ -211,3 +223,11 @@ IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
             return new_signed_iliteral(type, (long long)value);
     }
 }
+
+int iliteral_isimmediate(IntegerLiteral* iliteral) {
+    // instructions other than mov to a register only take sign-extended 32-bit immediates
+    if (iliteral_isunsigned(iliteral)) {
+        return iliteral->unsigned_value <= INT_MAX;
+    }
+    return INT_MIN <= iliteral->signed_value && iliteral->signed_value <= INT_MAX;
+}
-- 
2.43.0


From 8eb19b850e5e6f6a61c36f4483d95492fb6120aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:35 +0000
Subject: [PATCH 11/51] fix: do not sign-extend string bytes when packing them
 into words

---
 src/x64gen/datainst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..79c9dc3 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 82ede52535b0604011eef43291ebcb5e0a5e72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:34 +0000
Subject: [PATCH 12/51] fix: divide pointer differences as signed values

---
 src/immcgen/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 6f27dcc..62b76df 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -311,6 +311,10 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* div_snd_src = new_signed_int_immcope(div_fst_src->suffix, INTEGER_INT, nbytes);
     ImmcOpe* div_dst = immcope_copy(dst);
 
+    // difference of addresses is negative when fst_src precedes snd_src
+    div_fst_src->reg->is_unsigned = 0;
+    div_dst->reg->is_unsigned = 0;
+
     vector_push(codes, new_inst_immc(IMMC_INST_SUB, dst, fst_src, snd_src));
 
     vector_push(codes, new_inst_immc(IMMC_INST_DIV, div_dst, div_fst_src, div_snd_src));
-- 
2.43.0


From b6c8f28b0c5d5de5b06ce406706c76867c3d9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 13/51] fix: promote a char that is added to or subtracted from
 a pointer

---
 src/resolver/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 5972bf7..5d2416d 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -781,10 +781,12 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
         dtype = dtype_copy(rhs_srt->dtype);
+        lhs_srt = perform_integer_promotion(lhs_srt);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
     }
@@ -837,6 +839,7 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
+        rhs_srt = perform_integer_promotion(rhs_srt);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
     } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
@@ -1314,6 +1317,7 @@ ResolverReturn* resolve_subscription_expr(Resolver* resolver) {
     }
 
     dtype = dtype_copy(lhs_srt->dtype);
+    rhs_srt = perform_integer_promotion(rhs_srt);
     srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
     srt = new_dtyped_srt(SRT_INDIR_EXPR, dtype_copy(lhs_srt->dtype->dpointer->to_dtype), 1, srt);
     return new_resolverret(srt);
-- 
2.43.0


From 5c5656a717633d07910fc786c53e4b726a70ef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:23 +0000
Subject: [PATCH 14/51] fix: the type of a shift is that of its promoted left
 operand

---
 src/resolver/expression.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 5d2416d..ac4460b 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // type of the result is that of the promoted left operand
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
-- 
2.43.0


From b2c3cb3b71c803112bf7db1ce11e30ebb0b7a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:51 +0000
Subject: [PATCH 15/51] fix: shift unsigned values right logically

---
 src/x64/inst.c         | 3 ++-
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..de0bd84 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,7 +11,7 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",  "sete",
                             "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
                             "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
                             "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From 0b27f8c71b0f61b7a8e96d6d5f468d847ed3bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:09 +0000
Subject: [PATCH 16/51] fix: support shift counts that are not constants

---
 src/x64gen/shrotinst.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 960340e..c971942 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -30,17 +30,19 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     ImmcOpe* immc_fst_src = immc->inst->fst_src;
     ImmcOpe* immc_snd_src = immc->inst->snd_src;
 
+    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
     int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
+    int result_id = fst_src_id;
 
     X64Suffix fst_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
     X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
     X64Suffix suffix = x64suffix_greater(fst_src_suffix, snd_src_suffix);
+    int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, fst_src_id);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-            int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
@@ -48,6 +50,30 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
+        case IMMC_OPERAND_REG: {
+            // shift count is taken from %cl: shift in %rax and keep %rcx
+            result_id = AX_REG_ID;
+            int snd_src_id = CALLER_SAVED_REG_IDS[immc_snd_src->reg->reg_id];
+
+            X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, result_id);
+            X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
+            append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
+
+            X64Ope* push_src = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+            vector_push(codes, new_inst_x64(X64_INST_PUSHX, push_src, NULL));
+
+            X64Ope* count_dst = new_reg_x64ope(snd_src_suffix, CX_REG_ID);
+            X64Ope* count_src = new_reg_x64ope(snd_src_suffix, snd_src_id);
+            append_mov_code(codes, count_src, count_dst, 1);
+
+            X64Ope* fst_src = new_reg_x64ope(suffix, result_id);
+            X64Ope* snd_src = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+            vector_push(codes, new_inst_x64(type, snd_src, fst_src));
+
+            X64Ope* pop_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+            vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, pop_dst));
+            break;
+        }
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_shrot_common_x64code)\n");
@@ -55,10 +81,9 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     }
 
     X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
-    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(suffix, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(suffix, result_id);
     int dst_is_unsigned = immc_dst->reg->is_unsigned;
     append_mov_code(codes, dst_mov_src, dst_mov_dst, dst_is_unsigned);
 
-- 
2.43.0


From 9e1825177243eb86258ddf7d467ecffa5c57a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 17/51] fix: clear the upper half of the register when widening
 an unsigned int

---
 src/x64gen/datainst.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 79c9dc3..3b8e2fa 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -31,6 +31,12 @@ Vector* gen_load_x64code(X64gen* x64gen) {
             X64Ope* dst = new_reg_x64ope(dst_suffix, dst_id);
             X64Ope* src = new_reg_x64ope(src_suffix, src_id);
             int src_is_unsigned = immc_src->reg->is_unsigned;
+            if (src_is_unsigned && src_suffix == X64_SUFFIX_LONG && dst_suffix == X64_SUFFIX_QUAD) {
+                // upper bits may be left by a wider value: writing the lower 32 bits of a register clears them
+                dst->suffix = X64_SUFFIX_LONG;
+                vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
+                break;
+            }
             append_mov_code(codes, src, dst, src_is_unsigned);
             break;
         }
-- 
2.43.0


From 9906050a3d772627e68cc4c54ee9bd4b077efb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 18/51] fix: widen the comparison result from the register it
 was set in

---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From 94177fd2e7aae687fe39b3894a3896663298a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:12 +0000
Subject: [PATCH 19/51] fix: diagnose expressions that need more registers than
 there are instead of crashing

---
 src/regalloc/regalloc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..c5c44c1 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -312,6 +313,16 @@ Vector* determine_allocation(Vector* livenesses, int num_real_regs) {
         }
     }
 
+    // TODO: implement spiling
+    for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
+        int* allocation = vector_at(allocations, virtual_reg_id);
+        if (*allocation == -1) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "expression is too complex to be allocated to registers\n");
+            exit(1);
+        }
+    }
+
     delete_vector(statuses);
     return allocations;
 }
@@ -384,7 +395,6 @@ void spil_register(Vector* allocations, Vector* statuses, Vector* livenesses, in
 }
 
 Vector* gen_allocated_immcs(Vector* external_immcs, Vector* allocations) {
-    // TODO: implement spiling
     Vector* allocated_immcs = new_vector(&t_immc);
 
     int immcs_len = vector_size(external_immcs);
-- 
2.43.0


From 47b951b23652a264009da39993556c78c0ebff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 20/51] fix: diagnose more values alive across a call than can
 be saved instead of reading past the register table

---
 src/x64gen/ctrlinst.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..3d2e6dd 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -138,13 +138,17 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
+        if (evacuation_count >= NUM_CALLEE_SAVED_REGS) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "too many values are alive across a function call\n");
+            exit(1);
+        }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
         X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
@@ -198,7 +202,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From 6ee715c67cb6755287aeb1abcdd01aad686fc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:50 +0000
Subject: [PATCH 21/51] fix: keep the stack aligned at calls that are evaluated
 as arguments of other calls

---
 src/x64gen/ctrlinst.c | 17 ++++++++++++++---
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 3d2e6dd..7fb5b0b 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -175,6 +175,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->pushed_count--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -287,7 +288,12 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    // the stack holds arguments of enclosing calls when this call is (a part of) one of their arguments
+    int padding = (x64gen->pushed_count + num_mem_args) % 2;
+    vector_push(x64gen->call_paddings, new_integer(padding));
+    x64gen->pushed_count += padding;
+    if (padding) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -305,8 +311,13 @@ Vector* gen_clean_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    int* padding = vector_pop(x64gen->call_paddings);
+    int num_cleaned = num_mem_args + *padding;
+    free(padding);
+    x64gen->pushed_count -= num_cleaned;
+    if (num_cleaned > 0) {
+        int mem_param_offset = num_cleaned * 8;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 3b8e2fa..56a939a 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -292,6 +292,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
             exit(1);
     }
 
+    x64gen->pushed_count++;
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..a1f30af 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->pushed_count = 0;
+    x64gen->call_paddings = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_paddings);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..71a766c 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int pushed_count;
+    Vector* call_paddings;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 9850b365e04c75d417acab231c9c7fe2ac1083d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:58 +0000
Subject: [PATCH 22/51] fix: do not divide by a constant through a register
 that holds another value

---
 src/x64gen/arithinst.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..6226e49 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -168,6 +168,16 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            if (snd_src_id != fst_src_id && snd_src_id != dst_id) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                if (set_contains(alive_regs_set, &snd_src_id)) {
+                    snd_src_id = CALLEE_SAVED_REG_IDS[1];
+                    if (x64gen->evacuation_count < 2) {
+                        x64gen->evacuation_count = 2;
+                    }
+                }
+                delete_set(alive_regs_set);
+            }
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-- 
2.43.0


From 8f72d6f17844f4a7765aa016fd3db8febf4fe02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 23/51] fix: zero-initialize the rest of aggregates with
 elements of any integer type

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..c9b4826 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,6 +1070,12 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
+        case DTYPE_ENUM:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From e2a87fa615a61522c2e57c49f7e85453daa30d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:20 +0000
Subject: [PATCH 24/51] fix: skip the trailing padding between structs when
 initializing local arrays of them

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..5954fd3 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From cf6ff41ac5046719ae5956d94e670b5da5e8363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:38 +0000
Subject: [PATCH 25/51] fix: diagnose global initializers that are not integer
 constants instead of crashing

---
 src/immcgen/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 5954fd3..a9bed1d 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -267,6 +267,11 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     while (srt->type == SRT_CAST_EXPR) {
         srt = vector_at(srt->children, 0);
     }
+    if (srt->type != SRT_ILITERAL_EXPR) {
+        fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                        "initializer of a global variable is not an integer constant\n");
+        exit(1);
+    }
 
     IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
-- 
2.43.0


From 36117c83641d89db65f02b901d0bc943a0d23c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 26/51] fix: convert constants of global initializers through
 every cast

---
 src/immcgen/declaration.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index a9bed1d..76ddc3c 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -264,7 +264,9 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
     // TODO: support expression for global initializer
+    Vector* cast_dtypes = new_vector(&t_dtype);
     while (srt->type == SRT_CAST_EXPR) {
+        vector_push(cast_dtypes, dtype_copy(srt->dtype));
         srt = vector_at(srt->children, 0);
     }
     if (srt->type != SRT_ILITERAL_EXPR) {
@@ -273,7 +275,15 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
         exit(1);
     }
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
+    IntegerLiteral* iliteral = iliteral_copy(srt->iliteral);
+    vector_insert(cast_dtypes, 0, dtype_copy(immcgen->initialized_dtype));
+    for (int i = vector_size(cast_dtypes) - 1; i >= 0; i--) {
+        IntegerLiteral* casted_iliteral = create_dtyped_iliteral(vector_at(cast_dtypes, i), iliteral);
+        delete_iliteral(iliteral);
+        iliteral = casted_iliteral;
+    }
+    delete_vector(cast_dtypes);
+
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
-- 
2.43.0


From 6a23ce8607285b8f1ec7f0e5d2f10378db746668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 27/51] fix: size string buffers by the identifiers and string
 literals put in them

---
 src/error/error.c | 10 ++++++----
 src/x64/data.c    |  4 ++--
 src/x64/inst.c    | 24 +++++++++++++++++-------
 src/x64/label.c   |  7 ++++---
 src/x64/ope.c     |  4 ++--
 5 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..e94cd03 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
-    vsprintf(message, format, arg);
+    int message_len = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((message_len + 1) * sizeof(char));
+    va_start(arg, format);
+    vsnprintf(message, message_len + 1, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..c71c1e9 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,8 +45,7 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    char* data_str = malloc(50 * sizeof(char));
     char* display_str = NULL;
 
     switch (x64data->type) {
@@ -77,6 +76,7 @@ char* x64data_tostring(X64Data* x64data) {
             break;
         case X64_DATA_STR:
             display_str = sliteral_display_string(x64data->sliteral);
+            data_str = realloc(data_str, (strlen(display_str) + 50) * sizeof(char));
             sprintf(data_str, "\t.ascii\t%s\n", display_str);
             free(display_str);
             break;
diff --git a/src/x64/inst.c b/src/x64/inst.c
index de0bd84..ebe78e7 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,9 +41,21 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    char* src_string = NULL;
+    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
+        src_string = x64ope_tostring(x64inst->src);
+    }
+
+    char* dst_string = NULL;
+    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
+        dst_string = x64ope_tostring(x64inst->dst);
+    }
+
+    int operands_len = 0;
+    operands_len += src_string != NULL ? strlen(src_string) : 0;
+    operands_len += dst_string != NULL ? strlen(dst_string) : 0;
+    char* code_str = malloc((operands_len + 200) * sizeof(char));
+    memset(code_str, 0, (operands_len + 200) * sizeof(char));
 
     char* instcode_string = x64instcode_tostring(x64inst);
     strcat(code_str, "\t");
@@ -51,16 +63,14 @@ char* x64inst_tostring(X64Inst* x64inst) {
     free(instcode_string);
 
     int operand_appears = 0;
-    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
-        char* src_string = x64ope_tostring(x64inst->src);
+    if (src_string != NULL) {
         strcat(code_str, "\t");
         strcat(code_str, src_string);
         free(src_string);
         operand_appears = 1;
     }
 
-    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
-        char* dst_string = x64ope_tostring(x64inst->dst);
+    if (dst_string != NULL) {
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, dst_string);
         free(dst_string);
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..f56b0a9 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,10 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    // name appears in a directive and a label
+    int capacity = 2 * strlen(x64label->name) + 50;
+    char* label_str = malloc(capacity * sizeof(char));
+    memset(label_str, 0, capacity * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..0dd7b64 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,8 +103,8 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int label_len = x64ope->label_name != NULL ? strlen(x64ope->label_name) : 0;
+    char* ope_str = malloc((label_len + 50) * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-- 
2.43.0


From d02e747422b7b41e6bda5e5684a1ceb92d8e8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:41 +0000
Subject: [PATCH 28/51] fix: do not export the labels of string literals

---
 src/x64gen/label.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index f9c31bd..5f3fd70 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -36,6 +36,11 @@ Vector* gen_label_x64code(X64gen* x64gen) {
             break;
     }
 
+    // names that start with a dot are created by the compiler and must not be seen from other files
+    if (immc->label->name[0] == '.' && visibility == X64_VIS_GLOBAL) {
+        visibility = X64_VIS_LOCAL;
+    }
+
     vector_push(codes, new_label_x64(type, visibility, new_string(immc->label->name)));
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From e171ecdf7b829894f54dcfc33326eae80d8401b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:12 +0000
Subject: [PATCH 29/51] fix: diagnose source files whose content cannot be read

---
 src/freader/freader.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..16a10c8 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,5 +1,6 @@
 #include "./freader.h"
 
+#include <limits.h>
 #include <stdlib.h>
 
 FileReader* new_freader(FILE* file_ptr) {
@@ -21,8 +22,18 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     rewind(freader->file_ptr);
 
-    file_content = malloc(file_size + 1);
+    // size of something other than a regular file (a directory, for example) is not that of its content
+    file_content = file_size < LONG_MAX ? malloc(file_size + 1) : NULL;
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (ferror(freader->file_ptr)) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_content[file_size] = '\0';
 
     file_content = realloc(file_content, file_size + 1);
-- 
2.43.0


From 68e2f95e3a19d7df0f985a535e9f00303baa97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:14 +0000
Subject: [PATCH 30/51] fix: diagnose null characters in the source instead of
 ignoring what follows them

---
 src/freader/freader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 16a10c8..afcc87e 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -2,6 +2,7 @@
 
 #include <limits.h>
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -35,6 +36,11 @@ FileReaderReturn* freader_read(FileReader* freader) {
         return new_freaderret_error(err);
     }
     file_content[file_size] = '\0';
+    if ((long)strlen(file_content) < file_size) {
+        free(file_content);
+        err = new_error("source file contains a null character");
+        return new_freaderret_error(err);
+    }
 
     file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
-- 
2.43.0


From 3935d1ae74e636f6dadd15dc04b06c52d6d5cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:15 +0000
Subject: [PATCH 31/51] fix: diagnose an output file that cannot be written

---
 src/main.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c6ae2ec..537458f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,6 +102,10 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: cannot be opened for writing\n", dst_filename);
+        return 1;
+    }
     free(dst_filename);
 
     int x64codes_len = vector_size(x64codes);
@@ -110,7 +114,11 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
+    int write_failed = ferror(dst);
+    if (fclose(dst) != 0 || write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: fail to write output file\n");
+        return 1;
+    }
 
     delete_vector(x64codes);
 
-- 
2.43.0


From 148f4685331bc42988347301e295d2c7633c060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 32/51] fix: parse nested expressions without parsing them
 twice at every level

---
 src/parser/expression.c | 54 ++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..25e3e34 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -17,19 +17,23 @@ ParserReturn* parse_constant_expr(Parser* parser) {
 }
 
 ParserReturn* parse_assignment_expr(Parser* parser) {
+    int is_unary_expr_ast(Ast * ast);
+
     Vector* stack = new_vector(&t_ast);
     Ast* ast = NULL;
     Error* err = NULL;
 
     int terminated = 0;
     while (!terminated) {
-        int index = parser->index;
-
-        parserret_assign(&ast, &err, parse_unary_expr(parser));
+        // an unary expression is parsed as a conditional expression first and is not parsed again
+        // so that the time to parse nested expressions does not grow exponentially with the depth
+        parserret_assign(&ast, &err, parse_conditional_expr(parser));
         if (err != NULL) {
-            parser->index = index;
-            delete_error(err);
-            err = NULL;
+            delete_vector(stack);
+            return new_parserret_error(err);
+        }
+
+        if (!is_unary_expr_ast(ast)) {
             break;
         }
 
@@ -80,22 +84,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
-                parser->index = index;
-                delete_ast(ast);
                 terminated = 1;
                 break;
         }
     }
 
-    parserret_assign(&ast, &err, parse_conditional_expr(parser));
-    if (err != NULL) {
-        delete_vector(stack);
-        return new_parserret_error(err);
-    }
-
-    vector_push(stack, ast);
-
-    ast = vector_pop(stack);
     while (vector_size(stack) > 0) {
         Ast* next_ast = vector_pop(stack);
         vector_push(next_ast->children, ast);
@@ -106,6 +99,33 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
     return new_parserret(ast);
 }
 
+int is_unary_expr_ast(Ast* ast) {
+    switch (ast->type) {
+        case AST_PREINC_EXPR:
+        case AST_PREDEC_EXPR:
+        case AST_ADDR_EXPR:
+        case AST_INDIR_EXPR:
+        case AST_POS_EXPR:
+        case AST_NEG_EXPR:
+        case AST_NOT_EXPR:
+        case AST_LNOT_EXPR:
+        case AST_SIZEOF_EXPR:
+        case AST_SUBSC_EXPR:
+        case AST_CALL_EXPR:
+        case AST_MEMBER_EXPR:
+        case AST_TOMEMBER_EXPR:
+        case AST_POSTINC_EXPR:
+        case AST_POSTDEC_EXPR:
+        case AST_IDENT_EXPR:
+        case AST_INT_EXPR:
+        case AST_CHAR_EXPR:
+        case AST_STRING_EXPR:
+            return 1;
+        default:
+            return 0;
+    }
+}
+
 ParserReturn* parse_conditional_expr(Parser* parser) {
     Ast* ast = NULL;
     Ast* child_ast = NULL;
-- 
2.43.0


From 021433cb8201f61f84c9543817faa23e268602d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 33/51] fix: take the address of struct members

---
 src/resolver/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index ac4460b..49f69c6 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1050,6 +1050,7 @@ ResolverReturn* resolve_address_expr(Resolver* resolver) {
     }
 
     if (child_srt->dtype->type != DTYPE_FUNCTION && child_srt->type != SRT_INDIR_EXPR &&
+        child_srt->type != SRT_TOMEMBER_EXPR &&
         (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("operand of unary & is neither a function designator, "
-- 
2.43.0


From 68ef798c0e4dfe87165c97ee80d92ee397d1b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 34/51] fix: convert arrays and functions to pointers when they
 are cast

---
 src/resolver/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 49f69c6..7945a12 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -968,6 +968,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From 3607d35d4dabd8cccf4d20ab105b9a0e8715de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:48 +0000
Subject: [PATCH 35/51] fix: write the bytes of string literals above 127 as
 three octal digits

---
 src/literal/sliteral.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..5163074 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -48,7 +48,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
     len++;
 
     for (int i = 0; i < sliteral->size; i++) {
-        int c = sliteral->value[i];
+        int c = (unsigned char)sliteral->value[i];
         char* found = strchr(ascii, c);
         if (found != NULL && *found != '\0') {
             sprintf(display_string + len, "%c", c);
-- 
2.43.0


From ac953856ee7f005d47e8577a9e62114b5e8ce8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:06 +0000
Subject: [PATCH 36/51] fix: write alert and vertical tab in strings as escapes
 that the assembler knows

---
 src/x64/data.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index c71c1e9..07775d1 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -9,6 +9,7 @@
 #include <string.h>
 
 X64Data* new_base_x64data(X64DataType type);
+char* assembler_string(char* display_str);
 
 X64Data* new_int_x64data(X64DataType type, IntegerLiteral* iliteral) {
     X64Data* x64data = new_base_x64data(type);
@@ -75,7 +76,7 @@ char* x64data_tostring(X64Data* x64data) {
             free(display_str);
             break;
         case X64_DATA_STR:
-            display_str = sliteral_display_string(x64data->sliteral);
+            display_str = assembler_string(sliteral_display_string(x64data->sliteral));
             data_str = realloc(data_str, (strlen(display_str) + 50) * sizeof(char));
             sprintf(data_str, "\t.ascii\t%s\n", display_str);
             free(display_str);
@@ -86,6 +87,24 @@ char* x64data_tostring(X64Data* x64data) {
     return data_str;
 }
 
+char* assembler_string(char* display_str) {
+    // the assembler does not know the escape sequences for alert and vertical tab
+    char* assembler_str = malloc((2 * strlen(display_str) + 1) * sizeof(char));
+    int len = 0;
+    for (char* c = display_str; *c != '\0'; c++) {
+        if (*c == '\\' && (c[1] == 'a' || c[1] == 'v')) {
+            c++;
+            len += sprintf(assembler_str + len, "\\%03o", *c == 'a' ? '\a' : '\v');
+            continue;
+        }
+        assembler_str[len++] = *c;
+        if (*c == '\\') assembler_str[len++] = *++c;
+    }
+    assembler_str[len] = '\0';
+    free(display_str);
+    return assembler_str;
+}
+
 void delete_x64data(X64Data* x64data) {
     if (x64data->iliteral != NULL) {
         delete_iliteral(x64data->iliteral);
-- 
2.43.0


From 4b3666bc6932ffbb72d1544c0e086cf6f0f6ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:57 +0000
Subject: [PATCH 37/51] fix: scale arithmetic on pointers to structs that are
 defined after the pointer's type is written

---
 src/resolver/expression.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 7945a12..98f3c76 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -7,6 +7,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+void complete_struct_dtype(Resolver* resolver, DType* dtype);
+
 ResolverReturn* resolve_expr(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -959,6 +961,7 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
     if (errs != NULL) {
         return new_resolverret_errors(errs);
     }
+    complete_struct_dtype(resolver, dtype);
 
     resolver->ast = vector_at(ast->children, 1);
     resolverret_assign(&child_srt, &errs, resolve_expr(resolver));
@@ -1548,6 +1551,32 @@ ResolverReturn* resolve_argument_expr_list(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+// sizes of structs which were incomplete when the type was written and have been defined since then
+void complete_struct_dtype(Resolver* resolver, DType* dtype) {
+    switch (dtype->type) {
+        case DTYPE_POINTER:
+            complete_struct_dtype(resolver, dtype->dpointer->to_dtype);
+            break;
+        case DTYPE_ARRAY:
+            complete_struct_dtype(resolver, dtype->darray->of_dtype);
+            break;
+        case DTYPE_FUNCTION:
+            complete_struct_dtype(resolver, dtype->dfunction->return_dtype);
+            break;
+        case DTYPE_STRUCT:
+            if (dtype->dstruct->name != NULL && dtype_isincomplete(dtype)) {
+                DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+                    dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+                    dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+                }
+            }
+            break;
+        default:
+            break;
+    }
+}
+
 ResolverReturn* resolve_member_name_expr(Resolver* resolver) {
     Srt* srt = NULL;
     Ast* ast = resolver->ast;
@@ -1558,6 +1587,7 @@ ResolverReturn* resolve_member_name_expr(Resolver* resolver) {
         DStructMember* member = vector_at(member_dtype->dstruct->members, i);
         if (strcmp(member->name, ast->ident_name) == 0) {
             srt = new_identifier_srt(SRT_IDENT_EXPR, dtype_copy(member->dtype), new_string(member->name));
+            complete_struct_dtype(resolver, srt->dtype);
             return new_resolverret(srt);
         }
     }
@@ -1625,6 +1655,7 @@ ResolverReturn* resolve_identifier_expr(Resolver* resolver) {
     }
 
     DType* ident_dtype = dtype_copy(symbol->dtype);
+    complete_struct_dtype(resolver, ident_dtype);
     char* ident_name = new_string(symbol->name);
     srt = new_identifier_srt(SRT_IDENT_EXPR, ident_dtype, ident_name);
     return new_resolverret(srt);
-- 
2.43.0


From b79724d4290e9a9aad2caa07b9544b9f48a7cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:48 +0000
Subject: [PATCH 38/51] fix: diagnose struct tags that are tags of enumerations
 instead of crashing

---
 src/resolver/declaration.c | 7 +++++++
 src/resolver/expression.c  | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c9b4826..ec1dbea 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -226,6 +226,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not a tag of a struct", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 98f3c76..0883905 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1425,7 +1425,8 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
-    if (resolver->expr_dtype == NULL) {
+    if (resolver->expr_dtype == NULL || resolver->expr_dtype->type != DTYPE_STRUCT) {
+        resolver->expr_dtype = original_member_dtype;
         errs = new_vector(&t_error);
         err = new_error("struct '%s' is incomplete", lhs_srt->dtype->dpointer->to_dtype->dstruct->name);
         vector_push(errs, err);
-- 
2.43.0


From 232b122510b42c8aeae6c521264d34676ce925c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:09 +0000
Subject: [PATCH 39/51] fix: keep struct types apart from those whose tag they
 hide

---
 src/resolver/declaration.c | 16 +++++++++++++---
 src/resolver/expression.c  |  4 ++--
 src/tagtab/tagtab.c        | 26 ++++++++++++++++++++++++++
 src/tagtab/tagtab.h        |  2 ++
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index ec1dbea..3bf8266 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -207,6 +207,11 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     Vector* members = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+        if (struct_name != NULL && tagtable_can_define(resolver->tag_table, struct_name) &&
+            tagtable_search(resolver->tag_table, struct_name) != NULL) {
+            DType* hiding_dtype = tagtable_declare_hiding_struct(resolver->tag_table, struct_name);
+            struct_name = new_string(hiding_dtype->dstruct->name);
+        }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
@@ -233,6 +238,11 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
             free(struct_name);
             return new_resolverret_dtype_errors(errs);
         }
+        if (unnamed_dtype != NULL && unnamed_dtype->dstruct->name != NULL) {
+            free(struct_name);
+            struct_name = new_string(unnamed_dtype->dstruct->name);
+            unnamed_dtype = tagtable_search_struct(resolver->tag_table, struct_name);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -586,7 +596,7 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* complete_dtype = NULL;
     switch (dtype->type) {
         case DTYPE_STRUCT:
-            complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+            complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
                 break;
 
@@ -1041,7 +1051,7 @@ ResolverReturn* resolve_initializer(Resolver* resolver) {
     } else if (dtype->type == DTYPE_ARRAY && dtype->darray->of_dtype->type == DTYPE_CHAR) {
         resolverret_assign(&srt, &errs, resolve_string_initializer(resolver));
     } else if (dtype->type == DTYPE_STRUCT && dtype->dstruct->members == NULL) {
-        resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
     } else if (dtype->type == DTYPE_ARRAY || dtype->type == DTYPE_STRUCT) {
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
@@ -1093,7 +1103,7 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->members == NULL) {
-                resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             }
             // resolve_zero_aggregate_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_aggregate_initializer(resolver));
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 0883905..7a90798 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1422,7 +1422,7 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
     DType* original_member_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     if (resolver->expr_dtype->dstruct->members == NULL) {
-        resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
+        resolver->expr_dtype = tagtable_search_struct(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
     if (resolver->expr_dtype == NULL || resolver->expr_dtype->type != DTYPE_STRUCT) {
@@ -1566,7 +1566,7 @@ void complete_struct_dtype(Resolver* resolver, DType* dtype) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->name != NULL && dtype_isincomplete(dtype)) {
-                DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                DType* complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
                 if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
                     dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
                     dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..d312d23 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -1,6 +1,7 @@
 #include "./tagtab.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 TagTable* new_tagtable(void) {
     TagTable* table = malloc(sizeof(TagTable));
@@ -35,6 +36,31 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+// struct which a struct type refers to by its name
+DType* tagtable_search_struct(TagTable* table, char* name) {
+    while (table != NULL) {
+        DType* dtype = map_get(table->map, name);
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT &&
+            (dtype->dstruct->name == NULL || strcmp(dtype->dstruct->name, name) == 0)) {
+            return dtype;
+        }
+        table = table->outer_scope;
+    }
+    return NULL;
+}
+
+// struct whose tag hides the same tag of an outer scope; its types refer to it by a name which is not visible yet
+DType* tagtable_declare_hiding_struct(TagTable* table, char* name) {
+    char* hiding_name = new_string(name);
+    while (tagtable_search(table, hiding_name) != NULL) {
+        hiding_name = realloc(hiding_name, (strlen(hiding_name) + 2) * sizeof(char));
+        strcat(hiding_name, "'");
+    }
+    DType* dtype = new_named_struct_dtype(hiding_name, 0, 0);
+    map_add(table->map, name, dtype);
+    return dtype;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..16baeef 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -17,6 +17,8 @@ int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
+DType* tagtable_search_struct(TagTable* table, char* name);
+DType* tagtable_declare_hiding_struct(TagTable* table, char* name);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0


From b07ff05523c11e5690da409eba561286e5abe750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:46 +0000
Subject: [PATCH 40/51] fix: hash strings with bytes above 127 to a valid index
 instead of crashing

---
 src/common/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..05f4fe2 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -66,7 +66,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From ad099975c8c8e745cf5f9a91851547a46d352cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:37 +0000
Subject: [PATCH 41/51] fix: diagnose uses of typedef names whose definition
 has errors instead of crashing

---
 src/resolver/declaration.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 3bf8266..e0f103a 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -584,10 +584,20 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
 
 ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* dtype = NULL;
+    Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
 
+    // definition of typedef-name may have errors, and typedef-name may be hidden
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        errs = new_vector(&t_error);
+        err = new_error("identifier '%s' is not typedef-name", ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_dtype_errors(errs);
+    }
+
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (!dtype_isincomplete(dtype)) {
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 95ad6c639c1130240ce970c5c460d4bfe5135e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:52 +0000
Subject: [PATCH 42/51] fix: accept typedef names of functions that return void

---
 src/resolver/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index e0f103a..59091c0 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -849,7 +849,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                 }
 
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
-                    resolver->specifier_dtype->type != DTYPE_VOID) {
+                    plug_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
                     err = new_error("function returning incomplete type other than void is invalid");
                     vector_push(errs, err);
-- 
2.43.0


From 46978d78648d1ca9738b03fa1b05ba891f437a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:28 +0000
Subject: [PATCH 43/51] fix: do not load values of structs and void expressions
 into registers

---
 src/x64gen/datainst.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 56a939a..71a3f88 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -14,6 +14,12 @@ Vector* gen_load_x64code(X64gen* x64gen) {
     ImmcOpe* immc_dst = immc->inst->dst;
     ImmcOpe* immc_src = immc->inst->fst_src;
 
+    if (immc_dst->suffix == IMMC_SUFFIX_NONE) {
+        // values of structs and void expressions are not held in registers
+        liveseqs_next(x64gen->liveseqs);
+        return codes;
+    }
+
     X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
     int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
 
-- 
2.43.0


From 50cffd3a3101c38dfcbf0d2a3a5bbf1e5fc72c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:54 +0000
Subject: [PATCH 44/51] fix: keep one cell per key in maps when a key is added
 again

---
 src/map/map.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..c0e0c63 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,14 +81,30 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int vacant = -1;
+    int found = 0;
+    while (cell != NULL) {
+        if (!cell->deleted && map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
+        if (cell->deleted && vacant < 0) {
+            vacant = hash;
+        }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
+        cell = map->container[hash];
+    }
+
+    if (!found && vacant >= 0) {
+        hash = vacant;
         cell = map->container[hash];
     }
 
@@ -96,6 +112,9 @@ void map_add(Map* map, void* key, void* value) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
+    if (found) {
+        return;
+    }
     map->size++;
 
     int std_capacity = 2 * (map->size + 1) - 1;
-- 
2.43.0


From c9170ee64f27391e2cf2853062dc8ca18ef36c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:10 +0000
Subject: [PATCH 45/51] fix: keep a struct tag declared in an inner scope apart
 from an incomplete outer one

---
 src/resolver/declaration.c | 12 ++++++++++--
 src/tagtab/tagtab.c        | 11 ++++++++---
 src/tagtab/tagtab.h        |  1 +
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 59091c0..889ab78 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -25,6 +25,15 @@ ResolverReturn* resolve_decl(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    DType* dtype = resolver->specifier_dtype;
+    if (dtype->type == DTYPE_TYPEDEF) {
+        dtype = dtype->dtypedef->defined_dtype;
+    }
+    if (dtype->type == DTYPE_STRUCT && dtype->dstruct->name != NULL &&
+        tagtable_search(resolver->tag_table, dtype->dstruct->name) == NULL) {
+        tagtable_declare_hiding_struct(resolver->tag_table, new_string(dtype->dstruct->name));
+    }
+
     if (vector_size(ast->children) == 1) {
         srt = new_srt(SRT_DECL_LIST, 0);
         delete_dtype(resolver->specifier_dtype);
@@ -207,8 +216,7 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     Vector* members = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
-        if (struct_name != NULL && tagtable_can_define(resolver->tag_table, struct_name) &&
-            tagtable_search(resolver->tag_table, struct_name) != NULL) {
+        if (struct_name != NULL && tagtable_hides(resolver->tag_table, struct_name)) {
             DType* hiding_dtype = tagtable_declare_hiding_struct(resolver->tag_table, struct_name);
             struct_name = new_string(hiding_dtype->dstruct->name);
         }
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index d312d23..e6a7eb1 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -21,7 +21,13 @@ TagTable* tagtable_copy(TagTable* table) {
 }
 
 int tagtable_can_define(TagTable* table, char* name) {
-    return map_get(table->map, name) == NULL;
+    DType* dtype = map_get(table->map, name);
+    return dtype == NULL || (dtype->type == DTYPE_STRUCT && dtype->dstruct->name != NULL &&
+                             strcmp(dtype->dstruct->name, name) == 0);
+}
+
+int tagtable_hides(TagTable* table, char* name) {
+    return map_get(table->map, name) == NULL && tagtable_search(table, name) != NULL;
 }
 
 DType* tagtable_search(TagTable* table, char* name) {
@@ -40,8 +46,7 @@ DType* tagtable_search(TagTable* table, char* name) {
 DType* tagtable_search_struct(TagTable* table, char* name) {
     while (table != NULL) {
         DType* dtype = map_get(table->map, name);
-        if (dtype != NULL && dtype->type == DTYPE_STRUCT &&
-            (dtype->dstruct->name == NULL || strcmp(dtype->dstruct->name, name) == 0)) {
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT && dtype->dstruct->name == NULL) {
             return dtype;
         }
         table = table->outer_scope;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 16baeef..20a3bc2 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -14,6 +14,7 @@ struct TagTable {
 TagTable* new_tagtable(void);
 TagTable* tagtable_copy(TagTable* table);
 int tagtable_can_define(TagTable* table, char* name);
+int tagtable_hides(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
-- 
2.43.0


From 6ce0a5e0a23665db50b462e4f66461b7a921b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 46/51] fix: convert case labels to the type of the condition
 and compare wide labels in registers

---
 src/immcgen/statement.c  |  7 +++++++
 src/immcgen/util.c       |  1 -
 src/immcgen/util.h       |  1 +
 src/resolver/resolver.c  |  1 +
 src/resolver/resolver.h  |  1 +
 src/resolver/statement.c | 10 ++++++++++
 6 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/immcgen/statement.c b/src/immcgen/statement.c
index 0891807..2e39f18 100644
--- a/src/immcgen/statement.c
+++ b/src/immcgen/statement.c
@@ -190,6 +190,13 @@ Vector* gen_switch_stmt_immcode(Immcgen* immcgen) {
         IntegerLiteral* case_value_iliteral = pair_second(label_value_pair);
         ImmcSuffix suffix = immcsuffix_get(iliteral_nbytes(case_value_iliteral));
         ImmcOpe* case_value = new_int_immcope(suffix, iliteral_copy(case_value_iliteral));
+        if (!iliteral_isimmediate(case_value_iliteral)) {
+            immcgen->next_reg_id++;
+            ImmcRegister* value_reg = new_immcreg(immcgen->next_reg_id, 0);
+            ImmcOpe* value_ope = new_reg_immcope(suffix, value_reg);
+            vector_push(cases_codes, new_inst_immc(IMMC_INST_LOAD, value_ope, case_value, NULL));
+            case_value = immcope_copy(value_ope);
+        }
 
         vector_push(cases_codes, new_inst_immc(IMMC_INST_JEQ, case_label, immcope_copy(reg), case_value));
     }
diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index a98a67b..cafed82 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -8,7 +8,6 @@
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
-int iliteral_isimmediate(IntegerLiteral* iliteral);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/util.h b/src/immcgen/util.h
index 793adfd..0605954 100644
--- a/src/immcgen/util.h
+++ b/src/immcgen/util.h
@@ -15,5 +15,6 @@ ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index);
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen);
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral);
+int iliteral_isimmediate(IntegerLiteral* iliteral);
 
 #endif
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 3a8d2f6..6c2171f 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -12,6 +12,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->tag_table = new_tagtable();
     resolver->inside_loop = 0;
     resolver->switch_cases = NULL;
+    resolver->switch_nbytes = 0;
     resolver->switch_default_exists = 0;
     resolver->return_dtype = NULL;
     resolver->specifier_dtype = NULL;
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 7d6867d..b904a2f 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -15,6 +15,7 @@ typedef struct Resolver {
     TagTable* tag_table;
     int inside_loop;
     Vector* switch_cases;
+    int switch_nbytes;
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index f8ddaa9..066b7c3 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -3,6 +3,7 @@
 #include "./declaration.h"
 #include "./expression.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -101,6 +102,12 @@ ResolverReturn* resolve_case_stmt(Resolver* resolver) {
     }
 
     child_srt = perform_integer_promotion(child_srt);
+    long long case_value = child_srt->iliteral->signed_value;
+    if (resolver->switch_nbytes == 4 && (case_value < INT_MIN || INT_MAX < case_value)) {
+        // labels are converted to the type of the condition
+        delete_srt(child_srt);
+        child_srt = new_iliteral_srt(new_integer_dtype(DTYPE_INT), new_signed_iliteral(INTEGER_INT, (int)case_value));
+    }
     vector_push(srt->children, child_srt);
 
     IntegerLiteral* case_value_iliteral = child_srt->iliteral;
@@ -395,9 +402,11 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
     }
 
     Vector* original_switch_cases = resolver->switch_cases;
+    int original_switch_nbytes = resolver->switch_nbytes;
     int original_switch_default_exists = resolver->switch_default_exists;
 
     resolver->switch_cases = new_vector(&t_iliteral);
+    resolver->switch_nbytes = dtype_nbytes(child_srt->dtype);
     resolver->switch_default_exists = 0;
 
     resolver->ast = vector_at(ast->children, 1);
@@ -406,6 +415,7 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
 
     delete_vector(resolver->switch_cases);
     resolver->switch_cases = original_switch_cases;
+    resolver->switch_nbytes = original_switch_nbytes;
     resolver->switch_default_exists = original_switch_default_exists;
 
     if (errs != NULL) {
-- 
2.43.0


From 233ed9cc0421e8d365d1aadf9ae7e4db6d3f3077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:02 +0000
Subject: [PATCH 47/51] fix: reduce constant shift counts to the range the
 processor uses

---
 src/x64gen/shrotinst.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index c971942..749bb87 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -46,7 +46,15 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            // shift count is an 8-bit immediate: only its low bits are used as in %cl
+            IntegerLiteral* count = iliteral_copy(immc_snd_src->iliteral);
+            unsigned int count_mask = suffix == X64_SUFFIX_QUAD ? 63 : 31;
+            if (iliteral_isunsigned(count)) {
+                count->unsigned_value &= count_mask;
+            } else {
+                count->signed_value &= count_mask;
+            }
+            X64Ope* snd_src = new_int_x64ope(suffix, count);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
-- 
2.43.0


From 23bbcde65668375b0d40bbfeb3c73b20600c114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:41 +0000
Subject: [PATCH 48/51] fix: do not write past strings that initialize members
 of local objects

---
 src/immcgen/declaration.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 76ddc3c..9d444fb 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -7,6 +7,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 Vector* gen_decl_list_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
@@ -178,18 +179,42 @@ Vector* gen_global_string_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_local_string_initializer_immcode(Immcgen* immcgen) {
+    int get_string_store_nbytes(int offset, int size);
+
     Vector* codes = new_vector(&t_immc);
     Srt* srt = vector_at(immcgen->srt->children, 0);
 
-    ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset);
-    ImmcOpe* src = new_str_immcope(sliteral_copy(srt->sliteral));
+    int index = 0, size = srt->sliteral->size;
+    while (index < size) {
+        int offset = immcgen->initialized_offset - index;
+        int num_bytes = get_string_store_nbytes(offset, size - index);
+        char* value = malloc(num_bytes * sizeof(char));
+        memcpy(value, srt->sliteral->value + index, num_bytes);
 
-    vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        ImmcOpe* dst = new_mem_immcope(offset);
+        ImmcOpe* src = new_str_immcope(new_sliteral(value, num_bytes));
+
+        vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        index += num_bytes;
+    }
     immcgen->initialized_offset -= dtype_nbytes(immcgen->initialized_dtype);
 
     return codes;
 }
 
+// the last bytes of a string are stored as a unit of 1, 2, 4 or 8 bytes, which may exceed the string;
+// this is only safe when the string starts at a boundary of 4 bytes like objects do
+int get_string_store_nbytes(int offset, int size) {
+    int num_rest_bytes = size % 8;
+    if (offset % 4 == 0 || num_rest_bytes <= 2 || num_rest_bytes == 4) {
+        return size;
+    }
+    if (size > 8) {
+        return size - num_rest_bytes;
+    }
+    return size > 4 ? 4 : 2;
+}
+
 Vector* gen_struct_initializer_immcode(Immcgen* immcgen) {
     Vector* gen_global_struct_initializer_immcode(Immcgen * immcgen);
     Vector* gen_local_struct_initializer_immcode(Immcgen * immcgen);
-- 
2.43.0


From b5eae566c400280ea94d88338660b9808c103eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:30 +0000
Subject: [PATCH 49/51] fix: accept string literals for arrays of characters
 inside initializer lists

---
 src/resolver/declaration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 889ab78..6c1fc7c 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1217,7 +1217,10 @@ ResolverReturn* resolve_aggregate_initializer(Resolver* resolver) {
 
         resolver->initialized_dtype = dtype_aggregate_at(dtype, aggregate_index);
 
-        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST) {
+        int is_string = child_ast->type == AST_STRING_EXPR && resolver->initialized_dtype->type == DTYPE_ARRAY &&
+                        resolver->initialized_dtype->darray->of_dtype->type == DTYPE_CHAR;
+
+        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST && !is_string) {
             resolver->ast = ast;
             resolver->is_nested_initializing = 1;
             resolverret_assign(&child_srt, &child_errs, resolve_initializer(resolver));
-- 
2.43.0


From ade39a1a83e466d83f9319baa54cc499f2e8e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 50/51] fix: do not keep the registers of a switch body alive
 from its labels on

---
 src/immcgen/statement.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/statement.c b/src/immcgen/statement.c
index 2e39f18..c4617d8 100644
--- a/src/immcgen/statement.c
+++ b/src/immcgen/statement.c
@@ -166,6 +166,13 @@ Vector* gen_switch_stmt_immcode(Immcgen* immcgen) {
     Vector* cases_codes = new_vector(&t_immc);
     ImmcOpe* reg = gen_child_reg_immcope(immcgen, cases_codes, 0);
 
+    // registers are numbered in order of their definitions: labels are compared before the body
+    int value_reg_id = -1;
+    if (reg->suffix == IMMC_SUFFIX_QUAD || reg->reg->is_unsigned) {
+        immcgen->next_reg_id++;
+        value_reg_id = immcgen->next_reg_id;
+    }
+
     Vector* body_codes = new_vector(&t_immc);
     immcgen->label_id++;
     int break_label_id = immcgen->label_id;
@@ -191,8 +198,7 @@ Vector* gen_switch_stmt_immcode(Immcgen* immcgen) {
         ImmcSuffix suffix = immcsuffix_get(iliteral_nbytes(case_value_iliteral));
         ImmcOpe* case_value = new_int_immcope(suffix, iliteral_copy(case_value_iliteral));
         if (!iliteral_isimmediate(case_value_iliteral)) {
-            immcgen->next_reg_id++;
-            ImmcRegister* value_reg = new_immcreg(immcgen->next_reg_id, 0);
+            ImmcRegister* value_reg = new_immcreg(value_reg_id, 0);
             ImmcOpe* value_ope = new_reg_immcope(suffix, value_reg);
             vector_push(cases_codes, new_inst_immc(IMMC_INST_LOAD, value_ope, case_value, NULL));
             case_value = immcope_copy(value_ope);
-- 
2.43.0


From d126fcf16c3c9984eb8065dd810e3e39982c7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 51/51] fix: diagnose enumeration constants that are not
 representable as int

---
 src/resolver/declaration.c | 18 +++++++++++++++++-
 src/resolver/resolver.h    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 6c1fc7c..51566f4 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,6 +7,7 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -547,6 +548,13 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     }
 
     if (vector_size(ast->children) == 1) {
+        if (resolver->default_enum_value > INT_MAX) {
+            errs = new_vector(&t_error);
+            err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+            vector_push(errs, err);
+            return new_resolverret_denummember_errors(errs);
+        }
+
         char* member_name = new_string(child_ast->ident_name);
         DType* member_dtype = new_integer_dtype(DTYPE_INT);
         IntegerLiteral* member_iliteral = new_signed_iliteral(INTEGER_INT, resolver->default_enum_value);
@@ -576,6 +584,14 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
+    if (enum_const_srt->iliteral->signed_value > INT_MAX) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+        vector_push(errs, err);
+        delete_srt(enum_const_srt);
+        return new_resolverret_denummember_errors(errs);
+    }
+
     int enum_value = enum_const_srt->iliteral->signed_value;
     delete_srt(enum_const_srt);
 
@@ -585,7 +601,7 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     symboltable_define_integer(resolver->symbol_table, member_name, member_dtype, member_iliteral);
 
     member = new_denummember(new_string(child_ast->ident_name), enum_value);
-    resolver->default_enum_value = enum_value + 1;
+    resolver->default_enum_value = enum_value + 1ll;
 
     return new_resolverret_denummember(member);
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index b904a2f..cef7085 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -19,7 +19,7 @@ typedef struct Resolver {
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
-    int default_enum_value;
+    long long default_enum_value;
     DType* initialized_dtype;
     int initialized_offset;
     int is_nested_initializing;
-- 
2.43.0

