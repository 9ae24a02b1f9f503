From 7bf7d95adb60d3b2448b31c0e5863481acad2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 01/85] fix: evaluate remaining operands of nested && and || in
 jump conditions

The operands of a nested logical expression inside an if, while or repeat-while
condition shared their jump targets with the enclosing expression, so for example
'if (a && b) || c' did not evaluate c when a was falsy.
---
 core/kos_compiler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 410e142..53f42da 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1752,6 +1752,11 @@ static int32_t negate_jump_opcode(int32_t opcode)
     return (opcode == INSTR_JUMP_COND) ? INSTR_JUMP_NOT_COND : INSTR_JUMP_COND;
 }
 
+static int gen_cond_jump(KOS_COMP_UNIT      *program,
+                         const KOS_AST_NODE *node,
+                         int32_t             opcode,
+                         JUMP_ARRAY         *jump_array);
+
 static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
                                const KOS_AST_NODE *node,
                                int32_t             opcode,
@@ -1777,7 +1782,7 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, opcode, jump_array, near_jump_array));
+            TRY(gen_cond_jump(program, node, opcode, jump_array));
 
             node = node->next;
             assert(node);
@@ -1788,7 +1793,7 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, negate_jump_opcode(opcode), near_jump_array, jump_array));
+            TRY(gen_cond_jump(program, node, negate_jump_opcode(opcode), near_jump_array));
 
             node = node->next;
             assert(node);
-- 
2.43.0


From 8c238412fb78fb7f189d219498f8856c885bfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 02/85] fix: throw when NaN is converted to integer

NaN passed the range check and was then cast to int64_t, which is undefined behavior,
e.g. in '~math.nan' or when NaN was used as an index.
---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..f940108 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -180,7 +180,7 @@ int KOS_get_integer(KOS_CONTEXT ctx,
 
         case OBJ_FLOAT: {
             const double number = OBJPTR(FLOAT, obj_id)->value;
-            if (number <= -9223372036854775808.0 || number >= 9223372036854775808.0) {
+            if ( ! (number > -9223372036854775808.0 && number < 9223372036854775808.0)) {
                 KOS_raise_printf(ctx, "number %f is out of range for conversion to integer", number);
                 error = KOS_ERROR_EXCEPTION;
             }
-- 
2.43.0


From 7c912375a25317e1b27fe6c28a929293f729f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:51 +0000
Subject: [PATCH 03/85] fix: reject unrepresentable floats when folding
 conversions to integer

The compiler cast constant NaN and out of range floats to int64_t in '~' and in constant
indices, which is undefined behavior; '~1e300' produced a bogus constant instead of an error.
---
 core/kos_compiler.c       | 2 ++
 core/kos_compiler_optim.c | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 53f42da..217a671 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -3551,6 +3551,8 @@ static int maybe_int(const KOS_AST_NODE *node,
         *value = numeric.u.i;
     else {
         assert(numeric.type == KOS_FLOAT_VALUE);
+        if ( ! (numeric.u.d > -9223372036854775808.0 && numeric.u.d < 9223372036854775808.0))
+            return 0;
         *value = (int64_t)floor(numeric.u.d);
     }
 
diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index e8a5a86..3cfca43 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1302,7 +1302,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         assert(op != OT_ADD && op != OT_SUB && op != OT_MUL && op != OT_DIV && op != OT_MOD);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
-            if (numeric_a.u.d <= -9223372036854775808.0 || numeric_a.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &a->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1312,7 +1312,7 @@ static int optimize_binary_op(KOS_COMP_UNIT      *program,
         }
 
         if (numeric_b.type == KOS_FLOAT_VALUE) {
-            if (numeric_b.u.d <= -9223372036854775808.0 || numeric_b.u.d >= 9223372036854775808.0) {
+            if ( ! (numeric_b.u.d > -9223372036854775808.0 && numeric_b.u.d < 9223372036854775808.0)) {
                 program->error_str   = str_err_number_out_of_range;
                 program->error_token = &b->token;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
@@ -1461,6 +1461,11 @@ static int optimize_unary_op(KOS_COMP_UNIT      *program,
         assert(op == OT_NOT);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
+            if ( ! (numeric_a.u.d > -9223372036854775808.0 && numeric_a.u.d < 9223372036854775808.0)) {
+                program->error_str   = str_err_number_out_of_range;
+                program->error_token = &a->token;
+                return KOS_ERROR_COMPILE_FAILED;
+            }
             numeric_a.u.i = (int64_t)floor(numeric_a.u.d);
             numeric_a.type = KOS_INTEGER_VALUE;
         }
-- 
2.43.0


From 2853f3f1c8adb9f09a5dbe0762486c9e3c14d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:26 +0000
Subject: [PATCH 04/85] fix: keep side effects of literals used as conditions

The optimizer treated array, object, class, function and interpolated string literals
as constant conditions and dropped their evaluation, so for example the call in
'if [f()] { }' was never made.
---
 core/kos_compiler_optim.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 3cfca43..d0f626d 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -193,12 +193,10 @@ int kos_node_is_truthy(KOS_COMP_UNIT      *program,
     if ((node->type == NT_BOOL_LITERAL    && node->token.keyword == KW_TRUE) ||
         (node->type == NT_NUMERIC_LITERAL && node->token.length == 1 && *node->token.begin != '0') ||
         (node->type == NT_STRING_LITERAL)      ||
-        (node->type == NT_FUNCTION_LITERAL)    ||
-        /* Note: optimizer will remove side effects for these: */
-        (node->type == NT_CLASS_LITERAL)       ||
-        (node->type == NT_ARRAY_LITERAL)       ||
-        (node->type == NT_OBJECT_LITERAL)      ||
-        (node->type == NT_INTERPOLATED_STRING)) {
+        /* Literals with children are always truthy, but the children can have side effects
+         * (elements, default arguments, etc.), which must not be optimized away. */
+        (node->type == NT_ARRAY_LITERAL  && ! node->children) ||
+        (node->type == NT_OBJECT_LITERAL && ! node->children)) {
 
         return 1;
     }
-- 
2.43.0


From a3639bd2de677346ec14bf385452c832b97d9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:00 +0000
Subject: [PATCH 05/85] fix: restore outer catch when break or continue leaves
 a try section

---
 core/kos_compiler.c | 130 ++++++++++++++++++--------------------------
 core/kos_compiler.h |   1 -
 2 files changed, 53 insertions(+), 78 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 217a671..1a3171b 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2147,18 +2147,6 @@ static void finish_fallthrough(KOS_COMP_UNIT *program)
     }
 }
 
-/* Saves last try scope before the loop, used for restoring catch offset */
-static KOS_SCOPE *push_try_scope(KOS_COMP_UNIT *program)
-{
-    KOS_SCOPE *prev_try_scope = program->cur_frame->last_try_scope;
-    KOS_SCOPE *scope          = find_try_scope(program->scope_stack);
-
-    if (scope)
-        program->cur_frame->last_try_scope = scope;
-
-    return prev_try_scope;
-}
-
 static int repeat(KOS_COMP_UNIT      *program,
                   const KOS_AST_NODE *node)
 {
@@ -2167,7 +2155,6 @@ static int repeat(KOS_COMP_UNIT      *program,
     const int       loop_start_offs = program->cur_offs;
     KOS_REG        *reg             = KOS_NULL;
     KOS_BREAK_OFFS *old_break_offs  = program->cur_frame->break_offs;
-    KOS_SCOPE      *prev_try_scope  = push_try_scope(program);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2203,8 +2190,6 @@ static int repeat(KOS_COMP_UNIT      *program,
     if (reg)
         free_reg(program, reg);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
-
 cleanup:
     return error;
 }
@@ -2215,7 +2200,6 @@ static int while_stmt(KOS_COMP_UNIT      *program,
     int                 error          = KOS_SUCCESS;
     const KOS_AST_NODE *cond_node      = node->children;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
 
     assert(cond_node);
 
@@ -2255,8 +2239,6 @@ static int while_stmt(KOS_COMP_UNIT      *program,
         finish_break_continue(program, continue_tgt_offs, old_break_offs);
     }
 
-    program->cur_frame->last_try_scope = prev_try_scope;
-
 cleanup:
     return error;
 }
@@ -2452,7 +2434,6 @@ static int for_in(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2636,8 +2617,6 @@ static int for_in(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
-
 cleanup:
     return error;
 }
@@ -2655,7 +2634,6 @@ static int for_range(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
     KOS_NODE_TYPE       lhs_type;
     int                 decrement      = 0;
     uint32_t            initial_jump_entry;
@@ -2852,8 +2830,6 @@ static int for_range(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
-
 cleanup:
     return error;
 }
@@ -2935,15 +2911,6 @@ static int break_continue_fallthrough(KOS_COMP_UNIT      *program,
 
     TRY(push_break_offs(program, (KOS_NODE_TYPE)node->type));
 
-    if (program->cur_frame->last_try_scope) {
-
-        push_scope(program, node);
-
-        TRY(restore_catch(program, program->cur_frame->last_try_scope));
-
-        pop_scope(program);
-    }
-
     TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
     TRY(gen_instr1(program, INSTR_JUMP, 0));
 
@@ -3191,6 +3158,52 @@ static void update_child_scope_catch(KOS_COMP_UNIT *program)
     program->scope_stack->catch_ref.child_scopes = KOS_NULL;
 }
 
+/* When break, continue or fallthrough leaves the try section, the parent scope's
+ * catch must be restored (and the defer section executed) on the way out. */
+static int leave_try_section(KOS_COMP_UNIT      *program,
+                             KOS_BREAK_OFFS     *try_break_offs,
+                             const KOS_AST_NODE *defer_node)
+{
+    static const KOS_NODE_TYPE node_types[3] = { NT_BREAK, NT_CONTINUE, NT_FALLTHROUGH };
+    int                        error         = KOS_SUCCESS;
+    unsigned                   i;
+
+    for (i = 0; i < sizeof(node_types) / sizeof(node_types[0]); i++) {
+
+        const KOS_NODE_TYPE type  = node_types[i];
+        KOS_BREAK_OFFS     *break_offs;
+        int                 found = 0;
+
+        for (break_offs = try_break_offs; break_offs; break_offs = break_offs->next) {
+
+            assert(break_offs->type == NT_CONTINUE ||
+                   break_offs->type == NT_BREAK    ||
+                   break_offs->type == NT_FALLTHROUGH);
+
+            if (break_offs->type == type) {
+                set_jump_target(program, break_offs->entry, program->cur_offs);
+                found = 1;
+            }
+        }
+
+        if ( ! found)
+            continue;
+
+        TRY(restore_parent_scope_catch(program));
+
+        if (defer_node)
+            TRY(process_scope(program, defer_node));
+
+        TRY(push_break_offs(program, type));
+
+        TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
+        TRY(gen_instr1(program, INSTR_JUMP, 0));
+    }
+
+cleanup:
+    return error;
+}
+
 static int try_stmt(KOS_COMP_UNIT      *program,
                     const KOS_AST_NODE *node)
 {
@@ -3281,13 +3294,18 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
     if (node_type == NT_TRY_CATCH) {
 
-        uint32_t jump_end_entry;
+        KOS_BREAK_OFFS *try_break_offs = program->cur_frame->break_offs;
+        uint32_t        jump_end_entry;
+
+        program->cur_frame->break_offs = KOS_NULL;
 
         TRY(restore_parent_scope_catch(program));
 
         TRY(add_jump_instr(program, &jump_end_entry));
         TRY(gen_instr1(program, INSTR_JUMP, 0));
 
+        TRY(leave_try_section(program, try_break_offs, KOS_NULL));
+
         update_child_scope_catch(program);
 
         set_jump_target(program, catch_entry, program->cur_offs);
@@ -3341,49 +3359,7 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
         /* Defer section for break, continue and fallthrough */
 
-        if (try_break_offs) {
-
-            KOS_BREAK_OFFS *break_offs    = try_break_offs;
-            int             jump_offs[3]  = { 0, 0, 0 };
-            KOS_NODE_TYPE   node_types[3] = { NT_BREAK, NT_CONTINUE, NT_FALLTHROUGH };
-            int             i;
-
-            while (break_offs) {
-
-                assert(break_offs->type == NT_CONTINUE ||
-                       break_offs->type == NT_BREAK    ||
-                       break_offs->type == NT_FALLTHROUGH);
-
-                for (i = 0; i < (int)(sizeof(jump_offs) / sizeof(jump_offs[0])); i++)
-                    if (break_offs->type == node_types[i]) {
-                        jump_offs[i] = 1;
-                        break;
-                    }
-
-                break_offs = break_offs->next;
-            }
-
-            for (i = 0; i < (int)(sizeof(jump_offs) / sizeof(jump_offs[0])); i++) {
-
-                const KOS_NODE_TYPE type = node_types[i];
-
-                if ( ! jump_offs[i])
-                    continue;
-
-                for (break_offs = try_break_offs; break_offs; break_offs = break_offs->next)
-                    if (break_offs->type == type)
-                        set_jump_target(program, break_offs->entry, program->cur_offs);
-
-                TRY(restore_parent_scope_catch(program));
-
-                TRY(process_scope(program, defer_node));
-
-                TRY(push_break_offs(program, type));
-
-                TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
-                TRY(gen_instr1(program, INSTR_JUMP, 0));
-            }
-        }
+        TRY(leave_try_section(program, try_break_offs, defer_node));
 
         /* Defer section for return statement */
 
diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index 15458ef..5219302 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -115,7 +115,6 @@ typedef struct KOS_FRAME_S {
     const KOS_TOKEN            *fun_token;
     KOS_BREAK_OFFS             *break_offs;
     KOS_RETURN_OFFS            *return_offs;      /* For return statements inside finally clause (defer) */
-    KOS_SCOPE                  *last_try_scope;
     const KOS_TOKEN            *yield_token;
     struct KOS_COMP_FUNCTION_S *constant;         /* The template for the constant object, used with LOAD.CONST */
     int                         num_def_used;     /* Number of used default args, for optimization              */
-- 
2.43.0


From 89758cbe923b12870d28755850a0ae92cb3f5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:37 +0000
Subject: [PATCH 06/85] fix: don't overwrite class prototype when calling a
 constructor with closures

---
 core/kos_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/kos_stack.c b/core/kos_stack.c
index 5a0c965..daa75a4 100644
--- a/core/kos_stack.c
+++ b/core/kos_stack.c
@@ -256,7 +256,9 @@ int kos_stack_push(KOS_CONTEXT ctx,
          * we still need to have 'room' left */
         TRY(push_new_reentrant_stack(ctx, room + 1));
 
-        OBJPTR(FUNCTION, func.o)->generator_stack_frame = ctx->stack;
+        /* Only generators own their stack, classes don't even have this field */
+        if (state == KOS_GEN_INIT)
+            OBJPTR(FUNCTION, func.o)->generator_stack_frame = ctx->stack;
 
         new_stack = OBJPTR(STACK, ctx->stack);
         base_idx  = KOS_atomic_read_relaxed_u32(new_stack->size);
-- 
2.43.0


From 442691f453a753c100f3a98f38d3f0d1e2d64d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:26 +0000
Subject: [PATCH 07/85] fix: keep 0.0 and -0.0 apart in the compiler's table of
 constants

---
 core/kos_compiler.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 1a3171b..99ee5a9 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -466,8 +466,8 @@ static int numbers_compare_item(void               *what,
         return numeric->u.i < ((const KOS_COMP_INTEGER *)constant)->value ? -1 :
                numeric->u.i > ((const KOS_COMP_INTEGER *)constant)->value ? 1 : 0;
     else
-        return numeric->u.d == ((const KOS_COMP_FLOAT *)constant)->value ? 0 :
-               numeric->u.d <  ((const KOS_COMP_FLOAT *)constant)->value ? -1 : 1;
+        /* Compare representations, because 0.0 and -0.0 are different constants */
+        return memcmp(&numeric->u.d, &((const KOS_COMP_FLOAT *)constant)->value, sizeof(double));
 }
 
 static int strings_compare_item(void               *what,
@@ -506,9 +506,9 @@ static int constants_compare_node(KOS_RED_BLACK_NODE *a,
                  ? -1 : 0;
 
         case KOS_COMP_CONST_FLOAT:
-            return ((const KOS_COMP_FLOAT *)const_a)->value
-                 < ((const KOS_COMP_FLOAT *)const_b)->value
-                 ? -1 : 0;
+            return memcmp(&((const KOS_COMP_FLOAT *)const_a)->value,
+                          &((const KOS_COMP_FLOAT *)const_b)->value,
+                          sizeof(double)) < 0 ? -1 : 0;
 
         case KOS_COMP_CONST_STRING: {
             const KOS_COMP_STRING *str_a = (const KOS_COMP_STRING *)const_a;
-- 
2.43.0


From 393d49a5bd38ae2a41a1c658c8fce5bd7c808073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 08/85] fix: don't build literals in the variable they read
 while being assigned to it

---
 core/kos_compiler.c | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 99ee5a9..c0ef80b 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -3741,7 +3741,7 @@ static int is_var_used(KOS_COMP_UNIT      *program,
 
             KOS_SCOPE *scope;
 
-            for (scope = program->scope_stack; scope && scope->parent_scope; scope = scope->parent_scope) {
+            for (scope = program->scope_stack; scope; scope = scope->parent_scope) {
 
                 const int error = kos_red_black_walk(scope->vars, find_var_by_reg, reg);
 
@@ -6346,6 +6346,34 @@ cleanup:
     return error;
 }
 
+/* Literals are built in multiple steps, so if the literal is assigned to a variable and it
+ * reads that variable, it must be built in a temporary register. */
+static int gen_literal(KOS_COMP_UNIT      *program,
+                       const KOS_AST_NODE *node,
+                       KOS_REG           **reg)
+{
+    KOS_REG *lit_reg = is_var_used(program, node->children, *reg) ? KOS_NULL : *reg;
+    int      error;
+
+    if (node->type == NT_OBJECT_LITERAL)
+        error = object_literal(program, node, &lit_reg, KOS_NULL, KOS_NULL);
+    else if (node->type == NT_CLASS_LITERAL)
+        error = class_literal(program, node, KOS_NULL, &lit_reg);
+    else
+        error = function_literal(program, node, KOS_NULL, KOS_NULL, KOS_NULL, &lit_reg);
+
+    if ( ! error) {
+        if ( ! *reg)
+            *reg = lit_reg;
+        else if (lit_reg != *reg) {
+            error = gen_instr2(program, INSTR_MOVE, (*reg)->reg, lit_reg->reg);
+            free_reg(program, lit_reg);
+        }
+    }
+
+    return error;
+}
+
 /* For this function and all other similar functions which it invokes, reg is:
     - on input, the desired register in which we prefer the return value
     - on output, the actual register containing the value computed
@@ -6457,17 +6485,15 @@ static int visit_node(KOS_COMP_UNIT      *program,
         case NT_FUNCTION_LITERAL:
             /* fall through */
         case NT_CONSTRUCTOR_LITERAL:
-            error = function_literal(program, node, KOS_NULL, KOS_NULL, KOS_NULL, reg);
+            /* fall through */
+        case NT_OBJECT_LITERAL:
+            /* fall through */
+        case NT_CLASS_LITERAL:
+            error = gen_literal(program, node, reg);
             break;
         case NT_ARRAY_LITERAL:
             error = array_literal(program, node, reg);
             break;
-        case NT_OBJECT_LITERAL:
-            error = object_literal(program, node, reg, KOS_NULL, KOS_NULL);
-            break;
-        case NT_CLASS_LITERAL:
-            error = class_literal(program, node, KOS_NULL, reg);
-            break;
         case NT_PLACEHOLDER:
             program->error_token = &node->token;
             program->error_str   = str_err_unexpected_underscore;
-- 
2.43.0


From 4347265be0bd31fb7ef71688995a16b70b362701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:35 +0000
Subject: [PATCH 09/85] fix: evaluate default arguments and class properties of
 unused functions and classes

---
 core/kos_compiler_optim.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index d0f626d..2ec30e3 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -356,15 +356,45 @@ static int is_dummy_load(KOS_AST_NODE *node)
         case NT_BOOL_LITERAL:
             /* fall through */
         case NT_VOID_LITERAL:
-            /* fall through */
+            return 1;
+
+        /* Default arguments can have side effects */
         case NT_FUNCTION_LITERAL:
             /* fall through */
         case NT_CONSTRUCTOR_LITERAL:
-            /* fall through */
-        case NT_CLASS_LITERAL:
-            /* fall through */
+            node = node->children;          /* NT_NAME       */
+            assert(node);
+            node = node->next;              /* NT_PARAMETERS */
+            assert(node);
+            assert(node->type == NT_PARAMETERS);
+
+            for (node = node->children; node; node = node->next)
+                if (node->type == NT_ASSIGNMENT && ! is_dummy_load(node->children->next))
+                    return 0;
+
             return 1;
 
+        /* Base class, properties and default arguments can have side effects */
+        case NT_CLASS_LITERAL: {
+            KOS_AST_NODE *prop_node;
+
+            node = node->children;          /* extends clause */
+            assert(node);
+            if (node->type != NT_EMPTY && node->type != NT_VOID_LITERAL)
+                return 0;
+
+            node = node->next;              /* prototype      */
+            assert(node);
+            assert(node->type == NT_OBJECT_LITERAL);
+
+            for (prop_node = node->children; prop_node; prop_node = prop_node->next)
+                if ( ! is_dummy_load(prop_node->children->next))
+                    return 0;
+
+            assert(node->next);             /* constructor    */
+            return is_dummy_load(node->next);
+        }
+
         default:
             break;
     }
-- 
2.43.0


From 9355237f907da458d726907d4c99ee853d51ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:28 +0000
Subject: [PATCH 10/85] fix: keep code reachable through conditional break or
 continue in loops and switches

---
 core/kos_compiler_optim.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 2ec30e3..3126729 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -541,20 +541,48 @@ cleanup:
     return error;
 }
 
+/* Checks if there is any node of the specified type in the list of nodes, including children,
+ * but excluding functions.  Loop or switch body, which ends with a terminal statement, can still
+ * be left (or the loop continued) through a conditional break or continue. */
+static int has_node(const KOS_AST_NODE *node, KOS_NODE_TYPE type)
+{
+    for ( ; node; node = node->next) {
+
+        if (node->type == type)
+            return 1;
+
+        if (node->type != NT_FUNCTION_LITERAL    &&
+            node->type != NT_CONSTRUCTOR_LITERAL &&
+            node->type != NT_CLASS_LITERAL       &&
+            has_node(node->children, type))
+
+            return 1;
+    }
+
+    return 0;
+}
+
 static int repeat_stmt(KOS_COMP_UNIT *program,
                        KOS_AST_NODE  *node,
                        int           *is_terminal)
 {
-    int error = KOS_SUCCESS;
+    int           error = KOS_SUCCESS;
+    KOS_AST_NODE *body_node;
 
     node = node->children;
     assert(node);
     TRY(visit_node(program, node, is_terminal));
 
+    body_node = node;
+
     node = node->next;
     assert(node);
     assert( ! node->next);
 
+    /* If there is a continue statement, the condition can be reached */
+    if (*is_terminal && has_node(body_node->children, NT_CONTINUE))
+        *is_terminal = TERM_NONE;
+
     if (*is_terminal && program->optimize) {
         if (node->token.keyword != KW_FALSE) {
             collapse(node, NT_BOOL_LITERAL, TT_KEYWORD, KW_FALSE, KOS_NULL, 0);
@@ -567,7 +595,7 @@ static int repeat_stmt(KOS_COMP_UNIT *program,
         assert(t == TERM_NONE);
     }
 
-    if (*is_terminal & TERM_BREAK)
+    if (*is_terminal && has_node(body_node->children, NT_BREAK))
         *is_terminal = TERM_NONE;
 
 cleanup:
@@ -603,7 +631,8 @@ static int while_stmt(KOS_COMP_UNIT *program,
 
     TRY(visit_node(program, node->next, is_terminal));
 
-    if ( ! is_truthy || (*is_terminal & TERM_BREAK))
+    if ( ! is_truthy || (*is_terminal & TERM_BREAK) ||
+        (*is_terminal && has_node(node->next->children, NT_BREAK)))
         *is_terminal = TERM_NONE;
 
     if (*is_terminal && program->optimize && node->type != NT_BOOL_LITERAL) {
@@ -718,7 +747,7 @@ static int switch_stmt(KOS_COMP_UNIT *program,
 
         TRY(visit_node(program, node, &next_t));
 
-        if (next_t & TERM_BREAK)
+        if ((next_t & TERM_BREAK) || (next_t && has_node(node->children, NT_BREAK)))
             next_t = TERM_NONE;
 
         ++num_cases;
-- 
2.43.0


From de66f06b217839765888d6dd9f1169e9690a4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:12 +0000
Subject: [PATCH 11/85] fix: make run-time negation of 0.0 agree with constant
 folding

---
 core/kos_compiler.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index c0ef80b..f08177c 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4299,13 +4299,14 @@ static int pos_neg(KOS_COMP_UNIT      *program,
         TRY(gen_dest_reg(program, reg, src));
 
         TRY(gen_reg(program, &val));
-        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, 0));
+        /* Multiply, because subtraction from 0 would lose the sign of -0.0 */
+        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, -1));
 
         TRY(gen_instr3(program,
-                       INSTR_SUB,
+                       INSTR_MUL,
                        (*reg)->reg,
-                       val->reg,
-                       src->reg));
+                       src->reg,
+                       val->reg));
 
         free_reg(program, val);
 
-- 
2.43.0


From ba9ac653ecdd8cf11bca70af40a8803de7c7e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:14 +0000
Subject: [PATCH 12/85] fix: don't assert when a constructor called from native
 code throws

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..b9709e0 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -3873,7 +3873,7 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
             assert(ctx->local_list == &func);
 
             assert(IS_BAD_PTR(ret.o) || GET_OBJ_TYPE(ret.o) <= OBJ_LAST_TYPE);
-            assert((state != KOS_CTOR) || (ret.o == this_.o));
+            assert((state != KOS_CTOR) || IS_BAD_PTR(ret.o) || (ret.o == this_.o));
         }
 
         finish_call(ctx, get_current_stack_frame(ctx),
-- 
2.43.0


From d500dc4737a42b7ff46daaf83fce1975e7d8c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:14 +0000
Subject: [PATCH 13/85] fix: don't assert when an else branch has already been
 optimized away

---
 core/kos_compiler_optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 3126729..6caf216 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -513,7 +513,7 @@ static int if_stmt(KOS_COMP_UNIT *program,
         ++program->num_optimizations;
 
         if (else_node) {
-            assert(else_node->type == NT_SCOPE || else_node->type == NT_IF);
+            assert(else_node->type == NT_SCOPE || else_node->type == NT_IF || else_node->type == NT_EMPTY);
             promote(program, if_node, else_node);
 
             return visit_node(program, if_node, is_terminal);
-- 
2.43.0


From 07a5f173185d36742a5d8f7d513f35c71ca0164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 14/85] fix: keep side effects of interpolated strings used as
 operands of typeof

---
 core/kos_compiler_optim.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 6caf216..66c84dc 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1676,9 +1676,7 @@ static void collapse_typeof(KOS_COMP_UNIT      *program,
             break;
         }
 
-        case NT_STRING_LITERAL:
-            /* fall through */
-        case NT_INTERPOLATED_STRING: {
+        case NT_STRING_LITERAL: {
             static const char quoted_string[] = "\"string\"";
             type     = quoted_string;
             type_len = sizeof(quoted_string) - 1;
-- 
2.43.0


From 9535bc08725d39e713347893b8aa8a51018a9cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 15/85] fix: don't change the target variable when negation
 throws

---
 core/kos_compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index f08177c..ba15cf7 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4283,6 +4283,11 @@ static int pos_neg(KOS_COMP_UNIT      *program,
 
     assert(op == OT_ADD || op == OT_SUB);
 
+    /* Don't evaluate the operand in a variable, because it must remain
+     * unchanged if the negation fails. */
+    if (op == OT_SUB && src && ! src->tmp)
+        src = KOS_NULL;
+
     node = node->children;
     assert(node);
     assert(!node->next);
-- 
2.43.0


From 32cb080619d5d9918a8e6244cc726410872f404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:55 +0000
Subject: [PATCH 16/85] fix: don't allocate closure variables for optimized-out
 scopes

---
 core/kos_compiler_optim.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 66c84dc..acbd489 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -263,6 +263,17 @@ static KOS_SCOPE *push_scope(KOS_COMP_UNIT      *program,
 
     assert(scope->parent_scope == program->scope_stack);
 
+    /* Variables from optimized-out scopes, which are not going to be visited anymore,
+     * must not count as accessed from closures */
+    if (scope->has_frame) {
+        KOS_VAR *var;
+
+        for (var = scope->fun_vars_list; var; var = var->next) {
+            var->local_reads       = var->num_reads;
+            var->local_assignments = var->num_assignments;
+        }
+    }
+
     kos_red_black_walk(scope->vars, reset_var_state, KOS_NULL);
 
     program->scope_stack = scope;
-- 
2.43.0


From 56807de3aeec876a225226e01466a8633a51ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 17/85] fix: pick the right default values for arguments beyond
 the register limit

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index b9709e0..0d186b3 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -646,7 +646,7 @@ static int init_registers(KOS_CONTEXT ctx,
 
                 const uint32_t def_src_offs = num_input_args < num_reg_args
                                               ? num_reg_args - num_non_def_args
-                                              : num_input_args - num_reg_args;
+                                              : num_input_args - num_non_def_args;
 
                 TRY(KOS_array_insert(ctx,
                                      rest.o,
-- 
2.43.0


From 0d1770a833c75335cba926224a48e50fd1f57c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 18/85] fix: enumerate inherited properties hidden only by
 deleted ones

---
 core/kos_object.c | 50 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/core/kos_object.c b/core/kos_object.c
index 43b26ba..aeb7e43 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -1104,8 +1104,9 @@ int kos_object_walk(KOS_CONTEXT ctx,
     KOS_LOCAL table;
     KOS_LOCAL returned_keys;
     KOS_LOCAL key;
+    KOS_LOCAL value;
 
-    KOS_init_locals(ctx, &walk, &table, &returned_keys, &key, kos_end_locals);
+    KOS_init_locals(ctx, &walk, &table, &returned_keys, &key, &value, kos_end_locals);
     walk.o = iterator_id;
 
     assert(GET_OBJ_TYPE(walk.o) == OBJ_ITERATOR);
@@ -1120,7 +1121,6 @@ int kos_object_walk(KOS_CONTEXT ctx,
 
     for (;;) {
 
-        KOS_OBJ_ID     value;
         const uint32_t index = KOS_atomic_add_u32(OBJPTR(ITERATOR, walk.o)->index, 1U);
 
         if (index >= capacity) {
@@ -1172,46 +1172,46 @@ int kos_object_walk(KOS_CONTEXT ctx,
         if (IS_BAD_PTR(key.o))
             continue;
 
-        if ( ! IS_BAD_PTR(returned_keys.o)) {
+        value.o = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].value);
 
-            if ( ! IS_BAD_PTR(KOS_get_property_shallow(ctx, returned_keys.o, key.o)))
-                continue;
+        assert( ! IS_BAD_PTR(value.o));
 
-            KOS_clear_exception(ctx);
-
-            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
-            if (error)
-                break;
+        if (value.o == TOMBSTONE) {
+            value.o = KOS_BADPTR;
+            continue;
         }
 
-        value = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].value);
+        if ((value.o == CLOSED) || (value.o == RESERVED)) {
 
-        assert( ! IS_BAD_PTR(value));
+            value.o = KOS_BADPTR;
+            value.o = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
 
-        if (value == TOMBSTONE)
-            continue;
-
-        if ((value != CLOSED) && (value != RESERVED)) {
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
-            error = KOS_SUCCESS;
-            break;
+            if (IS_BAD_PTR(value.o)) {
+                KOS_clear_exception(ctx);
+                continue;
+            }
         }
 
-        value = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
+        /* Only keys which exist hide the same keys in prototypes */
+        if ( ! IS_BAD_PTR(returned_keys.o)) {
+
+            if ( ! IS_BAD_PTR(KOS_get_property_shallow(ctx, returned_keys.o, key.o)))
+                continue;
 
-        if (IS_BAD_PTR(value)) {
             KOS_clear_exception(ctx);
-            continue;
+
+            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
+            if (error)
+                break;
         }
 
         KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
-        KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
+        KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value.o);
         error = KOS_SUCCESS;
         break;
     }
 
-    KOS_destroy_top_locals(ctx, &walk, &key);
+    KOS_destroy_top_locals(ctx, &walk, &value);
 
     return error;
 }
-- 
2.43.0


From f3de196d0d2b393f8fa6bceb7adb1be87cb1288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:54 +0000
Subject: [PATCH 19/85] fix: don't truncate out-of-range indexes passed to
 array cas

---
 modules/kos_mod_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..14c66a3 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -36,6 +36,7 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_bad_number,               "number parse
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_array,  "unsupported type passed to array class");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_buffer, "unsupported type passed to buffer class");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_cannot_convert_to_string, "unsupported type passed to string class");
+KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_array_idx,         "array index is out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_array_size,       "array size out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_buffer_size,      "buffer size out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_byte_value,       "buffer element value out of range");
@@ -3807,6 +3808,9 @@ static KOS_OBJ_ID array_cas(KOS_CONTEXT ctx,
 
     TRY(KOS_get_integer(ctx, pos_obj, &pos));
 
+    if (pos < INT_MIN || pos > INT_MAX)
+        RAISE_EXCEPTION_STR(str_err_invalid_array_idx);
+
     ret = KOS_array_cas(ctx, this_obj, (int)pos, old_val, new_val);
 
 cleanup:
-- 
2.43.0


From 04a9362525a06a1ab7bf8dc411d41009d67d6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 20/85] fix: stop exclusive string scan at characters wider
 than the pattern

---
 core/kos_string.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 00147ff..98aaf55 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1430,18 +1430,21 @@ int KOS_string_scan(KOS_CONTEXT             ctx,
 
                 case KOS_STRING_ELEM_16:
                     code = *(const uint16_t *)location;
-                    if (code & c_mask)
-                        continue;
                     break;
 
                 default:
                     assert(text_elem_size == KOS_STRING_ELEM_32);
                     code = *(const uint32_t *)location;
-                    if (code & c_mask)
-                        continue;
                     break;
             }
 
+            if (code & c_mask) {
+                if (include)
+                    continue;
+                *pos = (int)((location - text) >> text_elem_size);
+                return KOS_SUCCESS;
+            }
+
             switch (pattern_elem_size) {
 
                 case KOS_STRING_ELEM_8: {
-- 
2.43.0


From e1a4d8896231cd13e5e48d0c9306f571ec03306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:46 +0000
Subject: [PATCH 21/85] fix: make negative rfind position relative to the end
 of the string

---
 modules/kos_mod_base.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 14c66a3..bc0dbf7 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4196,10 +4196,13 @@ static KOS_OBJ_ID find_dir(KOS_CONTEXT         ctx,
                           args_obj,
                           1,
                           reverse ? -1 : 0,
-                          reverse ? KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0) : (int)this_len,
+                          (int)this_len,
                           reverse ? KOS_VOID_INDEX_IS_END : KOS_VOID_INDEX_IS_BEGIN,
                           &pos));
 
+    if (reverse)
+        pos = KOS_min(pos, KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0));
+
     TRY(KOS_string_find(ctx, this_obj, pattern, reverse, &pos));
 
 cleanup:
-- 
2.43.0


From 62196ef81a246159a40d28aa8f04e5ef061039b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 22/85] fix: report ASCII slices of wider strings as ASCII

---
 modules/kos_mod_base.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index bc0dbf7..5de6b23 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4578,8 +4578,29 @@ static KOS_OBJ_ID get_string_ascii(KOS_CONTEXT ctx,
 {
     KOS_OBJ_ID ret;
 
-    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING)
-        ret = KOS_BOOL(OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII);
+    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING) {
+
+        ret = KOS_TRUE;
+
+        /* The lack of the flag does not imply that there are any non-ASCII
+         * characters, e.g. if the string is a slice of another string. */
+        if ( ! (OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII)) {
+
+            KOS_STRING_ITER iter;
+
+            KOS_init_string_iter(&iter, this_obj);
+
+            while ( ! KOS_is_string_iter_end(&iter)) {
+
+                if (KOS_string_iter_peek_next_code(&iter) > 0x7FU) {
+                    ret = KOS_FALSE;
+                    break;
+                }
+
+                KOS_string_iter_advance(&iter);
+            }
+        }
+    }
     else {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
         ret = KOS_BADPTR;
-- 
2.43.0


From d2978e31fefc2950c3f13b6f371557a08ae67361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:37 +0000
Subject: [PATCH 23/85] fix: compare whole code points when wide strings differ
 before the aligned part

---
 core/kos_string.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/kos_string.c b/core/kos_string.c
index 98aaf55..4753515 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1143,6 +1143,14 @@ static int compare_slice(KOS_STRING *str_a,
                     pb += 8;
                 }
             }
+
+            /* The first mismatched byte can be in the middle of an element */
+            {
+                const unsigned elem_offs = (unsigned)(uintptr_t)pa & ((1U << a_elem_size) - 1U);
+
+                pa -= elem_offs;
+                pb -= elem_offs;
+            }
         }
 
         switch (a_elem_size) {
-- 
2.43.0


From 344a75f79c5b6ea194a06eceffd6a044ce9003d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 24/85] fix: reject pack formats whose total size overflows

---
 modules/kos_mod_base.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 5de6b23..f70b753 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2942,6 +2942,14 @@ static int process_pack_format(KOS_CONTEXT               ctx,
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
         }
 
+        /* Buffer sizes are 32-bit, avoid overflowing them */
+        if (size && size != ~0U && count > 0xFFFFFFFFU / size) {
+            KOS_raise_printf(ctx,
+                "invalid size or count of format character '%c' at position %u",
+                (char)c, offs + 1);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
+
         if (c != '<' && c != '>')
             TRY(handler(ctx, fmt, offs, buffer.o, (char)c, size, count));
     }
@@ -3252,7 +3260,7 @@ static int unpack_format(KOS_CONTEXT               ctx,
         size = data_size - fmt->idx;
     }
 
-    if (fmt->idx + size * count > data_size) {
+    if (size * count > data_size - (uint32_t)fmt->idx) {
         KOS_raise_printf(ctx,
             "buffer with size %u too short to unpack data for format character "
             "'%c%u' at position %u, need size to be at least %u",
-- 
2.43.0


From a22891bf79749ebcdbf571032d3db4abb9e45980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:04 +0000
Subject: [PATCH 25/85] fix: don't crash when comparing empty buffers

---
 core/kos_utils.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index f940108..3c13572 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1521,11 +1521,10 @@ static KOS_COMPARE_RESULT compare_buf(KOS_OBJ_ID a, KOS_OBJ_ID b)
     const uint32_t a_size   = KOS_get_buffer_size(a);
     const uint32_t b_size   = KOS_get_buffer_size(b);
     const uint32_t cmp_size = KOS_min(a_size, b_size);
-    const int      min_cmp  = memcmp(KOS_buffer_data_const(a),
-                                     KOS_buffer_data_const(b),
-                                     cmp_size);
-
-    const int cmp = cmp_size ? min_cmp : 0;
+    const int      cmp      = cmp_size ? memcmp(KOS_buffer_data_const(a),
+                                                KOS_buffer_data_const(b),
+                                                cmp_size)
+                                       : 0;
 
     if (cmp)
         return cmp > 0 ? KOS_GREATER_THAN : KOS_LESS_THAN;
-- 
2.43.0


From 73bd3420c90d921cc9e47fea44a775f1edf09d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:25 +0000
Subject: [PATCH 26/85] fix: insert a buffer into itself or past the end
 without losing bytes

---
 modules/base.kos | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index 991c4c2..e266e32 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -462,6 +462,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if begin < 0 {
         begin = 0
     }
+    if begin > size {
+        begin = size
+    }
     if end > size {
         end = size
     }
@@ -472,6 +475,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if typeof iterable != "buffer" {
         iterable = buffer(typeof iterable == "string" ? iterable : iterable.iterator())
     }
+    else if iterable == this {
+        iterable = buffer(iterable)
+    }
 
     const new_size = this.size + iterable.size + begin - end
     if new_size > size {
-- 
2.43.0


From d899bca56233fd7720d945dc167e274bce7bde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:26 +0000
Subject: [PATCH 27/85] fix: accept empty buffers and strings where their bytes
 are copied or printed

---
 core/kos_utils.c       | 2 +-
 modules/kos_mod_base.c | 9 +++++++++
 modules/kos_mod_kos.c  | 3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 3c13572..c9215c0 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -865,7 +865,7 @@ static int vector_append_buffer(KOS_CONTEXT ctx,
     TRY(KOS_append_cstr(ctx, cstr_vec, str_buffer_open, sizeof(str_buffer_open)-1));
 
     dest = cstr_vec->buffer + cstr_vec->size - 1;
-    src  = KOS_buffer_data_const(obj_id);
+    src  = size ? KOS_buffer_data_const(obj_id) : KOS_NULL;
     end  = src + size;
 
     while (src < end) {
diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index f70b753..0d37f67 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1481,6 +1481,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 if (size == ~0U)
                     RAISE_EXCEPTION_STR(str_err_invalid_string);
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -1496,6 +1499,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 const uint32_t size = KOS_get_buffer_size(arg.o);
                 uint8_t       *data;
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -3203,6 +3209,9 @@ static int pack_format(KOS_CONTEXT               ctx,
                 copy_size = size > str_buf.size-1 ? (uint32_t)str_buf.size-1 : size;
 
                 if (size == ~0U) {
+                    if ( ! copy_size)
+                        continue;
+
                     dst = KOS_buffer_make_room(ctx, buffer.o, copy_size);
                     if ( ! dst)
                         RAISE_ERROR(KOS_ERROR_EXCEPTION);
diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 7a29e0f..bcd61e2 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -178,7 +178,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
         switch (GET_OBJ_TYPE(init.o)) {
 
             case OBJ_BUFFER:
-                memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
+                if (buf_size)
+                    memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
                 kos_lexer->from_generator = 0;
                 break;
 
-- 
2.43.0


From 32b969c4843011ffc92924a5d545693873180369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 28/85] fix: throw instead of overflowing the native stack when
 printing deeply nested values

---
 core/kos_utils.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index c9215c0..8da1bea 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -56,6 +56,7 @@ static const char str_recursive_array[]    = "[...]";
 static const char str_recursive_object[]   = "{...}";
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_array,     "object is not an array");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_generator, "function is not a generator");
+KOS_DECLARE_STATIC_CONST_STRING(str_err_too_deep,      "value nested too deeply");
 
 static const int8_t extra_len_map[256] = {
     /* 0 .. 127 */
@@ -659,6 +660,7 @@ static int make_quoted_str(KOS_CONTEXT ctx,
 typedef struct KOS_STR_REC_GUARD_S {
     struct KOS_STR_REC_GUARD_S *next;
     KOS_OBJ_ID                 *obj_id_ptr;
+    uint32_t                    depth;
 } KOS_STR_REC_GUARD;
 
 static int is_to_string_recursive(KOS_STR_REC_GUARD *guard, KOS_OBJ_ID obj_id)
@@ -698,6 +700,7 @@ static int vector_append_array(KOS_CONTEXT        ctx,
 
     new_guard.next       = guard;
     new_guard.obj_id_ptr = &array.o;
+    new_guard.depth      = guard ? guard->depth + 1U : 1U;
 
     length = KOS_get_array_size(array.o);
 
@@ -766,6 +769,7 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
 
     new_guard.next       = guard;
     new_guard.obj_id_ptr = &array.o;
+    new_guard.depth      = guard ? guard->depth + 1U : 1U;
 
     aux_array.o = KOS_new_array(ctx, length * 4 + 1);
     TRY_OBJID(aux_array.o);
@@ -937,6 +941,7 @@ static int vector_append_object(KOS_CONTEXT        ctx,
 
     new_guard.next       = guard;
     new_guard.obj_id_ptr = &obj.o;
+    new_guard.depth      = guard ? guard->depth + 1U : 1U;
 
     walk.o = kos_new_object_walk(ctx, obj.o, KOS_SHALLOW);
     TRY_OBJID(walk.o);
@@ -1157,6 +1162,11 @@ static int object_to_string_or_cstr_vec(KOS_CONTEXT        ctx,
     assert(str || cstr_vec);
     assert( ! str || ! cstr_vec || quote_str);
 
+    if (guard && guard->depth > KOS_MAX_STACK_DEPTH) {
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_too_deep));
+        return KOS_ERROR_EXCEPTION;
+    }
+
     if (IS_SMALL_INT(obj_id))
         error = int_to_str(ctx, GET_SMALL_INT(obj_id), str, cstr_vec);
 
-- 
2.43.0


From daae5d5fab765940938d59854dbd9a868497dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:01 +0000
Subject: [PATCH 29/85] fix: release the reference kept by file seek and resize
 when they fail

---
 modules/kos_mod_io.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0324bf8..61051de 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1510,6 +1510,8 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1521,8 +1523,6 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
     if (pos < 0)
         whence = SEEK_END;
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1536,11 +1536,11 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
     release_file(file_holder);
 
+    this_obj = KOS_destroy_top_local(ctx, &this_);
+
     return error ? KOS_BADPTR : this_obj;
 }
 
@@ -1576,6 +1576,8 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1596,8 +1598,6 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
 #undef BAD_SIZE_CHECK
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1662,11 +1662,11 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
     release_file(file_holder);
 
+    this_obj = KOS_destroy_top_local(ctx, &this_);
+
     return error ? KOS_BADPTR : this_obj;
 }
 
-- 
2.43.0


From e79fab3617dfa46b2d56eb47a182fbf50fd9ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 30/85] fix: module get checks that it is called on a module

---
 modules/kos_mod_base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 0d37f67..473efa0 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4975,6 +4975,9 @@ static KOS_OBJ_ID get_module_global(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &this_, this_obj);
     KOS_init_local_with(ctx, &args,  args_obj);
 
+    if (GET_OBJ_TYPE(this_.o) != OBJ_MODULE)
+        RAISE_EXCEPTION_STR(str_err_not_module);
+
     name_obj = KOS_array_read(ctx, args.o, 0);
     TRY_OBJID(name_obj);
 
-- 
2.43.0


From e7dc58b9680553f45e33b13cac777f611bfedbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:28 +0000
Subject: [PATCH 31/85] fix: don't copy from a null pointer when converting an
 empty string

---
 core/kos_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 4753515..94b2cfd 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -407,7 +407,7 @@ unsigned KOS_string_to_utf8(KOS_OBJ_ID obj_id,
         case KOS_STRING_ASCII: {
             num_out = str->header.length;
 
-            if (buf) {
+            if (buf && num_out) {
                 assert(num_out <= buf_size);
                 memcpy(buf, src_buf, num_out);
             }
-- 
2.43.0


From 5f259f8994ba8e3e16859d60d737a3d76cc65f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 32/85] fix: report failure to allocate argument names in the
 compiler

---
 core/kos_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index ba15cf7..4146abe 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -5580,7 +5580,7 @@ static int prealloc_arg_names(KOS_COMP_UNIT      *program,
             node->type == NT_IDENTIFIER ? node : node->children;
 
         if (gen_str(program, &ident_node->token, &arg_str_idx))
-            return 0;
+            return -1;
 
         node = node->next;
         ++count;
-- 
2.43.0


From 57a64dc035a0afe9d6197982dc7349ff6f659fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 33/85] fix: report failure to allocate a jump entry in the
 compiler

---
 core/kos_compiler.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 4146abe..108d72d 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1738,11 +1738,9 @@ static int push_jump_array(KOS_COMP_UNIT *program,
         jump_array->capacity = new_capacity;
     }
 
-    add_jump_instr_at_offset(program,
-                             &jump_array->entries[jump_array->num_jumps++],
-                             offs);
-
-    return KOS_SUCCESS;
+    return add_jump_instr_at_offset(program,
+                                    &jump_array->entries[jump_array->num_jumps++],
+                                    offs);
 }
 
 static int32_t negate_jump_opcode(int32_t opcode)
-- 
2.43.0


From c5c0ed8545a2298ba56bc099715ad0ebcec2980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 34/85] fix: do not ignore allocation failure when resolving a
 module's globals

---
 core/kos_compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 108d72d..cc3178a 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1404,6 +1404,7 @@ static int import(KOS_COMP_UNIT      *program,
                     program->error_str   = str_err_no_such_module_variable;
                     RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
                 }
+                TRY(error);
             }
         }
     }
@@ -4024,6 +4025,7 @@ static int invocation(KOS_COMP_UNIT      *program,
             program->error_str   = str_err_no_such_module_variable;
             RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
         }
+        TRY(error);
 
         TRY(gen_reg(program, &fun));
 
-- 
2.43.0


From ebffa81f4c2eb2ea41e38589e43ffbfe01d14ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 35/85] fix: raise an exception when compiling a regular
 expression runs out of memory

---
 modules/kos_mod_re.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index e0a5e5a..1d2b198 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1368,6 +1368,11 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
     KOS_object_set_private_ptr(regex, re);
 
 cleanup:
+    if (error == KOS_ERROR_OUT_OF_MEMORY) {
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        error = KOS_ERROR_EXCEPTION;
+    }
+
     KOS_vector_destroy(&re_ctx.class_data);
     KOS_vector_destroy(&re_ctx.class_descs);
     KOS_vector_destroy(&re_ctx.buf);
-- 
2.43.0


From ac1ff803c8c1787e37f39e2507db72efb278fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 36/85] fix: do not leak a mark group when marking runs out of
 memory

---
 core/kos_heap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_heap.c b/core/kos_heap.c
index 6837c5c..f8cef65 100644
--- a/core/kos_heap.c
+++ b/core/kos_heap.c
@@ -1614,6 +1614,10 @@ static int perform_gray_to_black_marking(KOS_MARK_CONTEXT       *mark_ctx,
     }
 
     if (error) {
+        /* Group which was popped, but not processed */
+        if (group)
+            free_mark_group(mark_ctx, group);
+
         group = mark_ctx->current;
 
         if (group) {
-- 
2.43.0


From fdff7b7110d5310894552dee6e9927c955576692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 37/85] fix: clear pending exception before looking for modules
 relative to argv[0]

---
 interpreter/kos.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interpreter/kos.c b/interpreter/kos.c
index 06744b1..7e6a537 100644
--- a/interpreter/kos.c
+++ b/interpreter/kos.c
@@ -216,8 +216,12 @@ int main(int argc, char *argv[])
         error = KOS_instance_add_default_path(ctx, KOS_NULL);
 
     /* Fallback: use argv[0] to find modules */
-    if (error)
+    if (error) {
+        if (KOS_is_exception_pending(ctx))
+            KOS_clear_exception(ctx);
+
         error = KOS_instance_add_default_path(ctx, argv[0]);
+    }
 
     if (error) {
         fprintf(stderr, "Failed to setup module search paths\n");
-- 
2.43.0


From fe1fc172de9f10de6e58a27f4696256aea532938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:18 +0000
Subject: [PATCH 38/85] fix: do not assert unary depth in the parser after an
 error

---
 core/kos_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_parser.c b/core/kos_parser.c
index 9362082..76c1483 100644
--- a/core/kos_parser.c
+++ b/core/kos_parser.c
@@ -1070,7 +1070,7 @@ static int primary_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
         }
     }
 
-    assert(parser->state.unary_depth == saved_unary_depth + 1);
+    assert(error || (parser->state.unary_depth == saved_unary_depth + 1));
     parser->state.unary_depth = saved_unary_depth;
 
     return error;
@@ -1940,7 +1940,7 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
         }
     }
 
-    assert(parser->state.unary_depth == saved_unary_depth + 1);
+    assert(error || (parser->state.unary_depth == saved_unary_depth + 1));
     parser->state.unary_depth = saved_unary_depth;
 
     return error;
-- 
2.43.0


From 013a62dced245fe608ce30cc56ba24ea38d73c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 39/85] fix: print all digits of code points above 0xFFFFF in
 quoted strings

---
 core/kos_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 8da1bea..d63dc6e 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -79,7 +79,7 @@ static const int8_t extra_len_map[256] = {
     /* 224 .. 239 */
     7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,  7,
     /* 240 .. 247 */
-    8,  8,  8,  8,  8,  8,  8,  8,
+    8,  8,  8,  8,  9,  9,  9,  9,
     /* 148 .. 255 */
     3,  3,  3,  3,  3,  3,  3,  3
 };
-- 
2.43.0


From 388e4d6ac215f7b89415ac66a6251cba3f054549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:54 +0000
Subject: [PATCH 40/85] fix: do not drop digits of the integral part when
 printing large floats

---
 core/kos_misc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 02c8569..310ae68 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -559,11 +559,18 @@ unsigned kos_print_float(char *buf, unsigned size, double value)
         }
     }
     else {
-        const int len = snprintf(buf, size, "%.15f", value);
+        int len = snprintf(buf, size, "%.15f", value);
 
         if (len < 0)
             return 0U;
 
+        /* Avoid truncating the integral part of large numbers */
+        if ((unsigned)len > size + 14U) {
+            len = snprintf(buf, size, "%.16e", value);
+
+            return (len < 0) ? 0U : KOS_min((unsigned)len, size - 1U);
+        }
+
         for (end = buf + KOS_min((unsigned)len, size - 1) - 1; end > buf && *end == '0'; --end);
         if (*end == '.')
             ++end;
-- 
2.43.0


From b1d9523a56d0d123e239847bd039b6b92a0ab06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:12 +0000
Subject: [PATCH 41/85] fix: escape strings inside arrays when converting an
 array to a string

---
 core/kos_utils.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index d63dc6e..e08a603 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -753,6 +753,7 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
     KOS_LOCAL         str_comma;
     KOS_LOCAL         aux_array;
     KOS_LOCAL         value;
+    KOS_VECTOR        cstr_vec;
     KOS_STR_REC_GUARD new_guard;
 
     assert(GET_OBJ_TYPE(array_obj) == OBJ_ARRAY);
@@ -763,6 +764,8 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
         return KOS_new_const_ascii_string(ctx, str_empty_array,
                                           sizeof(str_empty_array) - 1);
 
+    KOS_vector_init(&cstr_vec);
+
     KOS_init_locals(ctx, &array, &str_comma, &aux_array, &value, kos_end_locals);
 
     array.o = array_obj;
@@ -771,7 +774,7 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
     new_guard.obj_id_ptr = &array.o;
     new_guard.depth      = guard ? guard->depth + 1U : 1U;
 
-    aux_array.o = KOS_new_array(ctx, length * 4 + 1);
+    aux_array.o = KOS_new_array(ctx, length * 2 + 1);
     TRY_OBJID(aux_array.o);
 
     str = KOS_new_const_ascii_string(ctx, str_array_open,
@@ -788,13 +791,11 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
 
         if (GET_OBJ_TYPE(value.o) == OBJ_STRING) {
 
-            KOS_DECLARE_STATIC_CONST_STRING(str_quote, "\"");
+            TRY(make_quoted_str(ctx, value.o, &value.o, &cstr_vec));
 
-            TRY(KOS_array_write(ctx, aux_array.o, i_out,     KOS_CONST_ID(str_quote)));
-            TRY(KOS_array_write(ctx, aux_array.o, i_out + 1, value.o));
-            TRY(KOS_array_write(ctx, aux_array.o, i_out + 2, KOS_CONST_ID(str_quote)));
+            TRY(KOS_array_write(ctx, aux_array.o, i_out, value.o));
 
-            i_out += 3;
+            ++i_out;
         }
         else {
 
@@ -839,6 +840,7 @@ static KOS_OBJ_ID array_to_str(KOS_CONTEXT        ctx,
     ret = KOS_string_add(ctx, aux_array.o);
 
 cleanup:
+    KOS_vector_destroy(&cstr_vec);
     KOS_destroy_top_locals(ctx, &array, &value);
 
     return error ? KOS_BADPTR : ret;
-- 
2.43.0


From 84cccc1bace5a66deea37d992a9f4efcba3086c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 42/85] fix: limit the length of member and else-if chains,
 which overflowed the stack in the compiler

---
 core/kos_parser.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/kos_parser.c b/core/kos_parser.c
index 76c1483..f4a1221 100644
--- a/core/kos_parser.c
+++ b/core/kos_parser.c
@@ -183,6 +183,15 @@ static int increase_ast_depth(KOS_PARSER *parser)
     return error;
 }
 
+/* Limits the length of chains which are not nested in source code, but form
+ * a deep AST.  Only every several links in the chain count as one level. */
+static int increase_chain_depth(KOS_PARSER *parser, unsigned *num_links)
+{
+    const unsigned links_per_level = 10U;
+
+    return (++*num_links % links_per_level) ? KOS_SUCCESS : increase_ast_depth(parser);
+}
+
 static int new_node(KOS_PARSER    *parser,
                     KOS_AST_NODE **node,
                     KOS_NODE_TYPE  type)
@@ -1903,6 +1912,8 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
 {
     int       error;
     const int saved_unary_depth = parser->state.unary_depth;
+    const int saved_ast_depth   = parser->ast_depth;
+    unsigned  num_links         = 0U;
 
     error = primary_expr(parser, ret);
 
@@ -1937,9 +1948,14 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
                 parser->unget = 1;
                 break;
             }
+
+            if (!error)
+                error = increase_chain_depth(parser, &num_links);
         }
     }
 
+    parser->ast_depth = saved_ast_depth;
+
     assert(error || (parser->state.unary_depth == saved_unary_depth + 1));
     parser->state.unary_depth = saved_unary_depth;
 
@@ -2288,9 +2304,10 @@ static int do_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
     return compound_stmt(parser, ret);
 }
 
-static int if_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
+static int if_stmt(KOS_PARSER *parser, unsigned num_links, KOS_AST_NODE **ret)
 {
-    int error = KOS_SUCCESS;
+    int       error           = KOS_SUCCESS;
+    const int saved_ast_depth = parser->ast_depth;
 
     KOS_AST_NODE *node = KOS_NULL;
 
@@ -2312,9 +2329,14 @@ static int if_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
 
         TRY(next_token(parser));
 
-        if (parser->token.keyword == KW_IF)
-            TRY(if_stmt(parser, &node));
+        if (parser->token.keyword == KW_IF) {
+
+            TRY(increase_chain_depth(parser, &num_links));
 
+            TRY(if_stmt(parser, num_links, &node));
+
+            parser->ast_depth = saved_ast_depth;
+        }
         else {
 
             parser->unget = 1;
@@ -3298,7 +3320,7 @@ static int next_statement(KOS_PARSER *parser, KOS_AST_NODE **ret)
                 error = do_stmt(parser, ret);
                 break;
             case KW_IF:
-                error = if_stmt(parser, ret);
+                error = if_stmt(parser, 0U, ret);
                 break;
             case KW_TRY:
                 error = try_stmt(parser, ret);
-- 
2.43.0


From 4225232b8ebbd4ea637cbc01727e09792a6500d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:32 +0000
Subject: [PATCH 43/85] fix: do not replace array storage with a smaller one
 when two threads grow an array at once

---
 core/kos_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_array.c b/core/kos_array.c
index 9483df7..c3caa5d 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -380,6 +380,10 @@ static int resize_storage(KOS_CONTEXT ctx,
 
         if ( ! old_buf)
             (void)KOS_atomic_cas_strong_ptr(OBJPTR(ARRAY, array.o)->data, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf));
+        else if (KOS_atomic_read_relaxed_u32(old_buf->capacity) > KOS_atomic_read_relaxed_u32(new_buf->capacity)) {
+            /* Another thread has already grown the array more than that,
+             * the elements would not fit in the new buffer */
+        }
         else if (KOS_atomic_cas_strong_ptr(old_buf->next, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf)))
             copy_buf(ctx, OBJPTR(ARRAY, array.o), old_buf, new_buf);
         else {
-- 
2.43.0


From 39a2e1cfcc65a79fb9bbd2b874f54a1d564ebfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:34 +0000
Subject: [PATCH 44/85] fix: rehash an object key whose hash has not been
 stored yet by the thread adding it

---
 core/kos_object.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/kos_object.c b/core/kos_object.c
index aeb7e43..78a721e 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -224,6 +224,9 @@ static int salvage_item(KOS_CONTEXT ctx,
     key  = KOS_atomic_read_relaxed_obj(old_item->key);
     assert( ! IS_BAD_PTR(key));
     hash = KOS_atomic_read_relaxed_u32(old_item->hash.hash);
+    /* The thread which claimed this slot may not have stored the hash yet */
+    if ( ! hash)
+        hash = KOS_string_get_hash(key);
     idx  = hash & mask;
 
     /* Claim a slot in the new table */
-- 
2.43.0


From a0c2484f79591ba598d7ef5db021db41568d5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:30 +0000
Subject: [PATCH 45/85] fix: read array elements and object keys with acquire
 ordering, they may have just been created by another thread

---
 core/kos_array.c  | 10 +++++-----
 core/kos_object.c | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index c3caa5d..cf8b567 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -180,7 +180,7 @@ static void copy_buf(KOS_CONTEXT        ctx,
 
         /* Salvage item to the new buffer */
         for (;;) {
-            const KOS_OBJ_ID value = KOS_atomic_read_relaxed_obj(src[i]);
+            const KOS_OBJ_ID value = KOS_atomic_read_acquire_obj(src[i]);
 
             /* Another thread copied it */
             if (value == CLOSED)
@@ -240,7 +240,7 @@ KOS_OBJ_ID KOS_array_read(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, int idx)
             KOS_ARRAY_STORAGE *buf = get_data(obj_id);
 
             for (;;) {
-                elem = KOS_atomic_read_relaxed_obj(buf->buf[bufidx]);
+                elem = KOS_atomic_read_acquire_obj(buf->buf[bufidx]);
 
                 if (elem == TOMBSTONE) {
                     KOS_raise_exception(ctx, KOS_CONST_ID(str_err_invalid_index));
@@ -281,7 +281,7 @@ int KOS_array_write(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id, int idx, KOS_OBJ_ID valu
 
             for (;;) {
 
-                KOS_OBJ_ID cur = KOS_atomic_read_relaxed_obj(buf->buf[bufidx]);
+                KOS_OBJ_ID cur = KOS_atomic_read_acquire_obj(buf->buf[bufidx]);
 
                 if (cur == TOMBSTONE) {
                     KOS_raise_exception(ctx, KOS_CONST_ID(str_err_invalid_index));
@@ -330,7 +330,7 @@ KOS_OBJ_ID KOS_array_cas(KOS_CONTEXT ctx,
 
             for (;;) {
 
-                KOS_OBJ_ID cur = KOS_atomic_read_relaxed_obj(buf->buf[bufidx]);
+                KOS_OBJ_ID cur = KOS_atomic_read_acquire_obj(buf->buf[bufidx]);
 
                 if (cur == TOMBSTONE) {
                     KOS_raise_exception(ctx, KOS_CONST_ID(str_err_invalid_index));
@@ -565,7 +565,7 @@ KOS_OBJ_ID KOS_array_slice(KOS_CONTEXT ctx,
                     while (idx < new_len) {
 
                         const KOS_OBJ_ID value =
-                            KOS_atomic_read_relaxed_obj(src_buf->buf[begin + idx]);
+                            KOS_atomic_read_acquire_obj(src_buf->buf[begin + idx]);
 
                         if (value == TOMBSTONE) {
                             new_len = idx;
diff --git a/core/kos_object.c b/core/kos_object.c
index 78a721e..fdace72 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -217,11 +217,11 @@ static int salvage_item(KOS_CONTEXT ctx,
     if (KOS_atomic_cas_strong_ptr(old_item->value, TOMBSTONE, CLOSED))
         return 1;
 
-    value = KOS_atomic_read_relaxed_obj(old_item->value);
+    value = KOS_atomic_read_acquire_obj(old_item->value);
     if (value == CLOSED)
         return 0;
 
-    key  = KOS_atomic_read_relaxed_obj(old_item->key);
+    key  = KOS_atomic_read_acquire_obj(old_item->key);
     assert( ! IS_BAD_PTR(key));
     hash = KOS_atomic_read_relaxed_u32(old_item->hash.hash);
     /* The thread which claimed this slot may not have stored the hash yet */
@@ -243,7 +243,7 @@ static int salvage_item(KOS_CONTEXT ctx,
         }
 
         /* This slot in the new table is already taken */
-        dest_key = KOS_atomic_read_relaxed_obj(new_item->key);
+        dest_key = KOS_atomic_read_acquire_obj(new_item->key);
         assert( ! IS_BAD_PTR(dest_key));
         if (is_key_equal(key, hash, dest_key, new_item))
             /* Someone already wrote this key to the new table */
@@ -341,7 +341,7 @@ static KOS_OBJ_ID help_copy_table(KOS_CONTEXT ctx,
                                   KOS_OBJ_ID  src_obj_id,
                                   KOS_OBJ_ID  old_table)
 {
-    const KOS_OBJ_ID new_table = KOS_atomic_read_relaxed_obj(
+    const KOS_OBJ_ID new_table = KOS_atomic_read_acquire_obj(
                                     OBJPTR(OBJECT_STORAGE, old_table)->new_prop_table);
     assert( ! IS_BAD_PTR(new_table));
 
@@ -389,7 +389,7 @@ static int resize_prop_table(KOS_CONTEXT ctx,
     KOS_OBJ_ID     new_table    = KOS_BADPTR;
 
     if ( ! IS_BAD_PTR(old_table_obj))
-        new_table = KOS_atomic_read_relaxed_obj(OBJPTR(OBJECT_STORAGE, old_table_obj)->new_prop_table);
+        new_table = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, old_table_obj)->new_prop_table);
 
     if ( ! IS_BAD_PTR(new_table)) {
         /* Another thread is already resizing the property table, help it */
@@ -509,7 +509,7 @@ static enum GET_STATUS find_property(KOS_OBJ_ID  prop_table,
 
     for (;;) {
         KOS_PITEM *const cur_item  = items + (idx &= mask);
-        KOS_OBJ_ID       cur_key   = KOS_atomic_read_relaxed_obj(cur_item->key);
+        KOS_OBJ_ID       cur_key   = KOS_atomic_read_acquire_obj(cur_item->key);
         const KOS_OBJ_ID cur_value = KOS_atomic_read_acquire_obj(cur_item->value);
 
         /* Empty slot means this key is not present in this hash table, try prototype */
@@ -655,7 +655,7 @@ static enum SET_STATUS set_property(KOS_CONTEXT ctx,
 
     for (;;) {
         KOS_PITEM *cur_item = items + (idx &= mask);
-        KOS_OBJ_ID cur_key  = KOS_atomic_read_relaxed_obj(cur_item->key);
+        KOS_OBJ_ID cur_key  = KOS_atomic_read_acquire_obj(cur_item->key);
         KOS_OBJ_ID oldval;
 
         #ifdef CONFIG_PERF
@@ -1170,7 +1170,7 @@ int kos_object_walk(KOS_CONTEXT ctx,
             break;
         }
 
-        key.o = KOS_atomic_read_relaxed_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].key);
+        key.o = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].key);
 
         if (IS_BAD_PTR(key.o))
             continue;
-- 
2.43.0


From a1d03497ba6d5214afad7ee9243a9c59386daecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 46/85] fix: share closure variables between threads with
 acquire/release ordering

---
 core/kos_vm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 0d186b3..2096b74 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1235,7 +1235,7 @@ static KOS_OBJ_ID read_stack(KOS_CONTEXT ctx, KOS_OBJ_ID objptr, int idx)
         idx += KOS_STACK_EXTRA;
 
     if ((uint32_t)idx < size) {
-        ret = KOS_atomic_read_relaxed_obj(OBJPTR(STACK, objptr)->buf[idx]);
+        ret = KOS_atomic_read_acquire_obj(OBJPTR(STACK, objptr)->buf[idx]);
         assert( ! IS_BAD_PTR(ret));
     }
 
@@ -1267,7 +1267,7 @@ static int write_stack(KOS_CONTEXT ctx, KOS_OBJ_ID objptr, int idx, KOS_OBJ_ID v
         error = KOS_ERROR_EXCEPTION;
     }
     else
-        KOS_atomic_write_relaxed_ptr(OBJPTR(STACK, objptr)->buf[idx], value);
+        KOS_atomic_write_release_ptr(OBJPTR(STACK, objptr)->buf[idx], value);
 
     return error;
 }
@@ -1406,9 +1406,10 @@ static void clear_catch(KOS_STACK_FRAME *stack_frame)
     KOS_atomic_write_relaxed_ptr(stack_frame->catch_info, TO_SMALL_INT(catch_data));
 }
 
+/* Registers can be shared with other threads through closures */
 static KOS_OBJ_ID read_reg(KOS_STACK_FRAME *stack_frame, uint32_t reg)
 {
-    return KOS_atomic_read_relaxed_obj(stack_frame->regs[reg]);
+    return KOS_atomic_read_acquire_obj(stack_frame->regs[reg]);
 }
 
 static void write_reg(KOS_STACK_FRAME *stack_frame,
@@ -1416,7 +1417,7 @@ static void write_reg(KOS_STACK_FRAME *stack_frame,
                       KOS_OBJ_ID       value)
 {
     assert(GET_OBJ_TYPE(value) <= OBJ_LAST_TYPE);
-    KOS_atomic_write_relaxed_ptr(stack_frame->regs[reg], value);
+    KOS_atomic_write_release_ptr(stack_frame->regs[reg], value);
 }
 
 #if KOS_DISPATCH_TABLE
-- 
2.43.0


From 440075d56f9e10963b383bb762dda369256d7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:29 +0000
Subject: [PATCH 47/85] fix: publish the state of a generator with release
 ordering, another thread may resume it

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 2096b74..e2314ee 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -1160,7 +1160,7 @@ static void finish_call(KOS_CONTEXT        ctx,
 
     kos_stack_pop(ctx);
 
-    KOS_atomic_write_relaxed_u32(OBJPTR(FUNCTION, func_obj)->state, state);
+    KOS_atomic_write_release_u32(OBJPTR(FUNCTION, func_obj)->state, state);
 }
 
 static KOS_OBJ_ID read_buffer(KOS_CONTEXT ctx, KOS_OBJ_ID objptr, int idx)
-- 
2.43.0


From d9b5c770795b64a0f410f00f6677d4fb703a760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 48/85] fix: do not shrink a range of a regular expression
 class when adding a character inside it

---
 modules/kos_mod_re.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index 1d2b198..ad4147c 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -626,8 +626,11 @@ static int add_class_range(struct RE_PARSE_CTX *re_ctx,
 
     assert(begin_code <= range[begin].begin_code);
 
-    if (begin && (begin_code <= range[begin - 1].end_code + 1))
-        range[--begin].end_code = end_code;
+    if (begin && (begin_code <= range[begin - 1].end_code + 1)) {
+        --begin;
+        if (end_code > range[begin].end_code)
+            range[begin].end_code = end_code;
+    }
 
     for ( ; end < desc->num_ranges; ++end)
         if (end_code + 1 < range[end].begin_code)
-- 
2.43.0


From 06be26d550acacb1f005e55c53904857c5c59cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 49/85] fix: stop repeating a regular expression group which
 matches an empty string

---
 modules/kos_mod_re.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index ad4147c..cf8c77d 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1396,7 +1396,8 @@ struct RE_POSS_STACK {
 
 static int get_num_slots(const struct RE_OBJ *re)
 {
-    return (re->num_groups * 2) + re->num_counts;
+    /* Begin and end for each group, count and beginning of current iteration for each multiplicity */
+    return (re->num_groups * 2) + (re->num_counts * 2);
 }
 
 static size_t get_item_size(const struct RE_OBJ *re)
@@ -1439,7 +1440,7 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
     if ( ! push_item(poss_stack, ctx, item_size))
         return KOS_ERROR_EXCEPTION;
 
-    memset(poss_stack->current, 0, item_size - group_size);
+    memset(poss_stack->current, 0, item_size);
 
     if (group_size) {
         memset(&poss_stack->current->counts_and_groups[re->num_counts], 0xFFU, group_size);
@@ -1613,6 +1614,11 @@ static uint16_t *get_group(struct RE_POSS_STACK *poss_stack, uint16_t num_counts
     return &poss_stack->current->counts_and_groups[num_counts + group_id * 2];
 }
 
+static uint16_t *get_iteration_pos(struct RE_POSS_STACK *poss_stack, const struct RE_OBJ *re, uint16_t count_id)
+{
+    return &poss_stack->current->counts_and_groups[re->num_counts + re->num_groups * 2 + count_id];
+}
+
 static int is_word_char(uint32_t code)
 {
     return ((code >= 'A') && (code <= 'Z')) ||
@@ -1824,6 +1830,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 assert(delta);
 
                 poss_stack->current->counts_and_groups[count_id] = 0;
+                *get_iteration_pos(poss_stack, re, count_id)     = get_iter_pos(str.o, &iter);
 
                 if (min_count == 0)
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
@@ -1840,6 +1847,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 assert(delta);
 
                 poss_stack->current->counts_and_groups[count_id] = 0;
+                *get_iteration_pos(poss_stack, re, count_id)     = get_iter_pos(str.o, &iter);
 
                 if (min_count)
                     bytecode += 4;
@@ -1856,7 +1864,9 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t count_id  = bytecode[2];
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
+                const uint16_t cur_pos   = get_iter_pos(str.o, &iter);
                 unsigned       count;
+                int            advanced;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1866,9 +1876,14 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
 
                 count = ++poss_stack->current->counts_and_groups[count_id];
 
+                /* Stop iterating after matching an empty string */
+                advanced = *get_iteration_pos(poss_stack, re, count_id) != cur_pos;
+
+                *get_iteration_pos(poss_stack, re, count_id) = cur_pos;
+
                 if (count < min_count)
                     bytecode += delta;
-                else if (count < max_count) {
+                else if (advanced && (count < max_count)) {
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + 5, &iter));
                     bytecode += delta;
                 }
@@ -1883,7 +1898,9 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t count_id  = bytecode[2];
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
+                const uint16_t cur_pos   = get_iter_pos(str.o, &iter);
                 unsigned       count;
+                int            advanced;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1893,10 +1910,15 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
 
                 count = ++poss_stack->current->counts_and_groups[count_id];
 
+                /* Stop iterating after matching an empty string */
+                advanced = *get_iteration_pos(poss_stack, re, count_id) != cur_pos;
+
+                *get_iteration_pos(poss_stack, re, count_id) = cur_pos;
+
                 if (count < min_count)
                     bytecode += delta;
                 else {
-                    if (count < max_count)
+                    if (advanced && (count < max_count))
                         TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
                     bytecode += 5;
                 }
-- 
2.43.0


From 2d3e066528978a1d8cb37da0fb886ca6ed699cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 50/85] fix: report regular expression groups which end at the
 end of the longest string

---
 modules/kos_mod_re.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index cf8c77d..ad56ac6 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1431,8 +1431,8 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
                                    KOS_CONTEXT           ctx,
                                    const struct RE_OBJ  *re)
 {
-    const size_t item_size  = get_item_size(re);
-    const size_t group_size = re->num_groups * 2 * sizeof(uint16_t);
+    const size_t item_size = get_item_size(re);
+    unsigned     i;
 
     poss_stack->buffer.size = 0;
     poss_stack->current     = KOS_NULL;
@@ -1442,16 +1442,9 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
 
     memset(poss_stack->current, 0, item_size);
 
-    if (group_size) {
-        memset(&poss_stack->current->counts_and_groups[re->num_counts], 0xFFU, group_size);
-
-        if (re->num_counts) {
-            assert(poss_stack->current->counts_and_groups[0] == 0);
-            assert(poss_stack->current->counts_and_groups[re->num_counts - 1] == 0);
-        }
-        assert(poss_stack->current->counts_and_groups[re->num_counts] == 0xFFFFU);
-        assert(poss_stack->current->counts_and_groups[re->num_counts + re->num_groups * 2 - 1] == 0xFFFFU);
-    }
+    /* A group which did not take part in the match begins after its end */
+    for (i = 0; i < re->num_groups; i++)
+        poss_stack->current->counts_and_groups[re->num_counts + i * 2] = 0xFFFFU;
 
     return KOS_SUCCESS;
 }
@@ -1572,7 +1565,7 @@ static int create_found_groups(KOS_CONTEXT                      ctx,
 
         group.o = KOS_VOID;
 
-        if ((begin != 0xFFFFU) && (end != 0xFFFFU)) {
+        if (begin <= end) {
 
             KOS_OBJ_ID match_obj;
 
-- 
2.43.0


From 873467311bc64b523a6a73b28e090cb2158b7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 51/85] fix: reject truncated JSON arrays

---
 modules/json.kos | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 0f3520e..89c840d 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -110,6 +110,13 @@ class json_lexer {
         this.peeked = void
     }
 
+    fun read {
+        for const token in this.lexer {
+            return token
+        }
+        throw "unexpected end of JSON data"
+    }
+
     fun next {
         const peeked = this.peeked
 
@@ -118,12 +125,12 @@ class json_lexer {
             return peeked
         }
 
-        return this.lexer()
+        return this.read()
     }
 
     fun peek {
         if ! this.peeked {
-            this.peeked = this.lexer()
+            this.peeked = this.read()
         }
 
         return this.peeked
-- 
2.43.0


From 2fd451da2f55c95f63de78aecdce2629ba58cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 52/85] fix: parse all JSON numbers and reject invalid JSON
 tokens instead of skipping them

---
 modules/json.kos | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 89c840d..a45bbc8 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -37,10 +37,19 @@ fun tokenize(text)
 {
     const lexer = kos.raw_lexer(text, true)
 
-    var had_minus = false
+    # Minus sign or leading part of a number with zeroes which Kos does not accept
+    var num_prefix = ""
 
     for const token in lexer {
-        if had_minus && token.type != kos.token_numeric {
+        # Invalid tokens are returned as whitespace
+        const invalid = token.type == kos.token_whitespace && token.token.strip() != ""
+
+        if invalid && "0123456789".find(token.token[0]) >= 0 {
+            num_prefix += token.token
+            continue
+        }
+
+        if invalid || (num_prefix != "" && token.type != kos.token_numeric) {
             bad_token(token)
         }
 
@@ -62,7 +71,7 @@ fun tokenize(text)
 
             case kos.token_operator {
                 if token.op == kos.op_sub {
-                    had_minus = true
+                    num_prefix = "-"
                 }
                 else {
                     bad_token(token)
@@ -80,11 +89,8 @@ fun tokenize(text)
             }
 
             case kos.token_numeric {
-                token.value = number(token.token)
-                if had_minus {
-                    token.value = -token.value
-                    had_minus = false
-                }
+                token.value = number(num_prefix + token.token)
+                num_prefix = ""
                 yield token
             }
 
@@ -99,8 +105,8 @@ fun tokenize(text)
         }
     }
 
-    if had_minus {
-        throw "trailing '-' at the end of file"
+    if num_prefix != "" {
+        throw "trailing '\(num_prefix)' at the end of file"
     }
 }
 
-- 
2.43.0


From f80639012ccd3a52403210b2ae6f95fe57af113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 53/85] fix: decode and encode escape sequences in JSON strings

---
 modules/json.kos | 109 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 106 insertions(+), 3 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index a45bbc8..d7be175 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -2,7 +2,7 @@
 # Copyright (c) 2014-2023 Chris Dragan
 
 import kos
-import base: array, generator, join, number, string
+import base: array, generator, join, number, range, string
 
 const separator_map = {
     "{": void,
@@ -19,6 +19,17 @@ const keyword_map = {
     "null":  void
 }
 
+const escape_map = {
+    "\"": "\"",
+    "\\": "\\",
+    "/":  "/",
+    "b":  "\x08",
+    "f":  "\x0c",
+    "n":  "\n",
+    "r":  "\r",
+    "t":  "\t"
+}
+
 fun bad_token(token, desc = void)
 {
     if ! ("token" in token) {
@@ -33,6 +44,98 @@ fun bad_token(token, desc = void)
     throw "\(token.line):\(token.column): \(desc)"
 }
 
+fun hex_code(token, text, pos)
+{
+    var code = 0
+    for const i in range(pos, pos + 4) {
+        const digit = i < text.size ? "0123456789abcdef".find(text[i].lowercase()) : -1
+        if digit < 0 {
+            bad_token(token, "expected four hexadecimal digits after \\u")
+        }
+        code = (code << 4) | digit
+    }
+    return code
+}
+
+fun decode_string(token)
+{
+    if token.token[0] != "\"" {
+        bad_token(token)
+    }
+
+    const text  = token.token[1:-1]
+    const parts = []
+    var   pos   = 0
+
+    loop {
+        const esc = text.find("\\", pos)
+
+        if esc < 0 {
+            break
+        }
+
+        parts.push(text[pos : esc])
+
+        const c = text[esc + 1]
+
+        pos = esc + 2
+
+        if c in escape_map {
+            parts.push(escape_map[c])
+        }
+        else if c == "u" {
+            var code = hex_code(token, text, pos)
+            pos += 4
+            # Surrogate pair
+            if (code >> 10) == 0x36 && text[pos : pos + 2] == "\\u" {
+                const low = hex_code(token, text, pos + 2)
+                if (low >> 10) == 0x37 {
+                    code = 0x10000 + (((code & 0x3FF) << 10) | (low & 0x3FF))
+                    pos += 6
+                }
+            }
+            parts.push(string([code]))
+        }
+        else {
+            bad_token(token, "invalid escape sequence")
+        }
+    }
+
+    if pos == 0 {
+        return string(text)
+    }
+
+    parts.push(text[pos : ])
+
+    return join("", parts)
+}
+
+fun encode_string(text)
+{
+    const parts = []
+    var   begin = 0
+
+    for const pos in range(text.size) {
+        const code = text.code(pos)
+        if code >= 0x20 && code != 0x22 && code != 0x5C {
+            continue
+        }
+        parts.push(text[begin : pos])
+        if code == 0x22 || code == 0x5C {
+            parts.push("\\")
+            begin = pos
+        }
+        else {
+            parts.push("\\u00", "0123456789abcdef"[code >> 4], "0123456789abcdef"[code & 15])
+            begin = pos + 1
+        }
+    }
+
+    parts.push(text[begin : ])
+
+    return "\"\(join("", parts))\""
+}
+
 fun tokenize(text)
 {
     const lexer = kos.raw_lexer(text, true)
@@ -95,7 +198,7 @@ fun tokenize(text)
             }
 
             case kos.token_string {
-                token.value = string(token.token[1:-1])
+                token.value = decode_string(token)
                 yield token
             }
 
@@ -381,7 +484,7 @@ fun dump(object)
         }
 
         case "string" {
-            return "\"\(object)\""
+            return encode_string(object)
         }
 
         case "array" {
-- 
2.43.0


From ddca667ed9cdc4ba8af1238b1d57d78e4333826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 54/85] fix: do not dump infinity and not-a-number as invalid
 JSON

---
 modules/json.kos | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/json.kos b/modules/json.kos
index d7be175..f40ef1c 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -475,7 +475,14 @@ public
 fun dump(object)
 {
     switch typeof object {
-        case "integer", "float", "boolean" {
+        case "float" {
+            if object - object != 0 {
+                throw "Cannot dump \(object) to JSON"
+            }
+            return "\(object)"
+        }
+
+        case "integer", "boolean" {
             return "\(object)"
         }
 
-- 
2.43.0


From 3e77253697058d54d8eb9361ff6742bb627e472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 55/85] fix: do not confuse modules with the same name in
 different directories

---
 core/kos_compiler_vars.c |  2 +-
 core/kos_module.c        | 28 ++++++++++------------------
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/core/kos_compiler_vars.c b/core/kos_compiler_vars.c
index c918a0e..9185114 100644
--- a/core/kos_compiler_vars.c
+++ b/core/kos_compiler_vars.c
@@ -606,7 +606,7 @@ static int import(KOS_COMP_UNIT *program,
 
         /* Importing the same module multiple times is allowed. */
         if (var) {
-            if (var->type != VAR_MODULE) {
+            if (var->type != VAR_MODULE || var->array_idx != module_idx) {
                 program->error_token = &mod_name_node->token;
                 program->error_str   = str_err_module_global_conflict;
                 RAISE_ERROR(KOS_ERROR_COMPILE_FAILED);
diff --git a/core/kos_module.c b/core/kos_module.c
index eb88e07..1a9e0fd 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -348,12 +348,13 @@ static void get_module_name(const char            *module,
     unsigned i = rfind_path(module, length, '.');
 
     if (i > 0) {
+        /* A name without extension is kept together with its directory */
         if (module[i-1] == '.') {
-            length = --i;
-            i      = rfind_path(module, i, '/');
+            length  = --i;
+            i       = rfind_path(module, i, '/');
+            module += i;
+            length -= i;
         }
-        module += i;
-        length -= i;
     }
 
     loading->module_name = module;
@@ -567,27 +568,18 @@ static int save_direct_modules(KOS_CONTEXT    ctx,
                                KOS_COMP_UNIT *program,
                                KOS_OBJ_ID     module_obj)
 {
-    int                 error  = KOS_SUCCESS;
-    KOS_VAR            *var;
-    KOS_INSTANCE *const inst   = ctx->inst;
-    KOS_LOCAL           module;
+    int       error = KOS_SUCCESS;
+    KOS_VAR  *var;
+    KOS_LOCAL module;
 
     KOS_init_local_with(ctx, &module, module_obj);
 
     for (var = program->modules; var; var = var->next) {
 
-        KOS_OBJ_ID name;
-        KOS_OBJ_ID module_idx_obj;
-
-        name = KOS_new_string(ctx, var->token->begin, var->token->length);
+        const KOS_OBJ_ID name = KOS_new_string(ctx, var->token->begin, var->token->length);
         TRY_OBJID(name);
 
-        module_idx_obj = KOS_get_property_shallow(ctx, inst->modules.module_names, name);
-        TRY_OBJID(module_idx_obj);
-
-        assert(IS_SMALL_INT(module_idx_obj));
-
-        TRY(KOS_set_property(ctx, OBJPTR(MODULE, module.o)->module_names, name, module_idx_obj));
+        TRY(KOS_set_property(ctx, OBJPTR(MODULE, module.o)->module_names, name, TO_SMALL_INT(var->array_idx)));
     }
 
 cleanup:
-- 
2.43.0


From 992e6587cd88658806fa489d001446154083511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 56/85] fix: do not run a module again when it is loaded by a
 path

---
 modules/kos_mod_base.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 473efa0..137e405 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -5034,6 +5034,10 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
 
     module.o = KOS_get_property_shallow(ctx, ctx->inst->modules.module_names, name.o);
     if (IS_BAD_PTR(module.o) || ! IS_SMALL_INT(module.o)) {
+
+        const uint32_t num_modules = KOS_get_array_size(ctx->inst->modules.modules);
+        KOS_OBJ_ID     idx_obj;
+
         KOS_clear_exception(ctx);
 
         TRY(KOS_string_to_cstr_vec(ctx, name.o, &path_cstr));
@@ -5041,7 +5045,12 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
         module.o = KOS_load_module(ctx, path_cstr.buffer, (uint32_t)(path_cstr.size - 1));
         TRY_OBJID(module.o);
 
-        TRY_OBJID(KOS_run_module(ctx, module.o));
+        /* Don't run the module again if it was already loaded under a different path */
+        idx_obj = KOS_get_property_shallow(ctx, ctx->inst->modules.module_names, OBJPTR(MODULE, module.o)->name);
+        TRY_OBJID(idx_obj);
+
+        if (GET_SMALL_INT(idx_obj) >= (int64_t)num_modules)
+            TRY_OBJID(KOS_run_module(ctx, module.o));
     }
     else {
 
-- 
2.43.0


From 35aecd80ffdabe3f1d4f3b937423f4b2d0a2680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 57/85] fix: forget a module whose execution failed instead of
 leaving it half-initialized

---
 core/kos_module.c      | 12 ++++++++++++
 modules/kos_mod_base.c | 18 ++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/core/kos_module.c b/core/kos_module.c
index 1a9e0fd..0c8e5b9 100644
--- a/core/kos_module.c
+++ b/core/kos_module.c
@@ -1801,7 +1801,19 @@ int kos_comp_import_module(void       *vframe,
         const KOS_OBJ_ID ret = KOS_run_module(ctx, module_obj);
 
         if (IS_BAD_PTR(ret)) {
+
+            KOS_LOCAL        exception;
+            const KOS_OBJ_ID names = ctx->inst->modules.module_names;
+
             assert(KOS_is_exception_pending(ctx));
+
+            /* Forget the module, so that it is not left half-initialized */
+            KOS_init_local_with(ctx, &exception, KOS_get_exception(ctx));
+            KOS_clear_exception(ctx);
+            if (KOS_delete_property(ctx, names, OBJPTR(MODULE, module_obj)->name))
+                KOS_clear_exception(ctx);
+            KOS_raise_exception(ctx, KOS_destroy_top_local(ctx, &exception));
+
             return KOS_ERROR_EXCEPTION;
         }
     }
diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 137e405..b4c4436 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -5049,8 +5049,22 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
         idx_obj = KOS_get_property_shallow(ctx, ctx->inst->modules.module_names, OBJPTR(MODULE, module.o)->name);
         TRY_OBJID(idx_obj);
 
-        if (GET_SMALL_INT(idx_obj) >= (int64_t)num_modules)
-            TRY_OBJID(KOS_run_module(ctx, module.o));
+        if (GET_SMALL_INT(idx_obj) >= (int64_t)num_modules) {
+
+            if (IS_BAD_PTR(KOS_run_module(ctx, module.o))) {
+
+                KOS_LOCAL exception;
+
+                /* Forget the module, so that it is not left half-initialized */
+                KOS_init_local_with(ctx, &exception, KOS_get_exception(ctx));
+                KOS_clear_exception(ctx);
+                if (KOS_delete_property(ctx, ctx->inst->modules.module_names, OBJPTR(MODULE, module.o)->name))
+                    KOS_clear_exception(ctx);
+                KOS_raise_exception(ctx, KOS_destroy_top_local(ctx, &exception));
+
+                RAISE_ERROR(KOS_ERROR_EXCEPTION);
+            }
+        }
     }
     else {
 
-- 
2.43.0


From e8f697f2f63d185987f6f21a7fae21fd64a44799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 58/85] fix: finish a range before the next element overflows

---
 modules/base.kos | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index e266e32..2c3cbcf 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -58,16 +58,25 @@ public fun range(start, args...)
         step = args[1]
     }
 
+    # Finish also when the next element overflows
     if step > 0 {
         while start < stop {
             yield start
+            const prev = start
             start += step
+            if start < prev {
+                break
+            }
         }
     }
     else if step < 0 {
         while start > stop {
             yield start
+            const prev = start
             start += step
+            if start > prev {
+                break
+            }
         }
     }
 }
-- 
2.43.0


From eec8d65b910a309ae837943fdc5d1a840d4f7764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 59/85] fix: return a float from pow() in all cases

---
 modules/kos_mod_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_math.c b/modules/kos_mod_math.c
index e42e7fe..bc5bdaa 100644
--- a/modules/kos_mod_math.c
+++ b/modules/kos_mod_math.c
@@ -663,10 +663,10 @@ static KOS_OBJ_ID kos_pow(KOS_CONTEXT ctx,
         if (val2 == 0)
             RAISE_EXCEPTION(str_err_pow_0_0);
         else
-            ret = TO_SMALL_INT(0);
+            ret = KOS_new_float(ctx, 0.0);
     }
     else if (val1 == 1 || val2 == 0)
-        ret = TO_SMALL_INT(1);
+        ret = KOS_new_float(ctx, 1.0);
     else if (val1 < 0 && ceil(val2) != val2)
         RAISE_EXCEPTION(str_err_negative_root);
     else
-- 
2.43.0


From bfc425546f89e60012a944ae653cb28b53d3961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 60/85] fix: do not overflow computing the width of a range of
 random integers

---
 modules/kos_mod_random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_random.c b/modules/kos_mod_random.c
index 702635d..8fb434c 100644
--- a/modules/kos_mod_random.c
+++ b/modules/kos_mod_random.c
@@ -235,9 +235,9 @@ static KOS_OBJ_ID rand_integer(KOS_CONTEXT ctx,
     kos_lock_mutex(rng->mutex);
 
     if (min_id != KOS_VOID)
-        value = min_value +
-            (int64_t)kos_rng_random_range(&rng->rng,
-                                          (uint64_t)(max_value - min_value));
+        value = (int64_t)((uint64_t)min_value +
+            kos_rng_random_range(&rng->rng,
+                                 (uint64_t)max_value - (uint64_t)min_value));
     else
         value = (int64_t)kos_rng_random(&rng->rng);
 
-- 
2.43.0


From 39ab415b3dcb0f0d23c85e0e4ec9dbeac04d1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 61/85] fix: do not write a buffer again together with the
 string which follows it

---
 modules/kos_mod_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 61051de..31a94be 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -989,6 +989,8 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
                 KOS_raise_errno_value(ctx, "fwrite", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
+
+            cstr.size = 0;
         }
         else if (GET_OBJ_TYPE(arg.o) == OBJ_STRING) {
 
-- 
2.43.0


From 5331ac56ea99e765b10f0cda4931e588ff97896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 62/85] fix: read whole lines regardless of NUL and CR
 characters and of the reserved size

---
 modules/kos_mod_io.c | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 31a94be..c581c3b 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -694,11 +694,6 @@ cleanup:
     return error ? KOS_BADPTR : this_.o;
 }
 
-static int is_eol(char c)
-{
-    return c == '\n' || c == '\r';
-}
-
 /* @item io file.prototype.read_line()
  *
  *     file.prototype.read_line(reserved_size = 4096)
@@ -734,7 +729,7 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     int              error       = KOS_SUCCESS;
     int              size_delta;
     int              last_size   = 0;
-    int              num_read;
+    int              c           = 0;
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
@@ -754,36 +749,33 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    do {
-        char *ret;
+    errno = 0;
 
-        if (KOS_vector_resize(&buf, (size_t)(last_size + size_delta))) {
-            KOS_resume_context(ctx);
-            KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            RAISE_ERROR(KOS_ERROR_EXCEPTION);
-        }
+    /* Don't use fgets(), because the line can contain NUL characters */
+    while (c != '\n') {
 
-        errno = 0;
+        if ((size_t)last_size == buf.size) {
+            if (KOS_vector_resize(&buf, (size_t)(last_size + size_delta))) {
+                KOS_resume_context(ctx);
+                KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+                RAISE_ERROR(KOS_ERROR_EXCEPTION);
+            }
+        }
 
-        ret = fgets(buf.buffer + last_size, size_delta, get_file(file_holder));
+        c = fgetc(get_file(file_holder));
 
-        if ( ! ret) {
+        if (c == EOF) {
             if (ferror(get_file(file_holder))) {
                 const int stored_errno = errno;
                 KOS_resume_context(ctx);
-                KOS_raise_errno_value(ctx, "fgets", stored_errno);
+                KOS_raise_errno_value(ctx, "fgetc", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-            else
-                break;
+            break;
         }
 
-        num_read = (int)strlen(buf.buffer + last_size);
-
-        last_size += num_read;
-    } while (num_read != 0 &&
-             num_read+1 == size_delta &&
-             ! is_eol(buf.buffer[last_size-1]));
+        buf.buffer[last_size++] = (char)c;
+    }
 
     KOS_resume_context(ctx);
 
-- 
2.43.0


From 49456b4c8dc6483b6bbe9a34442c673af8a7ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 63/85] fix: retry growing a buffer which another thread has
 grown at the same time

---
 core/kos_buffer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1fc6da7..ce77221 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -202,9 +202,12 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
                 if (size)
                     memcpy(buf->ptr, OBJPTR(BUFFER_STORAGE, old_buf.o)->ptr, size);
 
-                (void)KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
-                                                old_buf.o,
-                                                OBJID(BUFFER_STORAGE, buf));
+                /* Try again if another thread has installed a different storage,
+                 * because that storage could be too small */
+                if ( ! KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
+                                                 old_buf.o,
+                                                 OBJID(BUFFER_STORAGE, buf)))
+                    continue;
             }
 
             error = KOS_SUCCESS;
-- 
2.43.0


From 303098529f74d63e18e47b562d2b5e2e72b6cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 64/85] fix: keep a buffer's storage alive while a transfer
 into or out of it is blocked

---
 modules/kos_mod_io.c  | 19 +++++++++++++++----
 modules/kos_mod_net.c | 26 ++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index c581c3b..1d0767b 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -823,6 +823,7 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     KOS_FILE_HOLDER *file_holder  = KOS_NULL;
     KOS_LOCAL        args;
     KOS_LOCAL        buf;
+    KOS_LOCAL        storage;
     KOS_OBJ_ID       arg;
     int64_t          to_read;
     size_t           num_read;
@@ -834,6 +835,7 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     assert(KOS_get_array_size(args_obj) >= 2);
 
     KOS_init_local(     ctx, &buf);
+    KOS_init_local(     ctx, &storage);
     KOS_init_local_with(ctx, &args, args_obj);
 
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
@@ -866,6 +868,10 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
     if ( ! data)
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
+    /* Keep the storage alive, because another thread could resize the buffer */
+    storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, buf.o)->data);
+    data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
+
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -918,6 +924,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
     KOS_VECTOR       cstr;
     KOS_LOCAL        print_args;
     KOS_LOCAL        arg;
+    KOS_LOCAL        storage;
     KOS_LOCAL        args;
     KOS_LOCAL        this_;
     KOS_FILE_HOLDER *file_holder = KOS_NULL;
@@ -927,7 +934,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
     KOS_vector_init(&cstr);
 
-    KOS_init_locals(ctx, &print_args, &arg, &args, &this_, kos_end_locals);
+    KOS_init_locals(ctx, &print_args, &arg, &storage, &args, &this_, kos_end_locals);
 
     args.o  = args_obj;
     this_.o = this_obj;
@@ -948,10 +955,14 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
             if (to_write > 0) {
 
-                const uint8_t *data = KOS_buffer_data_const(arg.o);
+                const uint8_t *data;
+
+                /* Keep the storage alive, because another thread could resize the buffer */
+                storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, arg.o)->data);
+                data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
 
                 /* Make a copy in case GC moves the buffer storage when context is suspended */
-                if (kos_is_heap_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, arg.o)->data))) {
+                if (kos_is_heap_object(storage.o)) {
 
                     if (KOS_vector_resize(&cstr, to_write)) {
                         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
@@ -962,7 +973,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
                     data = (uint8_t *)cstr.buffer;
                 }
                 else {
-                    assert(kos_is_tracked_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, arg.o)->data)));
+                    assert(kos_is_tracked_object(storage.o));
                 }
 
                 KOS_suspend_context(ctx);
diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 111a517..f5c8432 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -931,6 +931,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 {
     KOS_LOCAL          args;
     KOS_LOCAL          buf;
+    KOS_LOCAL          storage;
     int64_t            num_read;
     int64_t            to_read;
     int64_t            flags64;
@@ -944,6 +945,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     assert(KOS_get_array_size(args_obj) >= 3);
 
     KOS_init_local(     ctx, &buf);
+    KOS_init_local(     ctx, &storage);
     KOS_init_local_with(ctx, &args, args_obj);
 
     TRY(acquire_socket_object(ctx, this_obj, &socket_holder));
@@ -992,6 +994,10 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     if ( ! data)
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
+    /* Keep the storage alive, because another thread could resize the buffer */
+    storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, buf.o)->data);
+    data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
+
     KOS_suspend_context(ctx);
 
     reset_last_error();
@@ -1051,6 +1057,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     KOS_GENERIC_ADDR   addr;
     KOS_LOCAL          args;
     KOS_LOCAL          buf;
+    KOS_LOCAL          storage;
     KOS_LOCAL          ret;
     int64_t            num_read;
     int64_t            to_read;
@@ -1067,6 +1074,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
 
     KOS_init_local(     ctx, &ret);
     KOS_init_local(     ctx, &buf);
+    KOS_init_local(     ctx, &storage);
     KOS_init_local_with(ctx, &args, args_obj);
 
     TRY(acquire_socket_object(ctx, this_obj, &socket_holder));
@@ -1115,6 +1123,10 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     if ( ! data)
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
 
+    /* Keep the storage alive, because another thread could resize the buffer */
+    storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, buf.o)->data);
+    data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
+
     KOS_suspend_context(ctx);
 
     memset(&addr, 0, sizeof(addr));
@@ -1505,10 +1517,12 @@ static int send_one_object(KOS_CONTEXT             ctx,
                            ADDR_LEN                addr_len)
 {
     KOS_LOCAL obj;
+    KOS_LOCAL storage;
     int       saved_errno = 0;
     int       error       = KOS_SUCCESS;
 
     KOS_init_local_with(ctx, &obj, obj_id);
+    KOS_init_local(ctx, &storage);
 
     if (GET_OBJ_TYPE(obj.o) == OBJ_BUFFER) {
 
@@ -1517,10 +1531,14 @@ static int send_one_object(KOS_CONTEXT             ctx,
         if (to_write > 0) {
 
             int64_t        num_writ = 0;
-            const uint8_t *data     = KOS_buffer_data_const(obj.o);
+            const uint8_t *data;
+
+            /* Keep the storage alive, because another thread could resize the buffer */
+            storage.o = KOS_atomic_read_acquire_obj(OBJPTR(BUFFER, obj.o)->data);
+            data      = OBJPTR(BUFFER_STORAGE, storage.o)->ptr;
 
             /* Make a copy in case GC moves the buffer storage when context is suspended */
-            if (kos_is_heap_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, obj.o)->data))) {
+            if (kos_is_heap_object(storage.o)) {
 
                 if (KOS_vector_resize(cstr, to_write)) {
                     KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
@@ -1531,7 +1549,7 @@ static int send_one_object(KOS_CONTEXT             ctx,
                 data = (uint8_t *)cstr->buffer;
             }
             else {
-                assert(kos_is_tracked_object(KOS_atomic_read_relaxed_obj(OBJPTR(BUFFER, obj.o)->data)));
+                assert(kos_is_tracked_object(storage.o));
             }
 
             KOS_suspend_context(ctx);
@@ -1593,7 +1611,7 @@ static int send_one_object(KOS_CONTEXT             ctx,
     }
 
 cleanup:
-    KOS_destroy_top_local(ctx, &obj);
+    KOS_destroy_top_locals(ctx, &storage, &obj);
 
     return error;
 }
-- 
2.43.0


From 1149dec1f491553bc3eb85cfb861811057bb2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 65/85] fix: raise an exception when receiving from a socket
 fails

---
 modules/kos_mod_net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index f5c8432..baa2ad0 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1004,14 +1004,14 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     num_read = recv(get_socket(socket_holder), (char *)(data + offset), (DATA_LEN)to_read, (int)flags64);
 
-    if (num_read < -1)
+    if (num_read < 0)
         saved_errno = get_error();
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
+    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + ((num_read > 0) ? num_read : 0))));
 
     if (saved_errno) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
@@ -1158,14 +1158,14 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
                         (struct sockaddr *)&addr,
                         &addr_len);
 
-    if (num_read < -1)
+    if (num_read < 0)
         saved_errno = get_error();
 
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
 
-    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + num_read)));
+    TRY(KOS_buffer_resize(ctx, buf.o, (unsigned)(offset + ((num_read > 0) ? num_read : 0))));
 
     if (saved_errno) {
         KOS_raise_errno_value(ctx, "recv", saved_errno);
-- 
2.43.0


From 714d271598e7d4558ed9e080b1d851d670144b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:19 +0000
Subject: [PATCH 66/85] fix: read lines correctly when a multi-byte character
 is split between two reads

---
 modules/io.kos | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/modules/io.kos b/modules/io.kos
index d41eed1..d034854 100644
--- a/modules/io.kos
+++ b/modules/io.kos
@@ -155,6 +155,30 @@ file.prototype.read = fun(in_size = 0x7FFFFFFFFFFFFFFF, in_buf = void)
     return buf
 }
 
+# Returns number of bytes in the buffer, without an incomplete UTF-8 sequence
+# at the end, if there is one.
+fun complete_utf8_size(buf)
+{
+    var pos = buf.size
+
+    while pos > 0 && buf.size - pos < 3 {
+        pos -= 1
+
+        const byte = buf[pos]
+
+        if byte >= 0xC0 {
+            const len = byte >= 0xF0 ? 4 : byte >= 0xE0 ? 3 : 2
+            return pos + len > buf.size ? pos : buf.size
+        }
+
+        if byte < 0x80 {
+            break
+        }
+    }
+
+    return buf.size
+}
+
 /* @item io file.prototype.read_lines()
  *
  *     file.prototype.read_lines(keep_ends = false, gran = 0x1000)
@@ -181,9 +205,22 @@ file.prototype.read_lines = fun(keep_ends = false, gran = 0x1000)
     var   prev = ""
 
     loop {
-        buf.resize(0)
+        const prev_size = buf.size
+
+        this.read_some(gran, buf)
+
+        # Bytes of a split UTF-8 character stay in the buffer until the rest is read
+        const at_end = buf.size == prev_size
+        const size   = at_end ? buf.size : complete_utf8_size(buf)
+
+        if size == 0 && ! at_end {
+            continue
+        }
+
+        const str = string(buf[:size])
 
-        const str = string(this.read_some(gran, buf))
+        buf.copy_buffer(0, buf, size)
+        buf.resize(buf.size - size)
 
         var pos = 0
 
@@ -206,7 +243,7 @@ file.prototype.read_lines = fun(keep_ends = false, gran = 0x1000)
             prev = ""
         }
 
-        if str == "" {
+        if at_end {
             break
         }
 
-- 
2.43.0


From 303db9172e667159a604de2f95d2cca3ef46308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:24 +0000
Subject: [PATCH 67/85] fix: do not lose data when reading and writing of a
 file alternate, forget errors of previous operations

---
 modules/kos_mod_io.c | 48 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 1d0767b..03edbd5 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -75,11 +75,18 @@ static void fix_path_separators(KOS_VECTOR *buf)
 }
 
 typedef struct KOS_FILE_HOLDER_S {
-    KOS_ATOMIC(FILE *)  file;
-    KOS_ATOMIC(int32_t) ref_count;
-    int                 owner;
+    KOS_ATOMIC(FILE *)   file;
+    KOS_ATOMIC(int32_t)  ref_count;
+    KOS_ATOMIC(uint32_t) last_op;
+    int                  owner;
 } KOS_FILE_HOLDER;
 
+enum FILE_OP {
+    FILE_OP_OTHER,
+    FILE_OP_READ,
+    FILE_OP_WRITE
+};
+
 static int acquire_file(KOS_FILE_HOLDER *file_holder)
 {
     uint32_t ref_count;
@@ -123,6 +130,7 @@ static KOS_FILE_HOLDER *make_file_holder(KOS_CONTEXT ctx,
     if (file_holder) {
         file_holder->file      = file;
         file_holder->ref_count = 1;
+        file_holder->last_op   = FILE_OP_OTHER;
         file_holder->owner     = owner;
     }
     else
@@ -149,6 +157,24 @@ static FILE *get_file(KOS_FILE_HOLDER *file_holder)
     return file_holder ? (FILE *)KOS_atomic_read_relaxed_ptr(file_holder->file) : KOS_NULL;
 }
 
+static void begin_file_op(KOS_FILE_HOLDER *file_holder, enum FILE_OP op)
+{
+    FILE *const    file    = get_file(file_holder);
+    const uint32_t last_op = KOS_atomic_swap_u32(file_holder->last_op, (uint32_t)op);
+
+    /* The C library loses data if reading immediately follows writing
+     * or the other way around */
+    if (op == FILE_OP_READ && last_op == FILE_OP_WRITE)
+        (void)fflush(file);
+    else if (op == FILE_OP_WRITE && last_op == FILE_OP_READ)
+        (void)fseek(file, 0, SEEK_CUR);
+
+    /* Forget error from any previous operation */
+    clearerr(file);
+
+    errno = 0;
+}
+
 static void file_finalize(KOS_CONTEXT ctx,
                           void       *priv)
 {
@@ -624,6 +650,8 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
+    begin_file_op(file_holder, FILE_OP_WRITE);
+
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
         fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder));
@@ -671,7 +699,7 @@ static KOS_OBJ_ID flush(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    errno = 0;
+    begin_file_op(file_holder, FILE_OP_OTHER);
 
     result = fflush(get_file(file_holder));
     if (result || kos_seq_fail()) {
@@ -749,7 +777,7 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    errno = 0;
+    begin_file_op(file_holder, FILE_OP_READ);
 
     /* Don't use fgets(), because the line can contain NUL characters */
     while (c != '\n') {
@@ -874,7 +902,7 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    errno = 0;
+    begin_file_op(file_holder, FILE_OP_READ);
 
     num_read = fread(data + offset, 1, (size_t)to_read, get_file(file_holder));
 
@@ -978,7 +1006,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
                 KOS_suspend_context(ctx);
 
-                errno = 0;
+                begin_file_op(file_holder, FILE_OP_WRITE);
 
                 num_writ = fwrite(data, 1, to_write, get_file(file_holder));
 
@@ -1009,7 +1037,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
             if (cstr.size) {
                 KOS_suspend_context(ctx);
 
-                errno = 0;
+                begin_file_op(file_holder, FILE_OP_WRITE);
 
                 num_writ = fwrite(cstr.buffer, 1, cstr.size - 1, get_file(file_holder));
 
@@ -1530,7 +1558,7 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    errno = 0;
+    begin_file_op(file_holder, FILE_OP_OTHER);
 
     if (fseek(get_file(file_holder), (long)pos, whence)) {
         const int stored_errno = errno;
@@ -1605,7 +1633,7 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
-    errno = 0;
+    begin_file_op(file_holder, FILE_OP_OTHER);
 
     if (fflush(get_file(file_holder))) {
 
-- 
2.43.0


From 33db6e19aaea7d8ed57e83a16ab8f6d449978701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 68/85] fix: let garbage collection proceed while closing a
 file is blocked

---
 modules/kos_mod_io.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 03edbd5..0c558f5 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -610,9 +610,21 @@ static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
 
     file_holder = (KOS_FILE_HOLDER *)KOS_object_swap_private(this_obj, &file_priv_class, closed_holder);
 
-    if (file_holder)
+    if (file_holder) {
+        KOS_LOCAL this_;
+
+        KOS_init_local_with(ctx, &this_, this_obj);
+
+        /* Writing out buffered data can block */
+        KOS_suspend_context(ctx);
+
         release_file(file_holder);
 
+        KOS_resume_context(ctx);
+
+        this_obj = KOS_destroy_top_local(ctx, &this_);
+    }
+
     return this_obj;
 }
 
-- 
2.43.0


From 808f1b439464e99ca373b96a49aa3214449e69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 69/85] fix: refuse the day after the last day of a month

---
 modules/datetime.kos | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datetime.kos b/modules/datetime.kos
index 9b1275d..801bfd9 100644
--- a/modules/datetime.kos
+++ b/modules/datetime.kos
@@ -195,7 +195,7 @@ public class datetime
             const first_days = (leap ? first_day_leap : first_day)
             timestamp += first_days[month - 1]
 
-            date_check("day", day, 1, first_days[month] - first_days[month - 1] + 1)
+            date_check("day", day, 1, first_days[month] - first_days[month - 1])
 
             timestamp += day - 1
 
-- 
2.43.0


From b473410033c7e7b5767c9ac1be68ba26fc9f4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 70/85] fix: compute dates of timestamps before 1970

---
 modules/datetime.kos | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/modules/datetime.kos b/modules/datetime.kos
index 801bfd9..f4db739 100644
--- a/modules/datetime.kos
+++ b/modules/datetime.kos
@@ -4,12 +4,21 @@
 import base.integer
 import math.floor
 
+# Divides rounding towards negative infinity, returns quotient and non-negative remainder
+fun floor_div(value, divisor)
+{
+    const quotient  = value / divisor
+    const remainder = value % divisor
+
+    return remainder < 0 ? [quotient - 1, remainder + divisor] : [quotient, remainder]
+}
+
 fun first_day_from_year(year)
 {
     return 365 * (year - 1970) +
            ((year - 1969) >> 2) -
-           ((year - 1901) / 100) +
-           ((year - 1601) / 400)
+           floor_div(year - 1901, 100)[0] +
+           floor_div(year - 1601, 400)[0]
 }
 
 fun is_leap_year(year)
@@ -124,14 +133,10 @@ public class datetime
             ts_check("us",     us)
 
             this.timestamp = timestamp
-            this.us        = timestamp % 1_000_000
-            timestamp     /= 1_000_000
-            this.second    = timestamp % 60
-            timestamp     /= 60
-            this.minute    = timestamp % 60
-            timestamp     /= 60
-            this.hour      = timestamp % 24
-            timestamp     /= 24
+            timestamp, this.us     = floor_div(timestamp, 1_000_000)
+            timestamp, this.second = floor_div(timestamp, 60)
+            timestamp, this.minute = floor_div(timestamp, 60)
+            timestamp, this.hour   = floor_div(timestamp, 24)
 
             const year0  = integer(floor(timestamp / 365.2425)) + 1970
             var   day_ts = first_day_from_year(year0)
-- 
2.43.0


From f553e99ec9ed1fbd890b3c3a6b3692aafe1cea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 71/85] fix: do not reap other children when a process object
 is destroyed

---
 modules/kos_mod_os.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index ae9b900..a047b0f 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -106,6 +106,7 @@ struct KOS_WAIT_S {
     DWORD  pid;
 #else
     pid_t pid;
+    int   finished; /* Process has already been reaped, pid may belong to another process now */
 #endif
 };
 
@@ -745,7 +746,13 @@ static int append_to_pid_slot(PID_ARRAY_PTR pids, pid_t pid)
  * so that its state can get cleaned up later. */
 static void release_pid(struct KOS_WAIT_S *wait_info)
 {
-    const pid_t ret_pid = check_pid(wait_info->pid);
+    pid_t ret_pid;
+
+    /* No process has been spawned or it has already been waited for */
+    if (wait_info->pid <= 0 || wait_info->finished)
+        return;
+
+    ret_pid = check_pid(wait_info->pid);
 
     if (ret_pid == 0) {
 
@@ -1383,12 +1390,14 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
                                  KOS_OBJ_ID  args_obj)
 {
     struct KOS_WAIT_S *wait_info;
+    KOS_LOCAL          this_;
     KOS_LOCAL          ret;
     int                error = KOS_SUCCESS;
 
-    KOS_init_local(ctx, &ret);
+    KOS_init_local(     ctx, &ret);
+    KOS_init_local_with(ctx, &this_, this_obj);
 
-    TRY(get_wait_info(ctx, this_obj, &wait_info));
+    TRY(get_wait_info(ctx, this_.o, &wait_info));
 
     ret.o = KOS_new_object(ctx);
     TRY_OBJID(ret.o);
@@ -1450,10 +1459,18 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 
         errno = 0;
 
-        ret_pid = waitpid(wait_info->pid, &status, 0);
+        if (wait_info->finished) {
+            ret_pid      = -1;
+            stored_errno = ECHILD;
+        }
+        else {
+            ret_pid = waitpid(wait_info->pid, &status, 0);
 
-        if (ret_pid == -1)
-            stored_errno = errno;
+            if (ret_pid == -1)
+                stored_errno = errno;
+            else if (WIFEXITED(status) || WIFSIGNALED(status))
+                wait_info->finished = 1;
+        }
 
         KOS_resume_context(ctx);
 
@@ -1505,7 +1522,7 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
 #endif
 
 cleanup:
-    ret.o = KOS_destroy_top_local(ctx, &ret);
+    ret.o = KOS_destroy_top_locals(ctx, &this_, &ret);
 
     return error ? KOS_BADPTR : ret.o;
 }
-- 
2.43.0


From 15af569859c7bae9ef50201c343a56adc8dcf2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 72/85] fix: reap all children whose process objects have been
 destroyed

---
 modules/kos_mod_os.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index a047b0f..038278c 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -641,7 +641,8 @@ static pid_t check_pid(pid_t pid)
 
 static void destroy_zombies(int sig)
 {
-    size_t array_idx;
+    const int saved_errno = errno;
+    size_t    array_idx;
 
     assert(sig == SIGCHLD);
 
@@ -655,12 +656,12 @@ static void destroy_zombies(int sig)
 
             for (idx = 0; idx < pids->capacity; idx++) {
 
-                const pid_t pid = to_pid(KOS_atomic_swap_ptr(pids->pids[idx], (void *)KOS_NULL));
+                const pid_t pid = to_pid(KOS_atomic_read_relaxed_ptr(pids->pids[idx]));
 
-                if (pid > 0) {
+                /* Keep processes which are still running on the list */
+                if (pid > 0 && check_pid(pid) != 0) {
+                    KOS_atomic_write_relaxed_ptr(pids->pids[idx], (void *)KOS_NULL);
                     KOS_atomic_add_i32(pids->num_pids, -1);
-
-                    check_pid(pid);
                 }
             }
         }
@@ -668,6 +669,8 @@ static void destroy_zombies(int sig)
         if (pids != &dummy_pids)
             KOS_atomic_write_relaxed_ptr(zombie_pids[array_idx], pids);
     }
+
+    errno = saved_errno;
 }
 
 static KOS_ATOMIC(uint32_t) sig_child_installed;
@@ -699,10 +702,15 @@ static int reserve_pid_slot(uint32_t array_idx, pid_t pid)
     if (alloc_ptr) {
 
         const PID_ARRAY_PTR new_array = (PID_ARRAY_PTR)alloc_ptr;
+        union PID_TO_PTR    conv;
 
         memset(alloc_ptr, 0, new_size);
+        memset(&conv, 0, sizeof(conv));
+        conv.pid = pid;
 
         new_array->capacity = new_capacity;
+        new_array->num_pids = 1;
+        new_array->pids[0]  = conv.ptr;
 
         if (KOS_atomic_cas_strong_ptr(zombie_pids[array_idx], (PID_ARRAY_PTR)KOS_NULL, new_array))
             error = KOS_SUCCESS;
@@ -775,6 +783,9 @@ static void release_pid(struct KOS_WAIT_S *wait_info)
         }
 
         handle_sig_child();
+
+        /* The process could have finished before it was put on the list */
+        destroy_zombies(SIGCHLD);
     }
 }
 
-- 
2.43.0


From f60c2fb1ad6484f5b2ff4e5fb800ca43d4c13fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 73/85] fix: do not write buffered output twice and leave no
 zombie when a program cannot be executed

---
 modules/kos_mod_os.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 038278c..e8ae94d 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1048,7 +1048,8 @@ static void send_errno_and_exit(int fd)
     const int     err_value = errno;
     const ssize_t num_writ  = write(fd, &err_value, sizeof(err_value));
 
-    exit((num_writ == sizeof(err_value)) ? 1 : 2);
+    /* Do not flush files whose buffers were inherited from the parent process */
+    _exit((num_writ == sizeof(err_value)) ? 1 : 2);
 }
 
 static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
@@ -1276,6 +1277,8 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         /* Handle failure of child process creation */
         if (child_pid == -1) {
             err_value = errno;
+            close(exec_status_fd[0]);
+            close(exec_status_fd[1]);
             KOS_resume_context(ctx);
             KOS_raise_errno_value(ctx, "fork failed", err_value);
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -1320,7 +1323,12 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
         close(exec_status_fd[0]);
         exec_status_fd[0] = -1;
 
-        if ( ! err_value)
+        if (err_value) {
+            int status;
+
+            (void)waitpid(child_pid, &status, 0);
+        }
+        else
             wait_info->pid = child_pid;
 
         KOS_resume_context(ctx);
-- 
2.43.0


From d01ed02567508f3470384075fdb1410d66add5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 74/85] fix: redirect each stream of a spawned process to the
 file requested

---
 modules/kos_mod_os.c | 45 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index e8ae94d..d0496c8 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1065,19 +1065,42 @@ static int get_file(KOS_CONTEXT ctx, KOS_OBJ_ID file_obj, FILE **file)
     return KOS_SUCCESS;
 }
 
-static void redirect_io(FILE *src_file,
-                        int   target_fd,
-                        int   status_fd)
+static int get_redirect_fd(FILE *src_file,
+                           int   status_fd)
 {
     int src_fd;
 
     if ( ! src_file)
-        return;
+        return -1;
 
     src_fd = fileno(src_file);
 
     errno = 0;
 
+    /* Move away descriptors which are going to be overwritten by redirection */
+    if (src_fd >= 0 && src_fd <= STDERR_FILENO) {
+
+        src_fd = fcntl(src_fd, F_DUPFD, STDERR_FILENO + 1);
+
+        if (src_fd != -1)
+            (void)fcntl(src_fd, F_SETFD, FD_CLOEXEC);
+    }
+
+    if (src_fd == -1)
+        send_errno_and_exit(status_fd);
+
+    return src_fd;
+}
+
+static void redirect_io(int src_fd,
+                        int target_fd,
+                        int status_fd)
+{
+    if (src_fd == -1)
+        return;
+
+    errno = 0;
+
     if (dup2(src_fd, target_fd) == -1)
         send_errno_and_exit(status_fd);
 
@@ -1286,6 +1309,10 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
 
         /* Inside child process, execute the program requested */
         if (child_pid == 0) {
+            int stdin_fd;
+            int stdout_fd;
+            int stderr_fd;
+
             /* If we are here, it means the fork() has succeeded and we are in the child
              * process.  All fds should have been closed, except for those which did not have
              * the FD_CLOEXEC flag set.  Only this (current) thread has survived the fork()
@@ -1300,9 +1327,13 @@ static KOS_OBJ_ID spawn(KOS_CONTEXT ctx,
                 send_errno_and_exit(exec_status_fd[1]);
 
             /* Use redirected I/O, if provided by caller */
-            redirect_io(stdin_file,  STDIN_FILENO,  exec_status_fd[1]);
-            redirect_io(stdout_file, STDOUT_FILENO, exec_status_fd[1]);
-            redirect_io(stderr_file, STDERR_FILENO, exec_status_fd[1]);
+            stdin_fd  = get_redirect_fd(stdin_file,  exec_status_fd[1]);
+            stdout_fd = get_redirect_fd(stdout_file, exec_status_fd[1]);
+            stderr_fd = get_redirect_fd(stderr_file, exec_status_fd[1]);
+
+            redirect_io(stdin_fd,  STDIN_FILENO,  exec_status_fd[1]);
+            redirect_io(stdout_fd, STDOUT_FILENO, exec_status_fd[1]);
+            redirect_io(stderr_fd, STDERR_FILENO, exec_status_fd[1]);
 
             /* Execute the program in the child process */
             execve(program_cstr, args_array, env_array);
-- 
2.43.0


From 0e5138c4ba85e1714c5e300887ca0aae5db29654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 75/85] fix: do not search for programs past the end of PATH

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index d0496c8..209b9b6 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1004,7 +1004,7 @@ static int find_program(KOS_CONTEXT  ctx,
             if (does_file_exist(buf_mgr.buf))
                 goto found_program;
 
-            path_env += path_len + 1;
+            path_env = colon ? colon + 1 : KOS_NULL;
         }
     }
 
-- 
2.43.0


From 7acf64a02f2ea318569907321f64c566e386b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 76/85] fix: return from waiting for a process when it is
 stopped

---
 modules/kos_mod_os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_os.c b/modules/kos_mod_os.c
index 209b9b6..08e94b8 100644
--- a/modules/kos_mod_os.c
+++ b/modules/kos_mod_os.c
@@ -1514,7 +1514,7 @@ static KOS_OBJ_ID wait_for_child(KOS_CONTEXT ctx,
             stored_errno = ECHILD;
         }
         else {
-            ret_pid = waitpid(wait_info->pid, &status, 0);
+            ret_pid = waitpid(wait_info->pid, &status, WUNTRACED);
 
             if (ret_pid == -1)
                 stored_errno = errno;
-- 
2.43.0


From eac364e11879b2614566bdf7daa6644dd99bb5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:03 +0000
Subject: [PATCH 77/85] fix: accept the documented flags when sending to and
 receiving from sockets

---
 modules/kos_mod_net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index baa2ad0..e90704d 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -969,7 +969,7 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1098,7 +1098,7 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK | MSG_WAITALL)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1735,7 +1735,7 @@ static KOS_OBJ_ID kos_send(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
@@ -1832,7 +1832,7 @@ static KOS_OBJ_ID kos_sendto(KOS_CONTEXT ctx,
     else
         TRY(KOS_get_integer(ctx, arg, &flags64));
 
-    if (flags64 & (MSG_OOB | MSG_PEEK)) {
+    if (flags64 & ~(int64_t)(MSG_OOB | MSG_PEEK)) {
         KOS_raise_printf(ctx, "flags argument 0x%" PRIx64 " contains unrecognized bits", flags64);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
-- 
2.43.0


From 632a25909d86fbc1fa565b81f4225e36e3b4e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 78/85] fix: sending through a socket in pieces is a success

---
 modules/kos_mod_net.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index e90704d..e61504c 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -1447,8 +1447,9 @@ static int send_loop(KOS_SOCKET              socket_fd,
                      const KOS_GENERIC_ADDR *addr,
                      ADDR_LEN                addr_len)
 {
-    const int send_timeout_sec = 30;
-    int       num_sent;
+    const int      send_timeout_sec = 30;
+    const DATA_LEN total            = size;
+    int            num_sent;
 
     for (;;) {
 #ifdef _WIN32
@@ -1468,7 +1469,7 @@ static int send_loop(KOS_SOCKET              socket_fd,
             num_sent = send(socket_fd, data, size, flags);
 
         if ((DATA_LEN)num_sent == size)
-            break;
+            return (int)total;
 
         if (num_sent >= 0) {
             data += num_sent;
@@ -1504,7 +1505,7 @@ static int send_loop(KOS_SOCKET              socket_fd,
             break;
     }
 
-    return num_sent;
+    return -1;
 }
 
 static int send_one_object(KOS_CONTEXT             ctx,
-- 
2.43.0


From 69d1f6cf10ea3af44f403eeb3096837f1a7bd554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 79/85] fix: receive no bytes instead of failing when a
 non-blocking socket has no data

---
 modules/kos_mod_net.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index e61504c..6e85ba1 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -905,6 +905,24 @@ KOS_DECLARE_STATIC_CONST_STRING(str_size,   "size");
  *
  * This is the same function as `socket.prototype.recv()`.
  */
+/* Returns non-zero if a receiving function failed only because there was no data
+ * available on a non-blocking socket.  For a blocking socket this indicates timeout. */
+static int is_no_data_error(KOS_SOCKET_HOLDER *socket_holder, int error)
+{
+#ifdef _WIN32
+    return ! socket_holder->blocking && error == WSAEWOULDBLOCK;
+#else
+    int flags;
+
+    if (error != EAGAIN && error != EWOULDBLOCK)
+        return 0;
+
+    flags = fcntl(get_socket(socket_holder), F_GETFL);
+
+    return flags != -1 && (flags & O_NONBLOCK);
+#endif
+}
+
 /* @item net socket.prototype.recv()
  *
  *     socket.prototype.recv(size = 4096, buffer = void, flags = 0)
@@ -1004,9 +1022,13 @@ static KOS_OBJ_ID kos_recv(KOS_CONTEXT ctx,
 
     num_read = recv(get_socket(socket_holder), (char *)(data + offset), (DATA_LEN)to_read, (int)flags64);
 
-    if (num_read < 0)
+    if (num_read < 0) {
         saved_errno = get_error();
 
+        if (is_no_data_error(socket_holder, saved_errno))
+            saved_errno = 0;
+    }
+
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
@@ -1158,9 +1180,13 @@ static KOS_OBJ_ID kos_recvfrom(KOS_CONTEXT ctx,
                         (struct sockaddr *)&addr,
                         &addr_len);
 
-    if (num_read < 0)
+    if (num_read < 0) {
         saved_errno = get_error();
 
+        if (is_no_data_error(socket_holder, saved_errno))
+            saved_errno = 0;
+    }
+
     KOS_resume_context(ctx);
 
     assert(num_read <= to_read);
-- 
2.43.0


From 130f960f7d0e7278935c3abd4be397507717ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:16 +0000
Subject: [PATCH 80/85] fix: provide the address of the remote host when
 accepting a connection

---
 modules/kos_mod_net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 6e85ba1..90b2142 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -635,6 +635,8 @@ static KOS_OBJ_ID kos_accept(KOS_CONTEXT ctx,
 
     TRY(KOS_set_property(ctx, ret.o, KOS_CONST_ID(str_socket), sock.o));
 
+    TRY(add_address_desc(ctx, ret.o, &addr, addr_len));
+
 cleanup:
     release_socket(socket_holder);
 
-- 
2.43.0


From cc00b2ea417f35ea683499565b989938a2ca8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:40 +0000
Subject: [PATCH 81/85] fix: abbreviate zeros in IPv6 addresses only once

---
 modules/kos_mod_net.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_net.c b/modules/kos_mod_net.c
index 90b2142..f1b4a9d 100644
--- a/modules/kos_mod_net.c
+++ b/modules/kos_mod_net.c
@@ -395,11 +395,10 @@ static KOS_OBJ_ID address_to_string(KOS_CONTEXT             ctx,
                             if (byte[j])
                                 break;
 
-                        if (j == 16) {
-                            if (buf[pos - 1] != ':') {
-                                buf[pos++] = ':';
-                                buf[pos++] = ':';
-                            }
+                        /* The "::" abbreviation can only be used once */
+                        if (j == 16 && buf[0] != ':') {
+                            buf[pos++] = ':';
+                            buf[pos++] = ':';
                             break;
                         }
                     }
-- 
2.43.0


From e4674d7370107cddbe5a3f68f31ad7c114f36dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:30 +0000
Subject: [PATCH 82/85] fix: classify a division operator at the end of the
 text

---
 core/kos_lexer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index cfc1ce4..e957a32 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -1006,8 +1006,10 @@ int kos_lexer_next_token(KOS_LEXER          *lexer,
                         end = lexer->prefetch_end;
                     }
                 }
-                else
+                else {
                     token->type = TT_OPERATOR;
+                    token->op   = OT_DIV;
+                }
                 break;
             }
             case LT_COMMENT:
-- 
2.43.0


From bd7c9b3c0b174364fed242f40963f2494675d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:51 +0000
Subject: [PATCH 83/85] fix: report the line of a loop when its body ends with
 a statement without code

---
 core/kos_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index cc3178a..301959d 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -714,9 +714,9 @@ static int add_addr2line(KOS_COMP_UNIT   *program,
             (struct KOS_COMP_ADDR_TO_LINE_S *)
                 (addr2line->buffer + (addr2line->size - sizeof(struct KOS_COMP_ADDR_TO_LINE_S)));
 
+        /* No code was generated for the previous location */
         if (last->offs == new_loc.offs) {
-            if (new_loc.line > last->line)
-                last->line = new_loc.line;
+            last->line = new_loc.line;
             return KOS_SUCCESS;
         }
     }
-- 
2.43.0


From bc5d776e77e9e6597855e4971f0c63a2c7ffc419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:51 +0000
Subject: [PATCH 84/85] fix: sort large ordered arrays in reasonable time and
 without stack overflow

---
 modules/kos_mod_base.c | 57 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index b4c4436..6500162 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2246,14 +2246,27 @@ static int is_less_for_sort(KOS_OBJ_ID         left_key,
         return (intptr_t)left_idx > (intptr_t)right_idx;
 }
 
-static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
-                       KOS_ATOMIC(KOS_OBJ_ID) *end,
-                       int                     step,
-                       int                     reverse)
+static void swap_for_sort(KOS_ATOMIC(KOS_OBJ_ID) *a,
+                          KOS_ATOMIC(KOS_OBJ_ID) *b,
+                          int                     step)
 {
-    const KOS_OBJ_ID pivot_key = KOS_atomic_read_relaxed_obj(*(end - step));
-    const KOS_OBJ_ID pivot_idx = KOS_atomic_read_relaxed_obj(*(end - step + 1));
+    int i;
+
+    for (i = 0; i < step; i++) {
+        const KOS_OBJ_ID val = KOS_atomic_read_relaxed_obj(a[i]);
+
+        KOS_atomic_write_relaxed_ptr(a[i], KOS_atomic_read_relaxed_obj(b[i]));
+        KOS_atomic_write_relaxed_ptr(b[i], val);
+    }
+}
 
+static KOS_ATOMIC(KOS_OBJ_ID) *partition_for_sort(KOS_ATOMIC(KOS_OBJ_ID) *begin,
+                                                  KOS_ATOMIC(KOS_OBJ_ID) *end,
+                                                  int                     step,
+                                                  int                     reverse)
+{
+    KOS_OBJ_ID               pivot_key;
+    KOS_OBJ_ID               pivot_idx;
     KOS_ATOMIC(KOS_OBJ_ID)  *mid = begin - step;
     KOS_ATOMIC(KOS_OBJ_ID)  *p   = begin;
     const KOS_COMPARE_RESULT lt  = reverse ? KOS_GREATER_THAN : KOS_LESS_THAN;
@@ -2261,6 +2274,12 @@ static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
 
     end -= step;
 
+    /* Pivot on the middle element, so that arrays which are already sorted are split evenly */
+    swap_for_sort(begin + (((end - begin) / step) / 2) * step, end, step);
+
+    pivot_key = KOS_atomic_read_relaxed_obj(end[0]);
+    pivot_idx = KOS_atomic_read_relaxed_obj(end[1]);
+
     while (p < end) {
         const KOS_OBJ_ID key = KOS_atomic_read_relaxed_obj(p[0]);
         const KOS_OBJ_ID idx = KOS_atomic_read_relaxed_obj(p[1]);
@@ -2308,10 +2327,28 @@ static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
         }
     }
 
-    if (begin + step < mid)
-        sort_range(begin, mid, step, reverse);
-    if (mid + step < end)
-        sort_range(mid + step, end + step, step, reverse);
+    return mid;
+}
+
+static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
+                       KOS_ATOMIC(KOS_OBJ_ID) *end,
+                       int                     step,
+                       int                     reverse)
+{
+    while (begin + step < end) {
+
+        KOS_ATOMIC(KOS_OBJ_ID) *const mid = partition_for_sort(begin, end, step, reverse);
+
+        /* Recurse only into the smaller part to limit stack depth */
+        if (mid - begin < end - mid) {
+            sort_range(begin, mid, step, reverse);
+            begin = mid + step;
+        }
+        else {
+            sort_range(mid + step, end, step, reverse);
+            end = mid;
+        }
+    }
 }
 
 static void copy_sort_results(KOS_CONTEXT ctx,
-- 
2.43.0


From 3675079baa20ce188353bc09c02cb7fcfe3fb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:25 +0000
Subject: [PATCH 85/85] fix: parse numbers which round up to the smallest
 normalized number or beyond the largest one

---
 core/kos_misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 310ae68..58620e2 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -476,7 +476,13 @@ int kos_parse_double(const char *begin,
         if (mantissa & ((uint64_t)1U << 53)) {
             mantissa >>= 1;
             ++exponent;
+
+            if (exponent > 0x3FF)
+                RAISE_ERROR(KOS_ERROR_NUMBER_TOO_BIG);
         }
+        /* Denormalized number may become normalized after carry */
+        else if (exponent == -0x3FF && (mantissa & ((uint64_t)1U << 52)))
+            ++exponent;
     }
 
     {
-- 
2.43.0

