From 06730b420936d83eadc3eb9aa73ecd9cd21b0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 001/102] fix: integer division and modulo of the minimum value
 by -1 no longer stop the process

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..ea10e91 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -214,6 +214,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value divided by -1 wraps around. In C, it is undefined behavior and stops the process on many CPUs.
+    *out = (int32_t)(0 - (uint32_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -225,6 +229,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value divided by -1 wraps around. In C, it is undefined behavior and stops the process on many CPUs.
+    *out = (int64_t)(0 - (uint64_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -262,6 +270,10 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value modulo -1 is undefined behavior in C and stops the process on many CPUs.
+    *out = 0;
+  }
   else {
     int32_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
@@ -275,6 +287,10 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value modulo -1 is undefined behavior in C and stops the process on many CPUs.
+    *out = 0;
+  }
   else {
     int64_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
-- 
2.43.0


From d19673861a3a99fb44c00d2d680588767b5c9112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 002/102] fix: an exception thrown before a nested eval block
 is caught by the eval block that contains it

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..745b95f 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -439,15 +439,21 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
                   // Set IF_EXCEPTION_CATCH opcode index
+                  int32_t eval_block_goto_opcode_index = (intptr_t)SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
                   while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
-                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
+                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_get(goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_eval_on_exception_opcode_index_stack->length - 1);
+                    
+                    // The exceptions thrown before this eval block belong to the outer eval block
+                    if (goto_end_of_eval_on_exception_goto_opcode_index < eval_block_goto_opcode_index) {
+                      break;
+                    }
+                    
+                    SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
                     int32_t goto_end_of_eval_on_exception_goto_opcode_base_index = opcode_list->length;
                     goto_end_of_eval_on_exception_goto->operand0 = goto_end_of_eval_on_exception_goto_opcode_base_index;
                   }
-                  
-                  SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_METHOD) {
                   while (return_opcode_index_stack->length > 0) {
-- 
2.43.0


From 3a2c349dd4483fa3d9decd58c77a9cd6b6c1f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 003/102] fix: object variables declared in conditional
 expressions, loop conditions and loop increments keep the mortal stack
 consistent

---
 .../Builder/include/spvm_opcode_builder.h     |   6 +
 lib/SPVM/Builder/src/spvm_opcode_builder.c    | 129 ++++++++++++++++--
 2 files changed, 123 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_opcode_builder.h b/lib/SPVM/Builder/include/spvm_opcode_builder.h
index 07c7579..a832e24 100644
--- a/lib/SPVM/Builder/include/spvm_opcode_builder.h
+++ b/lib/SPVM/Builder/include/spvm_opcode_builder.h
@@ -10,6 +10,12 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler);
 
 void SPVM_OPCODE_BUILDER_set_opcode_id(SPVM_COMPILER* compiler, SPVM_OPCODE* opcode, int32_t opcode_id);
 
+void SPVM_OPCODE_BUILDER_push_mortal(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_var);
+
+int32_t SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_base);
+
+int32_t SPVM_OPCODE_BUILDER_is_mortal_pushed_op(SPVM_COMPILER* compiler, SPVM_OP* op);
+
 void SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(
   SPVM_COMPILER* compiler,
   SPVM_OPCODE_LIST* opcode_list,
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 745b95f..08ab295 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -275,6 +275,9 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
       int32_t finish = 0;
       
       int32_t mortal_stack_top = 0;
+      
+      // The depth of the operations whose object variable declarations are already pushed to the mortal stack
+      int32_t mortal_pushed_depth = 0;
 
       while (op_cur) {
         
@@ -294,6 +297,12 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
               // Push next block base stack
               int32_t next_block_base = next_opcode_index_stack->length;
               SPVM_LIST_push(loop_block_stack_next_base, (void*)(intptr_t)next_block_base);
+              
+              // The object variables declared in the increment and the condition are evaluated many times. These are left at the end of the loop
+              SPVM_OP* op_loop_increment = SPVM_OP_sibling(compiler, op_cur);
+              SPVM_OP* op_loop_condition = SPVM_OP_sibling(compiler, op_loop_increment);
+              mortal_stack_top += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_loop_increment);
+              mortal_stack_top += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_loop_condition);
 
               SPVM_OPCODE opcode = {0};
               
@@ -331,6 +340,33 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             int32_t typed_var_indexs_top = mortal_stack->length;
             SPVM_LIST_push(block_stack_typed_var_index_top, (void*)(intptr_t)typed_var_indexs_top);
             
+            if (block->id == SPVM_BLOCK_C_ID_LOOP_STATEMENTS) {
+              // The object variables declared in the increment and the condition are also left at the end of the loop statements
+              SPVM_OP* op_loop_increment = SPVM_OP_sibling(compiler, op_cur);
+              SPVM_OP* op_loop_condition = SPVM_OP_sibling(compiler, op_loop_increment);
+              int32_t mortals_length = 0;
+              mortals_length += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_loop_increment);
+              mortals_length += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_loop_condition);
+              mortal_stack_top += mortals_length;
+              if (mortals_length > 0) {
+                block->need_leave_scope = 1;
+              }
+            }
+            
+            break;
+          }
+          case SPVM_OP_C_ID_IF:
+          case SPVM_OP_C_ID_LOOP_INCREMENT:
+          case SPVM_OP_C_ID_CONDITION:
+          case SPVM_OP_C_ID_CONDITION_NOT:
+          {
+            if (SPVM_OPCODE_BUILDER_is_mortal_pushed_op(compiler, op_cur)) {
+              // The blocks without scopes are not always executed. The object variables declared in these are pushed before these
+              if (op_cur->id == SPVM_OP_C_ID_IF && mortal_pushed_depth == 0) {
+                mortal_stack_top += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_cur);
+              }
+              mortal_pushed_depth++;
+            }
             break;
           }
           case SPVM_OP_C_ID_SWITCH: {
@@ -495,7 +531,15 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                 
                 break;
               }
+              case SPVM_OP_C_ID_IF: {
+                if (SPVM_OPCODE_BUILDER_is_mortal_pushed_op(compiler, op_cur)) {
+                  mortal_pushed_depth--;
+                }
+                break;
+              }
               case SPVM_OP_C_ID_LOOP_INCREMENT: {
+                mortal_pushed_depth--;
+                
                 // Set loop first GOTO opcode
                 int32_t loop_first_goto_opcode_index = (intptr_t)SPVM_LIST_get(loop_block_stack_goto_opcode_index, loop_block_stack_goto_opcode_index->length - 1);
                 
@@ -508,6 +552,9 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
               case SPVM_OP_C_ID_CONDITION:
               case SPVM_OP_C_ID_CONDITION_NOT:
               {
+                if (SPVM_OPCODE_BUILDER_is_mortal_pushed_op(compiler, op_cur)) {
+                  mortal_pushed_depth--;
+                }
                 
                 int32_t opcode_index = opcode_list->length;
                 
@@ -797,18 +844,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   SPVM_VAR_DECL* var_decl = op_cur->uv.var->var_decl;
                   
                   SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, var_decl->op_var_decl);
-                  if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
-                    
-                    SPVM_OPCODE opcode = {0};
-                    
-                    SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
-                    int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_cur);
-                    opcode.operand0 = typed_var_index;
-                    
-                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
-                    
-                    SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
-                    
+                  if (mortal_pushed_depth == 0 && SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+                    SPVM_OPCODE_BUILDER_push_mortal(compiler, opcode_list, mortal_stack, op_cur);
                     mortal_stack_top++;
                   }
                   
@@ -5118,6 +5155,74 @@ void SPVM_OPCODE_BUILDER_set_opcode_id(SPVM_COMPILER* compiler, SPVM_OPCODE* opc
   opcode->id = opcode_id;
 }
 
+void SPVM_OPCODE_BUILDER_push_mortal(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_var) {
+  
+  SPVM_OPCODE opcode = {0};
+  
+  SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
+  int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_var);
+  opcode.operand0 = typed_var_index;
+  
+  SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+  
+  SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
+}
+
+// Push all object variables declared in the operation to the mortal stack
+int32_t SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_base) {
+  
+  int32_t mortals_length = 0;
+  
+  SPVM_OP* op_cur = op_base;
+  while (1) {
+    if (op_cur->id == SPVM_OP_C_ID_VAR && op_cur->uv.var->is_declaration) {
+      SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_cur->uv.var->var_decl->op_var_decl);
+      if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+        SPVM_OPCODE_BUILDER_push_mortal(compiler, opcode_list, mortal_stack, op_cur);
+        mortals_length++;
+      }
+    }
+    
+    if (op_cur->first) {
+      op_cur = op_cur->first;
+    }
+    else {
+      while (op_cur != op_base && !op_cur->moresib) {
+        op_cur = op_cur->sibparent;
+      }
+      
+      if (op_cur == op_base) {
+        break;
+      }
+      
+      op_cur = SPVM_OP_sibling(compiler, op_cur);
+    }
+  }
+  
+  return mortals_length;
+}
+
+// If the operation is not executed exactly once in the block, the object variables declared in it are pushed to the mortal stack in advance
+int32_t SPVM_OPCODE_BUILDER_is_mortal_pushed_op(SPVM_COMPILER* compiler, SPVM_OP* op) {
+  
+  switch (op->id) {
+    case SPVM_OP_C_ID_IF: {
+      SPVM_OP* op_block_true = SPVM_OP_sibling(compiler, op->first);
+      return op_block_true->uv.block->no_scope;
+    }
+    case SPVM_OP_C_ID_LOOP_INCREMENT: {
+      return 1;
+    }
+    case SPVM_OP_C_ID_CONDITION:
+    case SPVM_OP_C_ID_CONDITION_NOT:
+    {
+      return !!(op->flag & SPVM_OP_C_FLAG_CONDITION_LOOP);
+    }
+  }
+  
+  return 0;
+}
+
 void SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(
   SPVM_COMPILER* compiler,
   SPVM_OPCODE_LIST* opcode_list,
-- 
2.43.0


From c9d800e0760386a910a90687813d8b1e586a3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 004/102] fix: an exception thrown by setting undef to an
 element of an object[] array is caught by the eval block that contains it

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 08ab295..327fd19 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4666,6 +4666,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       opcode.operand0 = typed_var_index_array;
                       opcode.operand1 = typed_var_index_index;
                       SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+
+                      SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
                     }
                     else {
                       SPVM_OPCODE opcode = {0};
-- 
2.43.0


From d77751926f6be7418823a059f24cf4f84b4126aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 005/102] fix: assigning a multi-numeric value to a
 dereferenced multi-numeric reference no longer aborts the compiler

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 48 ++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 327fd19..890e328 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4570,6 +4570,54 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                     SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                   }
                 }
+                // $$mulnum_ref = $mulnum
+                else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE && SPVM_TYPE_is_mulnum_ref_type(compiler, SPVM_CHECK_get_type(compiler, op_assign_dist->first)->basic_type->id, SPVM_CHECK_get_type(compiler, op_assign_dist->first)->dimension, SPVM_CHECK_get_type(compiler, op_assign_dist->first)->flag)) {
+                  SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_assign_dist->first);
+                  
+                  int32_t typed_var_index_out = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_dist);
+                  int32_t typed_var_index_in = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_src);
+                  
+                  for (int32_t field_index = 0; field_index < type->basic_type->fields->length; field_index++) {
+                    SPVM_FIELD* field = SPVM_LIST_get(type->basic_type->fields, field_index);
+                    
+                    SPVM_OPCODE opcode = {0};
+                    
+                    switch (field->type->basic_type->id) {
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_BYTE);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_SHORT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_INT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_LONG);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_FLOAT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_DOUBLE);
+                        break;
+                      }
+                      default: {
+                        assert(0);
+                      }
+                    }
+                    
+                    opcode.operand0 = typed_var_index_out;
+                    opcode.operand1 = typed_var_index_in + field_index;
+                    opcode.operand2 = field_index;
+                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+                  }
+                }
                 // $$var_ref = $var
                 else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
                   SPVM_OP* op_deref = op_assign_dist;
-- 
2.43.0


From 7510c2bb2ae22d6120cdeeb010fe2eb0882c9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 006/102] fix: compile_type_name operator no longer aborts the
 compiler when its type name is not a constant string of the class

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..55e1120 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1460,6 +1460,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_TYPE* operand_type = SPVM_CHECK_get_type(compiler, op_operand);
             const char* type_name = SPVM_TYPE_new_type_name(compiler, operand_type->basic_type->id, operand_type->dimension, operand_type->flag);
             SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
+            SPVM_BASIC_TYPE_add_constant_string(compiler, basic_type, type_name, strlen(type_name));
             SPVM_OP* op_constant_string = SPVM_OP_new_op_constant_string(compiler, type_name, strlen(type_name), op_cur->file, op_cur->line);
             SPVM_OP_replace_op(compiler, op_stab, op_constant_string);
             op_cur = op_constant_string;
-- 
2.43.0


From 2cacc60d902429b67ebb6ca100b667c2ce19312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 007/102] fix: casting an undefined byte[] value to string
 returns undef as the opposite cast does

---
 lib/SPVM/Builder/include/spvm_implement.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index ea10e91..6956c2e 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2238,10 +2238,15 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From f5636a8030761513f9471d1d52eb63153b12caa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 008/102] fix: special assignment and increment operators on a
 field of a multi-numeric variable change that variable, not a copy

---
 lib/SPVM/Builder/src/spvm_op.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..d05e5d8 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2761,6 +2761,17 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
       SPVM_OP* op_dist_clone_set = op_array_field_access_clone_set;
       SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone_set, op_culc);
     }
+    else if (op_invocant->id == SPVM_OP_C_ID_VAR && !op_invocant->uv.var->is_declaration) {
+      // The variable itself is the invocant because it could be a multi-numeric value, which is copied by an assignment
+      SPVM_OP* op_name_field_get = SPVM_OP_new_op_name(compiler, op_name_field->uv.name, op_name_field->file, op_name_field->line);
+      SPVM_OP* op_field_access_clone_get = SPVM_OP_clone_op_field_access(compiler, op_field_access, op_invocant, op_name_field_get);
+      SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_field_access_clone_get);
+      
+      SPVM_OP* op_var_invocant_set = SPVM_OP_clone_op_var(compiler, op_invocant);
+      SPVM_OP* op_name_field_set = SPVM_OP_new_op_name(compiler, op_name_field->uv.name, op_name_field->file, op_name_field->line);
+      SPVM_OP* op_field_access_clone_set = SPVM_OP_clone_op_field_access(compiler, op_field_access, op_var_invocant_set, op_name_field_set);
+      SPVM_OP_build_assign(compiler, op_assign_update, op_field_access_clone_set, op_culc);
+    }
     else {
       SPVM_OP* op_assign_invocant_get = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_ASSIGN, op_invocant->file, op_invocant->line);
       SPVM_OP* op_name_var_invocant = SPVM_OP_new_op_name_tmp_var(compiler, op_invocant->file, op_invocant->line);
-- 
2.43.0


From eba532f076331df6d75e71657ff71e1cb1cd98d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 009/102] fix: List insert method inserts undef when the
 element is undef

---
 lib/SPVM/List.spvm | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ddee985..600bcfd 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -114,12 +114,8 @@ class List {
     
     my $remove_length = 0;
     
-    my $array = (object[])undef;
-    
-    if ($element) {
-      $array = Array->new_array_proto_element($element, 1);
-      $array->[0] = $element;
-    }
+    my $array = (object[])Array->new_proto($self->{array}, 1);
+    $array->[0] = $element;
     
     $self->replace($index, $remove_length, $array);
   }
-- 
2.43.0


From 0bb5f3ef4867bb05204c987ebe435360d325316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 010/102] fix: List remove and replace methods release the
 removed elements at the end of the list

---
 lib/SPVM/List.spvm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 600bcfd..1f30a75 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -218,6 +218,10 @@ class List {
         $self->set($index + $replace_length + $i, $element);
         $self->set($index + $remove_length + $i, undef);
       }
+      
+      for (my $i = $new_length; $i < $self->{length}; $i++) {
+        $self->set($i, undef);
+      }
     }
     
     $self->{length} = $new_length;
-- 
2.43.0


From f72e023436a87c330d944b6eedea3e890d4cd469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 011/102] fix: List reserve method extends a list whose first
 element is not at the start of its array

---
 lib/SPVM/List.spvm | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 1f30a75..ebc41be 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -384,11 +384,12 @@ class List {
     
     my $offset = $self->{offset};
     
-    Array->memcpy_object_address($new_array, $offset, $array, $offset, $capacity - $offset);
+    Array->memcpy_object_address($new_array, 0, $array, $offset, $capacity - $offset);
     
-    Array->memcpy_object_address($new_array, $capacity, $array, 0, $offset);
+    Array->memcpy_object_address($new_array, $capacity - $offset, $array, 0, $offset);
     
     $self->{array} = $new_array;
     $self->{capacity} = $new_capacity;
+    $self->{offset} = 0;
   }
 }
-- 
2.43.0


From a821965c19a83c4eeda48e5110224d12c4bf1d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 012/102] fix: the checks of an offset and a length do not
 overflow

---
 lib/SPVM/Array.c           | 48 +++++++++++++++++++-------------------
 lib/SPVM/Array.spvm        | 42 ++++++++++++++++-----------------
 lib/SPVM/ByteList.spvm     |  2 +-
 lib/SPVM/DoubleList.spvm   |  2 +-
 lib/SPVM/FloatList.spvm    |  2 +-
 lib/SPVM/Fn.c              | 12 +++++-----
 lib/SPVM/Fn.spvm           | 16 ++++++-------
 lib/SPVM/IntList.spvm      |  2 +-
 lib/SPVM/List.spvm         |  2 +-
 lib/SPVM/LongList.spvm     |  2 +-
 lib/SPVM/ShortList.spvm    |  2 +-
 lib/SPVM/Sort.spvm         | 16 ++++++-------
 lib/SPVM/StringBuffer.spvm |  4 ++--
 13 files changed, 76 insertions(+), 76 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index d7f92a6..69361b2 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -45,11 +45,11 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -96,11 +96,11 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -147,11 +147,11 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -198,11 +198,11 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -249,11 +249,11 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -300,11 +300,11 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -351,11 +351,11 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -402,11 +402,11 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -453,11 +453,11 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -504,11 +504,11 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -555,11 +555,11 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -606,11 +606,11 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 607e93e..fb52906 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -23,7 +23,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -49,7 +49,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -75,7 +75,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -127,7 +127,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -170,7 +170,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -195,7 +195,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -222,7 +222,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -593,11 +593,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($length <= $dest_length - $dest_offset) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($length <= $source_length - $source_offset) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -639,11 +639,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($length <= $dest_length - $dest_offset) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($length <= $source_length - $source_offset) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -677,7 +677,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -700,7 +700,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -723,7 +723,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -746,7 +746,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -769,7 +769,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -792,7 +792,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -815,7 +815,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1100,7 +1100,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1416,7 +1416,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index dac6c47..2b94d36 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -157,7 +157,7 @@ class ByteList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index bb064de..5e3299c 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -157,7 +157,7 @@ class DoubleList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 32fafca..c6104be 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -157,7 +157,7 @@ class FloatList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index d173bb3..e478f8e 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -384,7 +384,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -393,7 +393,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -443,7 +443,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -452,7 +452,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -841,7 +841,7 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
-  if (!(data1_offset + length <= data1_byte_length)) {
+  if (!(length <= data1_byte_length - data1_offset)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -850,7 +850,7 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
-  if (!(data2_offset + length <= data2_byte_length)) {
+  if (!(length <= data2_byte_length - data2_offset)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index af56212..790224a 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -132,12 +132,12 @@ class Fn {
     }
     
     my $string1_length = length $string1;
-    unless ($string1_offset + $length <= $string1_length) {
+    unless ($length <= $string1_length - $string1_offset) {
       return 0;
     }
     
     my $string2_length = length $string2;
-    unless ($string1_offset + $length <= $string2_length) {
+    unless ($length <= $string2_length - $string1_offset) {
       return 0;
     }
     
@@ -266,7 +266,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -813,7 +813,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1099,7 +1099,7 @@ class Fn {
           $range = 0;
         }
         else {
-          if ($current_utf8_offset < $utf8_offset + $utf8_length) {
+          if ($current_utf8_offset - $utf8_offset < $utf8_length) {
             $range = 0;
           }
           else {
@@ -1120,7 +1120,7 @@ class Fn {
     }
     
     if ($utf8_length >= 0) {
-      unless ($utf8_offset + $utf8_length <= $current_utf8_offset) {
+      unless ($utf8_length <= $current_utf8_offset - $utf8_offset) {
         die "The offset \$utf8_offset + the length \$utf8_length must be less than or equal to the UTF-8 length of the string \$string.";
       }
     }
@@ -1265,7 +1265,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1702,7 +1702,7 @@ class Fn {
     
     my $binary_length = length $binary;
     
-    unless ($offset + $size <= $binary_length) {
+    unless ($size <= $binary_length - $offset) {
       die "The byte size \$size must be less than or equal to the offset \$offset plus the length of the binary data \$binary.";
     }
     
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a5a5b18..30cbac1 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -157,7 +157,7 @@ class IntList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ebc41be..fcdf045 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -183,7 +183,7 @@ class List {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($index + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $index) {
       die "The index \$index + the removal length \$remove_length must be less than or equal to the length of this list.";
     }
     
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index ffaef68..a997f94 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -157,7 +157,7 @@ class LongList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffaf6c5..e0b33db 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -157,7 +157,7 @@ class ShortList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/Sort.spvm b/lib/SPVM/Sort.spvm
index 7694a53..5d9307c 100644
--- a/lib/SPVM/Sort.spvm
+++ b/lib/SPVM/Sort.spvm
@@ -29,7 +29,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -65,7 +65,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -137,7 +137,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -173,7 +173,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -209,7 +209,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -240,7 +240,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -276,7 +276,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index c9db6ff..2bd8782 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -78,7 +78,7 @@ class StringBuffer {
       $length = length $string - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string $string.";
     }
     
@@ -108,7 +108,7 @@ class StringBuffer {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$string buffer.";
     }
     
-- 
2.43.0


From 046af4842d6a6c7af6707f8fa42fb08b51103d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 013/102] fix: Fn equals_string_range method checks the range
 of the second string with its own offset

---
 lib/SPVM/Fn.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 790224a..eaad6b5 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -137,7 +137,7 @@ class Fn {
     }
     
     my $string2_length = length $string2;
-    unless ($length <= $string2_length - $string1_offset) {
+    unless ($length <= $string2_length - $string2_offset) {
       return 0;
     }
     
-- 
2.43.0


From 4beba407d70c61bad9b6f80f91605fa938f1e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 014/102] fix: a Hash keeps its weak values weak when it grows

---
 lib/SPVM/Hash.spvm | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Hash.spvm b/lib/SPVM/Hash.spvm
index cac90bc..48bec6b 100644
--- a/lib/SPVM/Hash.spvm
+++ b/lib/SPVM/Hash.spvm
@@ -699,13 +699,15 @@ class Hash {
     my $entries_length = @{$self->{entries}};
     $new_entries_length = @{$self->{entries}} * 2;
     my $new_entries = new Hash::Entry [$new_entries_length];
-    my $new_keys_length = 0;
     # iterate entries
     for (my $i = 0; $i < $entries_length; ++$i) {
       my $entry = $self->{entries}->[$i];
       while ($entry) {
-        $self->_set_to_container($new_entries, $new_entries_length, \$new_keys_length, $entry->{key}, $entry->{value});
-        $entry = $entry->{next_entry};
+        my $next_entry = $entry->{next_entry};
+        my $index = $self->_index_by_key($entry->{key}, $new_entries_length);
+        $entry->{next_entry} = $new_entries->[$index];
+        $new_entries->[$index] = $entry;
+        $entry = $next_entry;
       }
     }
     $self->{entries} = $new_entries;
-- 
2.43.0


From 98b6798fab849b0d68631c1c0d0cc3b942fe0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 015/102] fix: StringBuffer replace method fills the characters
 after the new length with \0

---
 lib/SPVM/StringBuffer.spvm | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index 2bd8782..a76b571 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -117,7 +117,8 @@ class StringBuffer {
       $replace_length = length $replace;
     }
     
-    my $new_length = $self->{length} - $remove_length + $replace_length;
+    my $length = $self->{length};
+    my $new_length = $length - $remove_length + $replace_length;
     $self->_maybe_extend($new_length);
     
     my $move_length = $self->{length} - $offset - $remove_length;
@@ -127,6 +128,10 @@ class StringBuffer {
       Fn->memcpy($self->{string}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $length) {
+      Fn->memset_char($self->{string}, '\0', $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From 0eaf0fdda2a171364ee8a0a94fa3f9709d09dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 016/102] fix: Fn memcpy, memmove and memcmp methods reject
 negative offsets

---
 lib/SPVM/Fn.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index e478f8e..0003ed2 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -384,6 +384,10 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
@@ -393,6 +397,10 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
@@ -443,6 +451,10 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
@@ -452,6 +464,10 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
@@ -841,6 +857,10 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
+  if (!(data1_offset >= 0)) {
+    return env->die(env, stack, "The offset $data1_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= data1_byte_length - data1_offset)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
@@ -850,6 +870,10 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
+  if (!(data2_offset >= 0)) {
+    return env->die(env, stack, "The offset $data2_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length <= data2_byte_length - data2_offset)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
-- 
2.43.0


From ac6bf284da159de23adc720d18a2982bc745de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 017/102] fix: Fn methods to convert a string to a number
 reject strings without a number and strings with a null character

---
 lib/SPVM/Fn.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 0003ed2..d1c540a 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -524,7 +524,7 @@ int32_t SPVM__Fn__to_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   double num = strtod(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a double number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -549,7 +549,7 @@ int32_t SPVM__Fn__to_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   float num = strtof(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a float number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -579,7 +579,7 @@ int32_t SPVM__Fn__to_int_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtol(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 32-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE || num < INT32_MIN || num > INT32_MAX) {
@@ -609,7 +609,7 @@ int32_t SPVM__Fn__to_long_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtoll(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 64-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
-- 
2.43.0


From baef288b2686bdc8e20d3ece8b28cfca02f0d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 018/102] fix: Fn lcfirst and ucfirst methods return an empty
 string for an empty string

---
 lib/SPVM/Fn.spvm | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index eaad6b5..2ddd691 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -544,8 +544,9 @@ class Fn {
       else {
         $new_string->[0] = $char;
       }
+      
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     
     return $new_string;
   }
@@ -1047,8 +1048,9 @@ class Fn {
       else {
         $new_string->[0] = $char;
       }
+      
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     
     return $new_string;
   }
-- 
2.43.0


From 0a517dc4bf5fb1952208626dcb7dc4e2bfa88192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 019/102] fix: Array repeat method repeats the array

---
 lib/SPVM/Array.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index fb52906..a783ca4 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1497,13 +1497,13 @@ class Array {
     my $ret_array = Array->new_proto_any($array, $ret_length);
     
     if (Fn->is_object_array($array)) {
-      for (my $i = 0; $i < $length; $i++) {
-        Array->memcpy_object_address((object[])$ret_array, $count * $i, (object[])$array, 0, $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Array->memcpy_object_address((object[])$ret_array, $length * $i, (object[])$array, 0, $length);
       }
     }
     else {
-      for (my $i = 0; $i < $length; $i++) {
-        Fn->memcpy($ret_array, $elem_size * $count * $i, $array, 0, $elem_size * $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Fn->memcpy($ret_array, $elem_size * $length * $i, $array, 0, $elem_size * $length);
       }
     }
     
-- 
2.43.0


From 71a921fae7cb8a903af21feeb602512892ccbbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 020/102] fix: Fn slice method rejects a range outside the
 array when its byte offset overflows

---
 lib/SPVM/Fn.spvm | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 2ddd691..8d67bfc 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1588,6 +1588,18 @@ class Fn {
       die "The type of the array \$array must be an object array type, a numeric array type or a multi-numeric array type.";
     }
     
+    unless ($offset >= 0) {
+      die "The offset \$offset must be greater than or equal to 0.";
+    }
+    
+    unless ($length >= 0) {
+      die "The length \$length must be greater than or equal to 0.";
+    }
+    
+    unless ($length <= &array_length($array) - $offset) {
+      die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
+    }
+    
     my $sliced_array = Array->new_proto_any($array, $length);
     
     if (&is_object_array($array)) {
-- 
2.43.0


From c4f63794b4197708ca97ff7381c3755b57666f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 021/102] fix: Format sprintf method does not read behind the
 buffer when the text of a floating point number is long

---
 lib/SPVM/Format.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 815f2ce..6064def 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -37,15 +37,18 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%f");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  if (!(length >= 0)) {
+    return env->die(env, stack, "The value cannot be formatted with the precision %d.", __func__, FILE_NAME, __LINE__, precision);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
@@ -64,15 +67,18 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%g");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  if (!(length >= 0)) {
+    return env->die(env, stack, "The value cannot be formatted with the precision %d.", __func__, FILE_NAME, __LINE__, precision);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
-- 
2.43.0


From 2fd00a2e53d4053e35972ce5b2c0698ebc8d4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 022/102] fix: Format sprintf method formats an empty string

---
 lib/SPVM/Format.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 3a7756a..9a269ae 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -333,7 +333,7 @@ class Format {
 
   precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
     my $is_minus = 0;
-    if ($formatted_value->[0] == '-') {
+    if (length $formatted_value > 0 && $formatted_value->[0] == '-') {
        $is_minus = 1;
     }
     
-- 
2.43.0


From 51d734f58db0ac33e95f4c87104162f910f88905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 023/102] fix: Format sprintf method places the sign before
 padding zeros

---
 lib/SPVM/Format.spvm | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 9a269ae..06ece41 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -328,6 +328,14 @@ class Format {
     # "+" sign is always ignored.
     my $plus_sign = 0;
     
+    # "-" is not a sign, so padding characters are placed before it.
+    unless ($left_justified) {
+      for (my $space_count = $width - length $formatted_value; $space_count > 0; --$space_count) {
+        $buffer->push_char($pad_char);
+      }
+      $width = 0;
+    }
+    
     &_push_formatted_string_signed($buffer, $formatted_value, $width, $pad_char, $left_justified, $plus_sign);
   }
 
@@ -356,6 +364,18 @@ class Format {
       }
     }
     else {
+      # The sign is placed before zeros
+      if ($pad_char == '0' && $space_count > 0) {
+        if ($is_minus) {
+          $buffer->push_char('-');
+          $formatted_value = Fn->substr($formatted_value, 1, length $formatted_value - 1);
+        }
+        elsif ($plus_sign) {
+          $buffer->push_char('+');
+          $plus_sign = 0;
+        }
+      }
+      
       if ($space_count > 0) {
         for (; $space_count > 0; --$space_count) {
           $buffer->push_char($pad_char);
-- 
2.43.0


From f7fb587aef5102f52ba1198e97361df9d36c08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 024/102] fix: Packer converts the endian of every element of
 an array

---
 lib/SPVM/Packer.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 45154b1..998029f 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -256,10 +256,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->system_endian_to_big_endian($binary_part, $size);
+            Fn->system_endian_to_big_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->system_endian_to_little_endian($binary_part, $size);
+            Fn->system_endian_to_little_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -364,10 +364,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->big_endian_to_system_endian($binary_part, $size);
+            Fn->big_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->little_endian_to_system_endian($binary_part, $size);
+            Fn->little_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
-- 
2.43.0


From 9d1ef4131e6783a4bccd08b2857ab56f91967f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 025/102] fix: Packer unpack method returns two hexadecimal
 digits for every byte

---
 lib/SPVM/Packer.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 998029f..4dbfa02 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -391,7 +391,7 @@ class Packer {
             $int_object_array->[$i] = Int->new($number & 0xFF);
           }
           
-          my $format = Fn->repeat("%x", $process_length);
+          my $format = Fn->repeat("%02x", $process_length);
           
           my $hex_string_part = (mutable string)Fn->sprintf($format, (object[])$int_object_array);
           
-- 
2.43.0


From 0e12d695aa9b8f10966358d910d213763c4cec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 026/102] fix: the length checks of Packer do not overflow

---
 lib/SPVM/Packer.spvm | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 4dbfa02..b6fa345 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -235,7 +235,11 @@ class Packer {
       }
       
       if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+        $process_length = $process_length / 2 + $process_length % 2;
+      }
+      
+      unless ($process_length <= Fn->INT_MAX / $size) {
+        die "The length of the specifier in the template \"$template\" is too large.";
       }
       
       my $binary_part_size = $size * $process_length;
@@ -347,10 +351,10 @@ class Packer {
       }
       
       if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+        $process_length = $process_length / 2 + $process_length % 2;
       }
       
-      unless ($binary_offset + $size * $process_length <= $binary_length) {
+      unless ($process_length <= ($binary_length - $binary_offset) / $size) {
         die "The current offset $binary_offset plus (the size $size * the process length culcuralted by $length of the specifier) must be less than the length($binary_length) of the binary data \$binary.";
       }
       
-- 
2.43.0


From c3fcb27797e1b305fbc9ed5709cb0f8ab138915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 027/102] fix: the length * of the specifiers h and H of Packer
 takes the whole string

---
 lib/SPVM/Packer.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index b6fa345..56c22e8 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -234,7 +234,7 @@ class Packer {
         $process_length = $length;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+      if (!$has_wildcard_length && ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH)) {
         $process_length = $process_length / 2 + $process_length % 2;
       }
       
@@ -350,7 +350,7 @@ class Packer {
         $process_length = ($binary_length - $binary_offset) / $size;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+      if (!$has_wildcard_length && ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH)) {
         $process_length = $process_length / 2 + $process_length % 2;
       }
       
-- 
2.43.0


From 7f362295d27d65fae1c407f144debbbddb8f7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 028/102] fix: the dump operator ends for an array that
 contains itself

---
 lib/SPVM/Builder/src/spvm_api.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..3a35f03 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3403,6 +3403,16 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
       SPVM_STRING_BUFFER_add(string_buffer, "\"");
     }
     else if (type_dimension > 0) {
+      // If the array contains itself, directly or through other objects, it is not dumped again
+      char array_address[32] = {0};
+      snprintf(array_address, sizeof(array_address), "%p", SPVM_API_get_object_no_weaken_address(env, stack, object));
+      if (SPVM_HASH_get(address_symtable, array_address, strlen(array_address))) {
+        snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "REUSE_OBJECT(%s)", array_address);
+        SPVM_STRING_BUFFER_add(string_buffer, tmp_buffer);
+        return;
+      }
+      SPVM_HASH_set(address_symtable, array_address, strlen(array_address), (void*)(intptr_t)1);
+      
       int32_t array_length = SPVM_API_length(env, stack, object);
       int32_t element_type_dimension = type_dimension - 1;
       
@@ -3558,6 +3568,8 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
       // If the object is weaken, this get the real address
       snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "(%p)", SPVM_API_get_object_no_weaken_address(env, stack, object));
       SPVM_STRING_BUFFER_add(string_buffer, tmp_buffer);
+      
+      SPVM_HASH_set(address_symtable, array_address, strlen(array_address), NULL);
     }
     else {
       // If the object is weaken, this get the real address
-- 
2.43.0


From 67a6a408747965e7f66f4c8744f2090958659e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 029/102] fix: the make_read_only operator accepts an undefined
 string

---
 lib/SPVM/Builder/src/spvm_api.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 3a35f03..b2a960a 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3677,8 +3677,7 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
 }
 
 void SPVM_API_make_read_only(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* string) {
-  SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
-  if (string && string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
+  if (SPVM_API_is_string(env, stack, string)) {
     string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
   }
 }
-- 
2.43.0


From 5975f41bbd995afdc8ff667ca0f452ae9a3f419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 030/102] fix: Immutable::DoubleList to_array method returns a
 new array

---
 lib/SPVM/Immutable/DoubleList.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Immutable/DoubleList.spvm b/lib/SPVM/Immutable/DoubleList.spvm
index 636d73e..c476272 100644
--- a/lib/SPVM/Immutable/DoubleList.spvm
+++ b/lib/SPVM/Immutable/DoubleList.spvm
@@ -67,6 +67,6 @@ class Immutable::DoubleList {
     
     Array->memcpy_double($new_array, 0, $array, 0, $length);
     
-    return $array;
+    return $new_array;
   }
 }
-- 
2.43.0


From c98040255850effcab60260a7787d9c9dbf5f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 031/102] fix: free_env and free of a compiler release all of
 their memory

---
 lib/SPVM/Builder/src/spvm_api.c      | 1 +
 lib/SPVM/Builder/src/spvm_compiler.c | 2 ++
 lib/SPVM/Builder/src/spvm_runtime.c  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index b2a960a..7151d22 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -346,6 +346,7 @@ void SPVM_API_free_env(SPVM_ENV* env) {
   SPVM_API_METHOD_free_api(env->api->method);
   SPVM_API_ARG_free_api(env->api->arg);
   SPVM_API_INTERNAL_free_api(env->api->internal);
+  SPVM_API_MUTEX_free_api(env->api->mutex);
   
   free(env->api);
   
diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..ea374be 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -141,6 +141,8 @@ void SPVM_COMPILER_free(SPVM_COMPILER* compiler) {
   
   SPVM_ALLOCATOR_free(compiler->global_allocator);
   compiler->global_allocator = NULL;
+  
+  SPVM_ALLOCATOR_free_memory_block_unmanaged(compiler);
 }
 
 int32_t SPVM_COMPILER_compile_anon_class(SPVM_COMPILER* compiler, const char* source, const char** anon_basic_type_name_ptr) {
diff --git a/lib/SPVM/Builder/src/spvm_runtime.c b/lib/SPVM/Builder/src/spvm_runtime.c
index 20ba5af..57f1fea 100644
--- a/lib/SPVM/Builder/src/spvm_runtime.c
+++ b/lib/SPVM/Builder/src/spvm_runtime.c
@@ -151,4 +151,6 @@ void SPVM_RUNTIME_free(SPVM_RUNTIME* runtime) {
   // Free allocator
   SPVM_ALLOCATOR_free(runtime->allocator);
   runtime->allocator = NULL;
+  
+  SPVM_ALLOCATOR_free_memory_block_unmanaged(runtime);
 }
-- 
2.43.0


From 19796456f0e8a039e7d537e557b27683429238eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 032/102] fix: compile errors that contain a % are reported as
 they are by Native::Compiler

---
 lib/SPVM/Native.c          | 2 +-
 lib/SPVM/Native/Compiler.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Native.c b/lib/SPVM/Native.c
index 8f64da3..dbda894 100644
--- a/lib/SPVM/Native.c
+++ b/lib/SPVM/Native.c
@@ -87,7 +87,7 @@ int32_t SPVM__Native__check_bootstrap_method(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   error_id = env->check_bootstrap_method(env, stack, basic_type_name);
   if (error_id) {
-    return env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
+    return env->die(env, stack, "%s", env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
   }
   
   return 0;
diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index 33d8208..eebf104 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -113,7 +113,7 @@ int32_t SPVM__Native__Compiler__compile(SPVM_ENV* env, SPVM_VALUE* stack) {
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
@@ -304,7 +304,7 @@ int32_t SPVM__Native__Compiler__compile_anon_class(SPVM_ENV* env, SPVM_VALUE* st
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
-- 
2.43.0


From 9ce0c169ec0cf0c89c153f8eec41034b09b5c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 033/102] fix: compile errors whose reason contains a % are not
 taken as a format

---
 lib/SPVM/Builder/src/spvm_check.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 55e1120..13bbf60 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -495,7 +495,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
               
               if (!satisfy_assignment_requirement) {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 
                 SPVM_COMPILER_error(compiler, "The default value of the optional argument %s must be able to be assigned to the argument.\n  at %s line %d", arg_var_decl->var->name, method->op_method->file, method->op_method->line);
@@ -794,7 +794,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface_common(compiler, basic_type->id, parent_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
       
@@ -809,7 +809,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface(compiler, basic_type->id, interface_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
     }
@@ -2222,7 +2222,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               }
               else {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
                 SPVM_OP* op_constant_false = SPVM_OP_new_op_constant_int(compiler, 0, op_cur->file, op_cur->line);
@@ -3382,7 +3382,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             
             if (!castability) {
               if (strlen(error_reason)) {
-                SPVM_COMPILER_error(compiler, error_reason);
+                SPVM_COMPILER_error(compiler, "%s", error_reason);
               }
               
               const char* src_type_name = SPVM_TYPE_new_type_name(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag);
@@ -4245,7 +4245,7 @@ SPVM_OP* SPVM_CHECK_check_assign(SPVM_COMPILER* compiler, SPVM_TYPE* dist_type,
     
   if (!satisfy_assignment_requirement) {
     if (strlen(error_reason)) {
-      SPVM_COMPILER_error(compiler, error_reason);
+      SPVM_COMPILER_error(compiler, "%s", error_reason);
     }
     
     SPVM_COMPILER_error(compiler, "%s type cannot be assigned to %s type in %s.\n  at %s line %d", src_type_name, dist_type_name, place, file, line);
-- 
2.43.0


From 4129677c889361b206e207a20cc5edefaf4fa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 034/102] fix: compile errors about classes compiled earlier do
 not use freed memory

---
 lib/SPVM/Builder/include/spvm_basic_type.h |  2 ++
 lib/SPVM/Builder/include/spvm_method.h     |  2 ++
 lib/SPVM/Builder/src/spvm_basic_type.c     |  8 ++++----
 lib/SPVM/Builder/src/spvm_op.c             |  4 ++++
 lib/SPVM/Builder/src/spvm_type.c           | 10 +++++-----
 5 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_basic_type.h b/lib/SPVM/Builder/include/spvm_basic_type.h
index 4bd82cb..0415ea3 100644
--- a/lib/SPVM/Builder/include/spvm_basic_type.h
+++ b/lib/SPVM/Builder/include/spvm_basic_type.h
@@ -17,6 +17,8 @@ struct spvm_basic_type {
   SPVM_OP* op_class;
   SPVM_OP* op_name;
   SPVM_OP* op_extends;
+  const char* op_class_file;
+  int32_t op_class_line;
   const char* file;
   const char* class_dir;
   const char* class_rel_file;
diff --git a/lib/SPVM/Builder/include/spvm_method.h b/lib/SPVM/Builder/include/spvm_method.h
index b86dc85..44e8897 100644
--- a/lib/SPVM/Builder/include/spvm_method.h
+++ b/lib/SPVM/Builder/include/spvm_method.h
@@ -12,6 +12,8 @@ struct spvm_method {
   SPVM_OP* op_method;
   SPVM_OP* op_name;
   SPVM_OP* op_block;
+  const char* op_method_file;
+  int32_t op_method_line;
   SPVM_TYPE* return_type;
   SPVM_LIST* var_decls;
   SPVM_LIST* anon_method_fields;
diff --git a/lib/SPVM/Builder/src/spvm_basic_type.c b/lib/SPVM/Builder/src/spvm_basic_type.c
index 05c40f1..28a1dc7 100644
--- a/lib/SPVM/Builder/src/spvm_basic_type.c
+++ b/lib/SPVM/Builder/src/spvm_basic_type.c
@@ -227,7 +227,7 @@ int32_t SPVM_BASIC_TYPE_has_interface(SPVM_COMPILER* compiler, int32_t src_basic
   
   if (!(dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class_file, dist_basic_type->op_class_line);
     }
     return 0;
   }
@@ -243,14 +243,14 @@ int32_t SPVM_BASIC_TYPE_has_interface_common(SPVM_COMPILER* compiler, int32_t sr
   
   if (!(src_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS || src_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The source type %s of the operand must be a class type or an interface type.\n  at %s line %d", src_basic_type->name, src_basic_type->op_class->file, src_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The source type %s of the operand must be a class type or an interface type.\n  at %s line %d", src_basic_type->name, src_basic_type->op_class_file, src_basic_type->op_class_line);
     }
     return 0;
   }
   
   if (!(dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS || dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class_file, dist_basic_type->op_class_line);
     }
     return 0;
   }
@@ -294,7 +294,7 @@ int32_t SPVM_BASIC_TYPE_has_interface_common(SPVM_COMPILER* compiler, int32_t sr
       
       if (dist_method->is_required && !src_method) {
         if (error_reason) {
-          snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s %s must define %s method because its interface method is defined as a required method in %s %s.\n  at %s line %d", src_basic_type->name, src_basic_type_category_name, dist_method->name, dist_basic_type->name, dist_basic_type_category_name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+          snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s %s must define %s method because its interface method is defined as a required method in %s %s.\n  at %s line %d", src_basic_type->name, src_basic_type_category_name, dist_method->name, dist_basic_type->name, dist_basic_type_category_name, dist_basic_type->op_class_file, dist_basic_type->op_class_line);
         }
         return 0;
       }
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index d05e5d8..771ff52 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -289,6 +289,8 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   type->basic_type = basic_type;
   
   type->basic_type->op_class = op_class;
+  type->basic_type->op_class_file = op_class->file;
+  type->basic_type->op_class_line = op_class->line;
   type->basic_type->op_extends = op_extends;
   
   type->basic_type->class_dir = compiler->current_class_dir;
@@ -1577,6 +1579,8 @@ SPVM_OP* SPVM_OP_build_method(SPVM_COMPILER* compiler, SPVM_OP* op_method, SPVM_
   method->op_block = op_block;
   
   method->op_method = op_method;
+  method->op_method_file = op_method->file;
+  method->op_method_line = op_method->line;
   
   op_method->uv.method = method;
   
diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 70f4ed7..2ffe948 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1854,14 +1854,14 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   
   if (src_method->is_class_method) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method because its interface method is defined in %s %s.\n  at %s line %d", src_basic_type->name, src_method->name, dist_basic_type->name, dist_basic_type_category_name, src_method->op_method->file, src_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method because its interface method is defined in %s %s.\n  at %s line %d", src_basic_type->name, src_method->name, dist_basic_type->name, dist_basic_type_category_name, src_method->op_method_file, src_method->op_method_line);
     }
     return 0;
   }
   
   if (dist_method->is_class_method) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method.\n  at %s line %d", dist_basic_type->name, dist_method->name, dist_method->op_method->file, dist_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method.\n  at %s line %d", dist_basic_type->name, dist_method->name, dist_method->op_method_file, dist_method->op_method_line);
     }
     return 0;
   }
@@ -1869,7 +1869,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   if (!(dist_method->args_length >= src_method->required_args_length)) {
     
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The length of the arguments of %s#%s method must be greater than or equal to the length of the required arguments of %s#%s method.\n  at %s line %d", dist_basic_type->name, dist_method->name, src_basic_type->name, src_method->name, dist_method->op_method->file, dist_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The length of the arguments of %s#%s method must be greater than or equal to the length of the required arguments of %s#%s method.\n  at %s line %d", dist_basic_type->name, dist_method->name, src_basic_type->name, src_method->name, dist_method->op_method_file, dist_method->op_method_line);
     }
     return 0;
   }
@@ -1897,7 +1897,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
       const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
       
       if (error_reason) {
-        snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
+        snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method_file, src_method->op_method_line);
       }
       
       return 0;
@@ -1919,7 +1919,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
     const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
     
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method_file, src_method->op_method_line);
     }
     
     return 0;
-- 
2.43.0


From 4bb6aab20a562393395bc38a42e54b2ab2e6f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 035/102] fix: a compilation after a failed compilation does
 not continue in the freed source code

---
 lib/SPVM/Builder/include/spvm_compiler.h |  2 ++
 lib/SPVM/Builder/src/spvm_compiler.c     | 27 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_compiler.h b/lib/SPVM/Builder/include/spvm_compiler.h
index 5b26939..f426944 100644
--- a/lib/SPVM/Builder/include/spvm_compiler.h
+++ b/lib/SPVM/Builder/include/spvm_compiler.h
@@ -210,6 +210,8 @@ void SPVM_COMPILER_use(SPVM_COMPILER* compiler, const char* basic_type_name, con
 
 void SPVM_COMPILER_free_memory_tmp_each_compile(SPVM_COMPILER* compiler);
 
+void SPVM_COMPILER_init_parser_state(SPVM_COMPILER* compiler);
+
 void SPVM_COMPILER_clear_error_messages(SPVM_COMPILER* compiler);
 
 int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_type_name, const char* source, const char** anon_basic_type_name);
diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index ea374be..1c74e4f 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -163,6 +163,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   
   SPVM_COMPILER_clear_error_messages(compiler);
   
+  SPVM_COMPILER_init_parser_state(compiler);
+  
   int32_t compile_start_memory_blocks_count_tmp = compiler->current_each_compile_allocator->memory_blocks_count_tmp;
   
   compiler->if_require_not_found_basic_type_name_symtable = SPVM_HASH_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
@@ -293,6 +295,31 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   return error_id;
 }
 
+void SPVM_COMPILER_init_parser_state(SPVM_COMPILER* compiler) {
+  
+  // A compilation that failed can leave the state of the tokenizer in the middle of a source code that is already freed.
+  compiler->current_class_dir = NULL;
+  compiler->current_file = NULL;
+  compiler->current_class_rel_file = NULL;
+  compiler->current_outmost_class_name = NULL;
+  compiler->current_class_content = NULL;
+  compiler->current_class_content_length = 0;
+  compiler->current_line = 0;
+  compiler->current_tmp_vars_length = 0;
+  compiler->line_begin_ch_ptr = NULL;
+  compiler->line_begin_after_shebang_line_ch_ptr = NULL;
+  compiler->ch_ptr = NULL;
+  compiler->token_begin_ch_ptr = NULL;
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = 0;
+  compiler->current_enum_value = 0;
+  compiler->current_anon_op_types = NULL;
+}
+
 void SPVM_COMPILER_clear_error_messages(SPVM_COMPILER* compiler) {
   
   SPVM_LIST* error_messages = compiler->error_messages;
-- 
2.43.0


From fe4c935cd16e746ee16192ba1181495c1369b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 036/102] fix: the file handle of a class file that cannot be
 read is closed

---
 lib/SPVM/Builder/src/spvm_toke.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..9584105 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -2776,6 +2776,7 @@ int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler) {
             fseek(fh, 0, SEEK_END);
             int32_t source_length = (int32_t)ftell(fh);
             if (source_length < 0) {
+              fclose(fh);
               SPVM_COMPILER_error(compiler, "[System Error]Failed to tell the class file \"%s\".\n  at %s line %d", current_file, op_use->file, op_use->line);
               return 0;
             }
@@ -2784,12 +2785,12 @@ int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler) {
             int32_t read_error = 0;
             if ((int32_t)fread(source, 1, source_length, fh) < source_length) {
               SPVM_COMPILER_error(compiler, "[System Error]Failed to read the class file \"%s\".\n  at %s line %d", current_file, op_use->file, op_use->line);
-              SPVM_ALLOCATOR_free_memory_block_tmp(compiler->current_each_compile_allocator, source);
               read_error = 1;
             }
             
+            fclose(fh);
+            
             if (!read_error) {
-              fclose(fh);
               source[source_length] = '\0';
               
               int32_t content_length = strlen(source);
-- 
2.43.0


From 1aaf832a1772abc537ddfdf886864773cb7b7df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 037/102] fix: the buffers for the names of anon classes and
 anon methods are long enough

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 ++++---
 lib/SPVM/Builder/src/spvm_op.c       | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 1c74e4f..5751145 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -190,13 +190,14 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   // Anon class
   if (source) {
     int32_t int32_max_length = 10;
-    int32_t anon_method_basic_type_name_length = 4 + 2 + 4 + 2 + int32_max_length;
+    int32_t anon_basic_type_name_length = strlen("eval::anon_class::") + int32_max_length;
     
-    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_basic_type_name_length + 1);
     sprintf(anon_basic_type_name, "eval::anon_class::%d", compiler->eval_anon_classes_length);
     compiler->eval_anon_classes_length++;
     
-    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    int32_t rel_file_length = strlen("eval/anon_class/") + int32_max_length + strlen(".spvm");
+    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, rel_file_length + 1);
     sprintf(rel_file, "eval/anon_class/%d.spvm", compiler->eval_anon_classes_length);
     
     SPVM_COMPILER_set_class_file_with_members(compiler, anon_basic_type_name, rel_file, source);
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 771ff52..5c08c46 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1671,7 +1671,7 @@ SPVM_OP* SPVM_OP_build_anon_method(SPVM_COMPILER* compiler, SPVM_OP* op_method)
   const char* outmost_basic_type_name = compiler->current_outmost_class_name;
   int32_t anon_method_defined_line = op_method->line;
   int32_t anon_method_defined_column = op_method->column;
-  int32_t anon_method_basic_type_name_length = 6 + strlen(outmost_basic_type_name) + 2 + int32_max_length + 2 + int32_max_length;
+  int32_t anon_method_basic_type_name_length = strlen(outmost_basic_type_name) + strlen("::anon_method::") + int32_max_length + 2 + int32_max_length;
   
   // Anon class name
   char* name_basic_type_tmp = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
-- 
2.43.0


From 89f4abb4cf87ca7bd856a05e85f6aeb45b6d1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 038/102] fix: Format sprintf method reports the precision that
 is too large

---
 lib/SPVM/Format.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 6064def..f926bda 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -39,7 +39,7 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   int32_t length = snprintf(NULL, 0, specifier, value);
   if (!(length >= 0)) {
-    return env->die(env, stack, "The value cannot be formatted with the precision %d.", __func__, FILE_NAME, __LINE__, precision);
+    return env->die(env, stack, "The value cannot be formatted with the precision %d.", precision, __func__, FILE_NAME, __LINE__);
   }
   
   void* obj_formatted_string = env->new_string(env, stack, NULL, length);
@@ -69,7 +69,7 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   int32_t length = snprintf(NULL, 0, specifier, value);
   if (!(length >= 0)) {
-    return env->die(env, stack, "The value cannot be formatted with the precision %d.", __func__, FILE_NAME, __LINE__, precision);
+    return env->die(env, stack, "The value cannot be formatted with the precision %d.", precision, __func__, FILE_NAME, __LINE__);
   }
   
   void* obj_formatted_string = env->new_string(env, stack, NULL, length);
-- 
2.43.0


From 293457648139e2f722c58be8286fa7a5203f6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 039/102] fix: compile errors about fields are given the
 arguments of their format

---
 lib/SPVM/Builder/src/spvm_check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 13bbf60..66ed719 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -270,7 +270,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
         SPVM_FIELD* field = SPVM_LIST_get(fields, field_index);
         SPVM_TYPE* field_type = field->type;
         if (!(field_type->basic_type->id == first_field_type->basic_type->id && field_type->dimension == first_field_type->dimension)) {
-          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field_type->basic_type->name, field->op_field->file, field->op_field->line);
+          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field->op_field->file, field->op_field->line);
           return;
         }
       }
@@ -384,7 +384,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       }
       
       if (!(merged_fields->length <= 65535)) {
-        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->op_class->file, basic_type->op_class->line);
+        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->name, basic_type->op_class->file, basic_type->op_class->line);
         return;
       }
       
-- 
2.43.0


From ac878ca12ef4279f1d1cab1160a6b5797a62db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 040/102] fix: the check of the name of a multi-numeric type
 does not read before a short name

---
 lib/SPVM/Builder/src/spvm_check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 66ed719..e384633 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -302,7 +302,10 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       int32_t tail_name_length = (int32_t)strlen(tail_name);
       int32_t basic_type_name_length = strlen(basic_type_name);
       
-      char* found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
+      char* found_pos_ptr = NULL;
+      if (basic_type_name_length >= tail_name_length) {
+        found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
+      }
       if (!found_pos_ptr) {
         SPVM_COMPILER_error(compiler, "The name of the multi-numeric type %s must end with with %s.\n  at %s line %d", basic_type->name, tail_name, basic_type->op_class->file, basic_type->op_class->line);
         return;
-- 
2.43.0


From f212c521d27cf8db6a2cefdf89913140732a8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 041/102] fix: a call of a method with a long name does not
 overflow a buffer of the compiler

---
 lib/SPVM/Builder/src/spvm_check.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index e384633..803d20b 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3123,16 +3123,20 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 
                 // Check if source can be assigned to dist
                 // If needed, numeric conversion op is added
-                char place[255];
                 int32_t call_method_args_length_for_user = call_method_args_length;
                 if (!call_method->method->is_class_method) {
                   call_method_args_length_for_user--;
                 }
-                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
+                const char* class_name = op_cur->uv.call_method->method->current_basic_type->name;
+                int32_t place_length = strlen("the 2147483647th argument of # method") + strlen(class_name) + strlen(method_name);
+                char* place = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->current_each_compile_allocator, place_length + 1);
+                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, class_name, method_name);
                 
                 // Invocant is not checked.
                 op_operand = SPVM_CHECK_check_assign(compiler, arg_var_decl_type, op_operand, place, op_cur->file, op_cur->line);
                 
+                SPVM_ALLOCATOR_free_memory_block_tmp(compiler->current_each_compile_allocator, place);
+                
                 if (SPVM_COMPILER_get_error_messages_length(compiler) > 0) {
                   return;
                 }
-- 
2.43.0


From bb399936477bc8217483dbac6dcff111f9008393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 042/102] fix: class files of a compiler do not refer to freed
 memory

---
 lib/SPVM/Builder/include/spvm_toke.h |  2 ++
 lib/SPVM/Builder/src/spvm_compiler.c |  4 +++-
 lib/SPVM/Builder/src/spvm_toke.c     | 24 +++++++++++++++++++-----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_toke.h b/lib/SPVM/Builder/include/spvm_toke.h
index 2e26f4a..6156e72 100644
--- a/lib/SPVM/Builder/include/spvm_toke.h
+++ b/lib/SPVM/Builder/include/spvm_toke.h
@@ -18,6 +18,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler);
 
 int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler);
 
+const char* SPVM_TOKE_copy_string_permanent(SPVM_COMPILER* compiler, const char* string);
+
 SPVM_OP* SPVM_TOKE_new_op(SPVM_COMPILER* compiler, int32_t type);
 
 SPVM_OP* SPVM_TOKE_new_op_with_column(SPVM_COMPILER* compiler, int32_t type, int32_t column);
diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 5751145..695d2a4 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -341,8 +341,10 @@ void SPVM_COMPILER_add_class_file(SPVM_COMPILER* compiler, const char* class_nam
   
   if (!class_file) {
     class_file = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->class_file_allocator, sizeof(SPVM_CLASS_FILE));
-    class_file->class_name = class_name;
     SPVM_COMPILER_set_class_file(compiler, class_name, class_file);
+    
+    // The class name is the copy that is managed by the compiler because the argument can be freed
+    class_file->class_name = SPVM_LIST_get(compiler->class_file_class_names, compiler->class_file_class_names->length - 1);
   }
 }
 
diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 9584105..9677669 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -2603,6 +2603,19 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
   }
 }
 
+const char* SPVM_TOKE_copy_string_permanent(SPVM_COMPILER* compiler, const char* string) {
+  
+  if (!string) {
+    return NULL;
+  }
+  
+  int32_t length = strlen(string);
+  char* copied_string = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, length + 1);
+  memcpy(copied_string, string, length);
+  
+  return copied_string;
+}
+
 int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler) {
 
   // Start parsing a source code
@@ -2827,23 +2840,24 @@ int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler) {
           
           compiler->current_class_content_length = class_file->content_length;
           
-          compiler->current_class_dir = class_file->dir;
+          // The information of the class is used after the class file is updated or deleted
+          compiler->current_class_dir = SPVM_TOKE_copy_string_permanent(compiler, class_file->dir);
           
           if (!class_file->rel_file) {
             SPVM_COMPILER_error(compiler, "The relative file path of the class file in the \"%s\" must be defined.\n  at %s line %d", basic_type_name, op_use->file, op_use->line);
             return 0;
           }
           
-          compiler->current_class_rel_file = class_file->rel_file;
+          compiler->current_class_rel_file = SPVM_TOKE_copy_string_permanent(compiler, class_file->rel_file);
           
-          compiler->current_outmost_class_name = class_file->class_name;
+          compiler->current_outmost_class_name = SPVM_TOKE_copy_string_permanent(compiler, class_file->class_name);
           
           // If we get current class file path, set it. Otherwise, set module relative file path
           if (class_file->file) {
-            compiler->current_file = class_file->file;
+            compiler->current_file = SPVM_TOKE_copy_string_permanent(compiler, class_file->file);
           }
           else {
-            compiler->current_file = class_file->rel_file;
+            compiler->current_file = compiler->current_class_rel_file;
           }
           
           int32_t content_length = class_file->content_length;
-- 
2.43.0


From b5d1021128f81257e0594c88ffff51f9d6a059a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 043/102] fix: Native::Compiler compile_anon_class method
 throws an exception if the source code is undef

---
 lib/SPVM/Native/Compiler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index eebf104..a3b86a6 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -272,10 +272,10 @@ int32_t SPVM__Native__Compiler__compile_anon_class(SPVM_ENV* env, SPVM_VALUE* st
   void* obj_self = stack[0].oval;
   
   void* obj_source = stack[1].oval;
-  const char* source = NULL;
-  if (obj_source) {
-    source = env->get_chars(env, stack, obj_source);
+  if (!obj_source) {
+    return env->die(env, stack, "The source code $source must be defined.", __func__, FILE_NAME, __LINE__);
   }
+  const char* source = env->get_chars(env, stack, obj_source);
   
   void* self = env->get_pointer(env, stack, obj_self);
   
-- 
2.43.0


From 0877fb576a8cf02f5fa06546ec90db003924deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 044/102] fix: Native::Compiler add_include_dir and
 prepend_include_dir methods throw an exception if the directory is undef

---
 lib/SPVM/Native/Compiler.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index a3b86a6..85d7c9b 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -201,10 +201,10 @@ int32_t SPVM__Native__Compiler__add_include_dir(SPVM_ENV* env, SPVM_VALUE* stack
   
   void* self = env->get_pointer(env, stack, obj_self);
   
-  const char* include_dir = NULL;
-  if (obj_include_dir) {
-    include_dir = env->get_chars(env, stack, obj_include_dir);
+  if (!obj_include_dir) {
+    return env->die(env, stack, "The include directory $include_dir must be defined.", __func__, FILE_NAME, __LINE__);
   }
+  const char* include_dir = env->get_chars(env, stack, obj_include_dir);
   env->api->compiler->add_include_dir(self, include_dir);
   
   return 0;
@@ -220,10 +220,10 @@ int32_t SPVM__Native__Compiler__prepend_include_dir(SPVM_ENV* env, SPVM_VALUE* s
   
   void* self = env->get_pointer(env, stack, obj_self);
   
-  const char* include_dir = NULL;
-  if (obj_include_dir) {
-    include_dir = env->get_chars(env, stack, obj_include_dir);
+  if (!obj_include_dir) {
+    return env->die(env, stack, "The include directory $include_dir must be defined.", __func__, FILE_NAME, __LINE__);
   }
+  const char* include_dir = env->get_chars(env, stack, obj_include_dir);
   
   env->api->compiler->prepend_include_dir(self, include_dir);
   
-- 
2.43.0


From ef74a8b70e1230c1eb9783b839b1e97491738d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 045/102] fix: a class without a name is a compile error

---
 lib/SPVM/Builder/src/spvm_op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 5c08c46..6db4430 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -272,6 +272,11 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   // Class
   else {
+    if (!op_type) {
+      SPVM_COMPILER_error(compiler, "A class must have its class name.\n  at %s line %d", op_class->file, op_class->line);
+      return op_class;
+    }
+    
     basic_type_name = op_type->uv.type->unresolved_basic_type_name;
   }
   
-- 
2.43.0


From 2f32eea4224b3903849e04e38e26d0b03ed1a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 046/102] fix: a field that is also defined in the super class
 does not hide the fields after it

---
 lib/SPVM/Builder/src/spvm_check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 803d20b..d31f5a7 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -360,9 +360,10 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
             if (!SPVM_TYPE_equals(compiler, found_field_in_super_class->type->basic_type->id, found_field_in_super_class->type->dimension, found_field_in_super_class->type->flag, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
               SPVM_COMPILER_error(compiler, "%s field cannot be defined in %s class. This field is already defined with a different type in the super class.\n  at %s line %d", field->name, basic_type->name, field->op_field->file, field->op_field->line);
               compile_error = 1;
+              break;
             }
             
-            break;
+            continue;
           }
           
           SPVM_FIELD* new_field;
-- 
2.43.0


From 9b98e0f4abf7fe288bb41df42e37ce68eceb95b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 047/102] fix: too many fields are reported as a compile error

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index d31f5a7..30851f8 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -389,6 +389,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       
       if (!(merged_fields->length <= 65535)) {
         SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->name, basic_type->op_class->file, basic_type->op_class->line);
+        SPVM_LIST_free(basic_type_merge_stack);
         return;
       }
       
-- 
2.43.0


From e124aee18e1f6e437a20e6bedcd71fce954f0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 048/102] fix: a class with a wrong name does not change the
 class that has the name

---
 lib/SPVM/Builder/src/spvm_op.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 6db4430..0ca58f6 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -280,6 +280,14 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
     basic_type_name = op_type->uv.type->unresolved_basic_type_name;
   }
   
+  // If class name is different from the class name corresponding to the class file, compile error occur.
+  if (!(strstr(basic_type_name, "::anon_class::") || strstr(basic_type_name, "::anon_method::"))) {
+    if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
+      SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
+      return op_class;
+    }
+  }
+  
   SPVM_TYPE* type = op_type->uv.type;
   
   SPVM_BASIC_TYPE* basic_type = SPVM_HASH_get(compiler->basic_type_symtable, basic_type_name, strlen(basic_type_name));
@@ -336,12 +344,6 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   if (!(basic_type->is_anon || basic_type->is_generated_by_anon_method)) {
     assert(!islower(basic_type_name[0]));
     
-    // If class name is different from the class name corresponding to the class file, compile error occur.
-    if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
-      SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
-      return op_class;
-    }
-    
     SPVM_LIST* anon_op_types = compiler->current_anon_op_types;
     for (int32_t i = 0; i < anon_op_types->length; i++) {
       SPVM_OP* anon_op_type = SPVM_LIST_get(anon_op_types, i);
-- 
2.43.0


From 9a3dbb5648b0c55de852f586f2100f35a843427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 049/102] fix: the exception variable can be the operand of a
 special assignment

---
 lib/SPVM/Builder/src/spvm_op.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 0ca58f6..00405ea 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2670,7 +2670,12 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
   
   SPVM_OP_build_binary_op(compiler, op_culc, op_var_old_clone, op_src);
   
-  if (op_dist->id == SPVM_OP_C_ID_VAR || op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+  if (op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+    SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
+    SPVM_OP* op_dist_clone = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_EXCEPTION_VAR, op_dist->file, op_dist->line);
+    SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
+  }
+  else if (op_dist->id == SPVM_OP_C_ID_VAR) {
     SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
     SPVM_OP* op_var = op_dist;
     SPVM_OP* op_var_clone = SPVM_OP_clone_op_var(compiler, op_var);
-- 
2.43.0


From 5e95aa1c58e7cb1431ff2d5aac7f9bc931a598db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 050/102] fix: a string literal can be assigned to a variable
 of object type

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 890e328..7e83a0f 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2747,7 +2747,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                        
                         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                       }
-                      else if (SPVM_TYPE_is_string_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
+                      else if (SPVM_TYPE_is_string_type(compiler, constant->type->basic_type->id, constant->type->dimension, constant->type->flag)) {
                         SPVM_OPCODE opcode = {0};
                         
                         
-- 
2.43.0


From e1483d8f6906a5ea6002610f50074f4b87031a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 051/102] fix: an exception thrown by an undefined message is
 the message Error

---
 lib/SPVM/Builder/src/spvm_api.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 7151d22..3bddd53 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3130,7 +3130,7 @@ SPVM_OBJECT* SPVM_API_get_compile_type_name(SPVM_ENV* env, SPVM_VALUE* stack, co
 
 SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* exception, SPVM_RUNTIME_METHOD* method, int32_t line) {
   
-  if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
+  if (exception && stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
     return exception;
   }
   
@@ -3148,8 +3148,12 @@ SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack
   const char* at_part = " at ";
   
   // Exception
-  const char* exception_bytes = SPVM_API_get_chars(env, stack, exception);
-  int32_t exception_length = SPVM_API_length(env, stack, exception);
+  const char* exception_bytes = "Error";
+  int32_t exception_length = strlen(exception_bytes);
+  if (exception) {
+    exception_bytes = SPVM_API_get_chars(env, stack, exception);
+    exception_length = SPVM_API_length(env, stack, exception);
+  }
   
   // Total string length
   int32_t total_length = 0;
-- 
2.43.0


From e979f8874ffbc30294dcf87edb6dc851b32966cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 052/102] fix: the elements of a large multi-numeric array are
 allocated and addressed without an int overflow

---
 lib/SPVM/Builder/include/spvm_implement.h | 48 +++++++++++------------
 lib/SPVM/Builder/src/spvm_api.c           |  2 +-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 6956c2e..96d1b24 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1532,7 +1532,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_BYTE(SPVM_ENV* env, SPVM_VALU
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((int8_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((int8_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1553,7 +1553,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_SHORT(SPVM_ENV* env, SPVM_VAL
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((int16_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((int16_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1574,7 +1574,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_INT(SPVM_ENV* env, SPVM_VALUE
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((int32_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((int32_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1595,7 +1595,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_LONG(SPVM_ENV* env, SPVM_VALU
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((int64_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((int64_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1616,7 +1616,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FLOAT(SPVM_ENV* env, SPVM_VAL
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((float*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((float*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1637,7 +1637,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_DOUBLE(SPVM_ENV* env, SPVM_VA
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        *(out + field_index) = ((double*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+        *(out + field_index) = ((double*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
       }
     }
   }
@@ -1658,7 +1658,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_BYTE(SPVM_ENV* env, SPVM_VALU
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((int8_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((int8_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1679,7 +1679,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_SHORT(SPVM_ENV* env, SPVM_VAL
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((int16_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((int16_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1700,7 +1700,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_INT(SPVM_ENV* env, SPVM_VALUE
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((int32_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((int32_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1721,7 +1721,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_LONG(SPVM_ENV* env, SPVM_VALU
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((int64_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((int64_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1742,7 +1742,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FLOAT(SPVM_ENV* env, SPVM_VAL
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((float*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((float*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1763,7 +1763,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_DOUBLE(SPVM_ENV* env, SPVM_VA
     else {
       int32_t field_index;
       for (field_index = 0; field_index < fields_length; field_index++) {
-        ((double*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = *(in + field_index);
+        ((double*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = *(in + field_index);
       }
     }
   }
@@ -1782,7 +1782,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_BYTE(SPVM_ENV* env, SPV
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((int8_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((int8_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1800,7 +1800,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_SHORT(SPVM_ENV* env, SP
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((int16_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((int16_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1818,7 +1818,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_INT(SPVM_ENV* env, SPVM
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((int32_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((int32_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1836,7 +1836,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_LONG(SPVM_ENV* env, SPV
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((int64_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((int64_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1854,7 +1854,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_FLOAT(SPVM_ENV* env, SP
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((float*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((float*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1872,7 +1872,7 @@ static inline void SPVM_IMPLEMENT_GET_MULNUM_ARRAY_FIELD_DOUBLE(SPVM_ENV* env, S
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      *out = ((double*)((intptr_t)array + object_data_offset))[fields_length * index + field_index];
+      *out = ((double*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index];
     }
   }
 }
@@ -1890,7 +1890,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_BYTE(SPVM_ENV* env, SPV
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((int8_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((int8_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
@@ -1908,7 +1908,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_SHORT(SPVM_ENV* env, SP
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((int16_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((int16_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
@@ -1926,7 +1926,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_INT(SPVM_ENV* env, SPVM
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((int32_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((int32_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
@@ -1944,7 +1944,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_LONG(SPVM_ENV* env, SPV
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((int64_t*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((int64_t*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
@@ -1962,7 +1962,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_FLOAT(SPVM_ENV* env, SP
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((float*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((float*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
@@ -1980,7 +1980,7 @@ static inline void SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_DOUBLE(SPVM_ENV* env, S
       *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
     }
     else {
-      ((double*)((intptr_t)array + object_data_offset))[fields_length * index + field_index] = in;
+      ((double*)((intptr_t)array + object_data_offset))[(int64_t)fields_length * index + field_index] = in;
     }
   }
 }
diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 3bddd53..004b784 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4099,7 +4099,7 @@ SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     assert(0);
   }
   
-  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + unit_size * fields_length * (length + 1);
+  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + (size_t)unit_size * fields_length * ((size_t)length + 1);
   
   SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 1, length, 0);
   
-- 
2.43.0


From fd508391eb21e31d9c4f8b9ec53ead2d6700287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 053/102] fix: a bootstrap method of a class that is not found
 is an exception

---
 lib/SPVM/Builder/src/spvm_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 004b784..c201ec3 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5358,6 +5358,11 @@ int32_t SPVM_API_check_bootstrap_method(SPVM_ENV* env, SPVM_VALUE* stack, const
   int32_t error_id = 0;
   
   void* class_basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
+  
+  if (!class_basic_type) {
+    return env->die(env, stack, "The \"%s\" class is not found.", basic_type_name, __func__, FILE_NAME, __LINE__);
+  }
+  
   void* method = env->api->basic_type->get_method_by_name(env->runtime, class_basic_type, "main");
   
   if (method) {
-- 
2.43.0


From 115b1f0581b5f02a555a9c9596263fb392dc376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 054/102] fix: building a precompile source of an undefined
 class or method is an exception

---
 lib/SPVM/Native/Runtime.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Native/Runtime.c b/lib/SPVM/Native/Runtime.c
index ecf3d4e..d50faa0 100644
--- a/lib/SPVM/Native/Runtime.c
+++ b/lib/SPVM/Native/Runtime.c
@@ -15,6 +15,10 @@ int32_t SPVM__Native__Runtime__build_precompile_class_source(SPVM_ENV* env, SPVM
   
   void* obj_basic_type = stack[1].oval;
   
+  if (!obj_basic_type) {
+    return env->die(env, stack, "The basic type $basic_type must be defined.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* self = env->get_pointer(env, stack, obj_self);
   
   void* basic_type = env->get_pointer(env, stack, obj_basic_type);
@@ -46,6 +50,10 @@ int32_t SPVM__Native__Runtime__build_precompile_method_source(SPVM_ENV* env, SPV
   
   void* obj_method = stack[1].oval;
   
+  if (!obj_method) {
+    return env->die(env, stack, "The method $method must be defined.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* self = env->get_pointer(env, stack, obj_self);
   
   void* method = env->get_pointer(env, stack, obj_method);
-- 
2.43.0


From 6cebc89724fe6b581f3bb0083975975fbbffd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 055/102] fix: a compile error without a start file does not
 read a NULL file name

---
 lib/SPVM/Builder/src/spvm_compiler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 695d2a4..8ee281f 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -209,6 +209,9 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
     SPVM_STRING_new(compiler, basic_type_name, strlen(basic_type_name));
     
     const char* start_file = SPVM_COMPILER_get_start_file(compiler);
+    if (!start_file) {
+      start_file = "(unknown)";
+    }
     
     int32_t start_line = SPVM_COMPILER_get_start_line(compiler);
     
-- 
2.43.0


From 719f52b919a4bc8744a3c1b80ec00dee8412a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 056/102] fix: a cast to a numeric array does not accept a
 number, a reference or a multi-dimensional array

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 2ffe948..9644cfb 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1590,7 +1590,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is numeric array type(except for byte array)
   else if (SPVM_TYPE_is_numeric_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_is_numeric_array_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag) && src_type_basic_type_id == dist_type_basic_type_id) {
       can_cast = 1;
     }
     // Source type is any object type
@@ -1609,7 +1609,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is multi-numeric array
   else if (SPVM_TYPE_is_mulnum_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_is_mulnum_array_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag) && src_type_basic_type_id == dist_type_basic_type_id) {
       can_cast = 1;
     }
     // Source type is any object type
-- 
2.43.0


From dc7e3e60a2a95118a9de69726d3ccbd00f7bd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 057/102] fix: a numeric object can be cast to its own type

---
 lib/SPVM/Builder/src/spvm_type.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 9644cfb..fce63bb 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1471,6 +1471,15 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
         can_cast = 0;
       }
     }
+    // Source type is numeric object type
+    else if (SPVM_TYPE_is_numeric_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+      if (dist_type_basic_type_id == src_type_basic_type_id) {
+        can_cast = 1;
+      }
+      else {
+        can_cast = 0;
+      }
+    }
     // Source type is any object type
     else if (SPVM_TYPE_is_any_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
-- 
2.43.0


From 4e773c006bb78bde5265cdadbf03054da7b5c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 058/102] fix: can operator accepts an inherited method

---
 lib/SPVM/Builder/src/spvm_check.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 30851f8..14ddfe5 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3355,11 +3355,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_BASIC_TYPE* var_basic_type = SPVM_HASH_get(compiler->basic_type_symtable, var_basic_type_name, strlen(var_basic_type_name));
             
             const char* method_name = op_name_method->uv.name;
-            SPVM_METHOD* found_method = SPVM_HASH_get(
-              var_basic_type->method_symtable,
-              method_name,
-              strlen(method_name)
-            );
+            SPVM_METHOD* found_method = SPVM_CHECK_search_method(compiler, var_basic_type, method_name);
             
             if (!found_method) {
               SPVM_COMPILER_error(compiler, "%s#%s method, the operand of can operator, must be defined.\n  at %s line %d", var_basic_type_name, method_name, op_name_method->file, op_name_method->line);
-- 
2.43.0


From 91e5dea5fb4fb90a714c430ed9e1226254cc044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 059/102] fix: a field of an anonymous method declared with a
 variable can have a default value

---
 lib/SPVM/Builder/src/spvm_op.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 00405ea..a757cdf 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1721,7 +1721,7 @@ SPVM_OP* SPVM_OP_build_anon_method_field(SPVM_COMPILER* compiler, SPVM_OP* op_fi
   }
   else if (op_name_field->id == SPVM_OP_C_ID_VAR) {
     
-    assert(op_default->id == SPVM_OP_C_ID_VAR);
+    assert(op_name_field->id == SPVM_OP_C_ID_VAR);
     
     op_name_field = SPVM_OP_new_op_name(compiler, op_name_field->uv.var->name + 1, op_name_field->file, op_name_field->line);
     
-- 
2.43.0


From b60cd742329eea13099e315ee3efc5a180469887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 060/102] fix: new operator on a multi-numeric type is a
 compile error

---
 lib/SPVM/Builder/src/spvm_check.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 14ddfe5..c06bbac 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2154,6 +2154,11 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a numeric type.\n  at %s line %d", op_new->file, op_new->line);
               return;
             }
+            // Multi-numeric type
+            else if (SPVM_TYPE_is_mulnum_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+              SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
+              return;
+            }
             // Object type
             else if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
               SPVM_BASIC_TYPE* basic_type = SPVM_HASH_get(compiler->basic_type_symtable, type->basic_type->name, strlen(type->basic_type->name));
@@ -2162,11 +2167,6 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be an interface type.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
-              else if (basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_MULNUM) {
-                SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
-                return;
-              }
-
               SPVM_BASIC_TYPE* current_basic_type = method->current_basic_type;
               if (!SPVM_CHECK_can_access(compiler, current_basic_type, new_basic_type, new_basic_type->access_control_type, 0)) {
                 if (!SPVM_OP_is_allowed(compiler, current_basic_type, new_basic_type, 0)) {
-- 
2.43.0


From ffc08ee5c33005fc0e561d9bd4f7133b95892177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 061/102] fix: an argument can be an array of three or more
 dimensions

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 7e83a0f..71c866a 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -214,7 +214,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             }
           }
         }
-        else if (arg_type_dimension == 2) {
+        else if (arg_type_dimension >= 2) {
           SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_GET_STACK_OBJECT);
           opcode.operand0 = arg->typed_var_index;
           opcode.operand3 = stack_index & 0xFF;
-- 
2.43.0


From bc4ba3f534bbd13193c2178f4083a578df6fba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 062/102] fix: new operator on string type or any object type
 is a compile error

---
 lib/SPVM/Builder/src/spvm_check.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index c06bbac..d81ed5d 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2167,6 +2167,10 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be an interface type.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
+              else if (basic_type->category != SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS) {
+                SPVM_COMPILER_error(compiler, "The type of the operand of new operator must be a class type or an array type.\n  at %s line %d", op_new->file, op_new->line);
+                return;
+              }
               SPVM_BASIC_TYPE* current_basic_type = method->current_basic_type;
               if (!SPVM_CHECK_can_access(compiler, current_basic_type, new_basic_type, new_basic_type->access_control_type, 0)) {
                 if (!SPVM_OP_is_allowed(compiler, current_basic_type, new_basic_type, 0)) {
-- 
2.43.0


From ae0d58abd590300cf13a428a8cf4c787d04d4907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 063/102] fix: a field and a class variable of a reference type
 are compile errors

---
 lib/SPVM/Builder/src/spvm_check.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index d81ed5d..152568f 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -238,6 +238,12 @@ void SPVM_CHECK_check_class_vars(SPVM_COMPILER* compiler) {
         SPVM_COMPILER_error(compiler, "The multi-numeric type cannnot used in the definition of the class variable.\n  at %s line %d", class_var->op_class_var->file, class_var->op_class_var->line);
         return;
       }
+      
+      // A reference type cannnot become class variable
+      if (SPVM_TYPE_is_ref_type(compiler, class_var_type->basic_type->id, class_var_type->dimension, class_var_type->flag)) {
+        SPVM_COMPILER_error(compiler, "The reference type cannnot used in the definition of the class variable.\n  at %s line %d", class_var->op_class_var->file, class_var->op_class_var->line);
+        return;
+      }
     }
     
     // Class variable
@@ -323,6 +329,12 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
         SPVM_COMPILER_error(compiler, "The multi-numeric type cannnot used in the definition of the field.\n  at %s line %d", field->op_field->file, field->op_field->line);
         return;
       }
+      
+      // A reference type cannnot become field
+      if (SPVM_TYPE_is_ref_type(compiler, field_type->basic_type->id, field_type->dimension, field_type->flag)) {
+        SPVM_COMPILER_error(compiler, "The reference type cannnot used in the definition of the field.\n  at %s line %d", field->op_field->file, field->op_field->line);
+        return;
+      }
     }
     
     {
-- 
2.43.0


From 6e1c9a82196efa65ab54b443110ea19531dc9284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 064/102] fix: a cast to mutable string type throws an
 exception for an object that is not a string

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 96d1b24..f019973 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -413,7 +413,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (string && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From 64f9d43ab09a612aea4731a3ab8e599bbbf790e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 065/102] fix: the type of an object stored to an array element
 is checked against the run-time type of the array

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 71c866a..b72604b 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4843,18 +4843,18 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       }
                       else {
                         int32_t is_check_type;
-                        if (array_type_dimension == 1) {
-                          switch (array_basic_type_category) {
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
-                            {
-                              is_check_type = 1;
-                              break;
-                            }
-                            default: {
-                              is_check_type = 0;
-                              break;
-                            }
+                        switch (array_basic_type_category) {
+                          // The run-time type of the array can be narrower than the compilation type
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
+                          {
+                            is_check_type = 1;
+                            break;
+                          }
+                          default: {
+                            is_check_type = 0;
+                            break;
                           }
                         }
                         
-- 
2.43.0


From 215a42c2ae69feea68b6fbc2b113ecaa2c266ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 066/102] fix: the assignment of undef to a field, an element,
 a class variable, or the exception variable has its value

---
 lib/SPVM/Builder/src/spvm_check.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 152568f..1a98a18 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3467,6 +3467,21 @@ void SPVM_CHECK_check_ast_assign_unassigned_op_to_var(SPVM_COMPILER* compiler, S
         if (op_cur->last->id == SPVM_OP_C_ID_VAR) {
           op_cur->first->is_assigned_to_var = 1;
         }
+        // The undef assigned to something other than a variable is assigned to a temporary variable so that the assignment has its value
+        else if (op_cur->first->id == SPVM_OP_C_ID_UNDEF) {
+          SPVM_TYPE* tmp_var_type = SPVM_CHECK_get_type(compiler, op_cur->last);
+          SPVM_OP* op_var_tmp = SPVM_CHECK_new_op_var_tmp(compiler, tmp_var_type, method, op_cur->file, op_cur->line);
+          
+          if (op_var_tmp == NULL) {
+            return;
+          }
+          
+          SPVM_OP* op_undef = op_cur->first;
+          SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_undef);
+          SPVM_OP* op_assign = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_ASSIGN, op_undef->file, op_undef->line);
+          SPVM_OP_build_assign(compiler, op_assign, op_var_tmp, op_undef);
+          SPVM_OP_replace_op(compiler, op_stab, op_assign);
+        }
         break;
       }
     }
-- 
2.43.0


From ce8ea08392b6ed4e519d022d7080176d3a8042dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:16 +0000
Subject: [PATCH 067/102] fix: the less than and greater than operators do not
 skip the next character

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 9677669..042abca 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -805,7 +805,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -864,7 +863,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
-- 
2.43.0


From 5050918f79d7acd411abddcd28e33100688177b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 068/102] fix: a floating point literal ends before a plus or a
 minus that is not in its exponent part

---
 lib/SPVM/Builder/src/spvm_toke.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 042abca..008aed4 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1704,6 +1704,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                 is_hex_floating_number = 1;
                 before_is_exponant = 1;
               }
+              else if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               compiler->ch_ptr++;
             }
           }
@@ -1733,7 +1736,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
-                before_is_exponant = 1;
+              }
+              if (*compiler->ch_ptr != '_') {
+                before_is_exponant = (*compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E');
               }
               compiler->ch_ptr++;
             }
-- 
2.43.0


From 4edb4c781ff2f9e78b1515ebdba746432ae84194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 069/102] fix: a hexadecimal notation and a binary notation
 without digits are compile errors

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 008aed4..17dc1f5 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1836,6 +1836,10 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             if (*end != '\0') {
               out_of_range = 1;
             }
+            // A hexadecimal notation or a binary notation without digits
+            else if ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset) {
+              out_of_range = 1;
+            }
             else if (errno == ERANGE) {
               out_of_range = 1;
             }
@@ -1900,6 +1904,10 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             if (*end != '\0') {
               invalid = 1;
             }
+            // A hexadecimal notation or a binary notation without digits
+            else if ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset) {
+              invalid = 1;
+            }
             else if (errno == ERANGE) {
               invalid = 1;
             }
-- 
2.43.0


From 21df6f059a49bae2f500ca90834a538e599651fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 070/102] fix: the check of interface method requirement does
 not use the compiler allocator at run time

---
 lib/SPVM/Builder/src/spvm_type.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index fce63bb..d98bc0b 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1902,10 +1902,9 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
     );
     
     if (!can_assign) {
-      const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
-      const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
-      
       if (error_reason) {
+        const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
+        const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
         snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method_file, src_method->op_method_line);
       }
       
@@ -1924,10 +1923,9 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   );
   
   if (!can_assign) {
-    const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
-    const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
-    
     if (error_reason) {
+      const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
+      const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
       snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method_file, src_method->op_method_line);
     }
     
-- 
2.43.0


From 19bc69b81676a48568e4861652c51d74debdae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 071/102] fix: Native::BasicType#get_version_string returns
 undef if the class does not have the version

---
 lib/SPVM/Native/BasicType.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 924be6b..c759e67 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -168,7 +168,10 @@ int32_t SPVM__Native__BasicType__get_version_string(SPVM_ENV* env, SPVM_VALUE* s
   
   const char* version_string = env->api->basic_type->get_version_string(runtime, self);
   
-  void* obj_version_string = env->new_string_nolen(env, stack, version_string);
+  void* obj_version_string = NULL;
+  if (version_string) {
+    obj_version_string = env->new_string_nolen(env, stack, version_string);
+  }
   
   stack[0].oval = obj_version_string;
   
-- 
2.43.0


From dc9bfc3d688816df45e0d2746f421b670f2a05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 072/102] fix: the getters of Native::ClassFile return undef if
 the value is not set

---
 lib/SPVM/Native/ClassFile.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/ClassFile.c b/lib/SPVM/Native/ClassFile.c
index 7801e7e..ce8c114 100644
--- a/lib/SPVM/Native/ClassFile.c
+++ b/lib/SPVM/Native/ClassFile.c
@@ -44,7 +44,10 @@ int32_t SPVM__Native__ClassFile__get_file(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   const char* file = env->api->class_file->get_file(compiler, self);
   
-  void* obj_file = env->new_string_nolen(env, stack, file);
+  void* obj_file = NULL;
+  if (file) {
+    obj_file = env->new_string_nolen(env, stack, file);
+  }
   
   stack[0].oval = obj_file;
   
@@ -91,7 +94,10 @@ int32_t SPVM__Native__ClassFile__get_dir(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   const char* dir = env->api->class_file->get_dir(compiler, self);
   
-  void* obj_dir = env->new_string_nolen(env, stack, dir);
+  void* obj_dir = NULL;
+  if (dir) {
+    obj_dir = env->new_string_nolen(env, stack, dir);
+  }
   
   stack[0].oval = obj_dir;
   
@@ -138,7 +144,10 @@ int32_t SPVM__Native__ClassFile__get_rel_file(SPVM_ENV* env, SPVM_VALUE* stack)
   
   const char* rel_file = env->api->class_file->get_rel_file(compiler, self);
   
-  void* obj_rel_file = env->new_string_nolen(env, stack, rel_file);
+  void* obj_rel_file = NULL;
+  if (rel_file) {
+    obj_rel_file = env->new_string_nolen(env, stack, rel_file);
+  }
   
   stack[0].oval = obj_rel_file;
   
@@ -185,7 +194,10 @@ int32_t SPVM__Native__ClassFile__get_content(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   const char* content = env->api->class_file->get_content(compiler, self);
   
-  void* obj_content = env->new_string_nolen(env, stack, content);
+  void* obj_content = NULL;
+  if (content) {
+    obj_content = env->new_string_nolen(env, stack, content);
+  }
   
   stack[0].oval = obj_content;
   
-- 
2.43.0


From 2e999227597f75221c456f2a1d18f2e45a2202a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 073/102] fix: the runtime field of the objects got from
 Native::BasicType is the runtime

---
 lib/SPVM/Native/BasicType.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index c759e67..8ec242d 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__BasicType__get_class_var_by_index(SPVM_ENV* env, SPVM_VALU
   void* obj_class_var = stack[0].oval;
   env->set_no_free(env, stack, obj_class_var, 1);
   
-  env->set_field_object_by_name(env, stack, obj_class_var, "runtime", obj_self, &error_id, __func__, FILE_NAME, __LINE__);
+  env->set_field_object_by_name(env, stack, obj_class_var, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
   stack[0].oval = obj_class_var;
@@ -291,7 +291,7 @@ int32_t SPVM__Native__BasicType__get_class_var_by_name(SPVM_ENV* env, SPVM_VALUE
   void* obj_class_var = stack[0].oval;
   env->set_no_free(env, stack, obj_class_var, 1);
   
-  env->set_field_object_by_name(env, stack, obj_class_var, "runtime", obj_self, &error_id, __func__, FILE_NAME, __LINE__);
+  env->set_field_object_by_name(env, stack, obj_class_var, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
   stack[0].oval = obj_class_var;
@@ -347,7 +347,7 @@ int32_t SPVM__Native__BasicType__get_field_by_index(SPVM_ENV* env, SPVM_VALUE* s
   void* obj_field = stack[0].oval;
   env->set_no_free(env, stack, obj_field, 1);
   
-  env->set_field_object_by_name(env, stack, obj_field, "runtime", obj_self, &error_id, __func__, FILE_NAME, __LINE__);
+  env->set_field_object_by_name(env, stack, obj_field, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
   stack[0].oval = obj_field;
@@ -389,7 +389,7 @@ int32_t SPVM__Native__BasicType__get_field_by_name(SPVM_ENV* env, SPVM_VALUE* st
   void* obj_field = stack[0].oval;
   env->set_no_free(env, stack, obj_field, 1);
   
-  env->set_field_object_by_name(env, stack, obj_field, "runtime", obj_self, &error_id, __func__, FILE_NAME, __LINE__);
+  env->set_field_object_by_name(env, stack, obj_field, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
   stack[0].oval = obj_field;
-- 
2.43.0


From d42bb078b11f2c211cbc9c115849ec160d300cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 074/102] fix: Native::MethodCall#call checks the type
 dimension of the object given as an argument

---
 lib/SPVM/Native/MethodCall.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 63a968e..c24ee3d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         int32_t can_assign = env->api->type->can_assign(
           runtime,
           method_arg_basic_type, method_arg_type_dimension, method_arg_type_flag,
-          arg_basic_type, method_arg_type_dimension, 0
+          arg_basic_type, arg_type_dimension, 0
         );
         
         if (!can_assign) {
-- 
2.43.0


From 90831a5eb48e2c36810f405bed0fd6f2a97c9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 075/102] fix: Native::Env#new_stack gets the runtime
 environment from an initialized variable

---
 lib/SPVM/Native/Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/Env.c b/lib/SPVM/Native/Env.c
index 9fdf296..a00e7ee 100644
--- a/lib/SPVM/Native/Env.c
+++ b/lib/SPVM/Native/Env.c
@@ -11,7 +11,7 @@ int32_t SPVM__Native__Env__new_stack(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   void* obj_my_env = stack[0].oval;
   
-  SPVM_ENV* my_env = env->get_pointer(my_env, stack, obj_my_env);
+  SPVM_ENV* my_env = env->get_pointer(env, stack, obj_my_env);
   
   SPVM_VALUE* my_stack = my_env->new_stack(my_env);
   
-- 
2.43.0


From dc25bc6b42069b43c076c917a328090d32d03530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 076/102] fix: Native::MethodCall#call returns undef, and
 returns the value if the runtime stack is another one

---
 lib/SPVM/Native/MethodCall.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c24ee3d..007e66d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -651,11 +651,17 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
   if (method_return_is_object_type) {
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
+    void* obj_return_value = self_stack[0].oval;
     
-    if (!is_binary_compatible_object) {
-      return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+    if (obj_return_value) {
+      int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, obj_return_value);
+      
+      if (!is_binary_compatible_object) {
+        return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+      }
     }
+    
+    stack[0].oval = obj_return_value;
   }
   else {
     int32_t method_return_type_is_ref = method_return_type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF;
@@ -666,7 +672,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       switch (method_return_basic_type_id) {
         case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE : {
           
-          self_stack[0].ival = self_stack[0].bval;
+          stack[0].ival = self_stack[0].bval;
           env->call_class_method_by_name(env, stack, "Byte", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -674,7 +680,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT : {
           
-          self_stack[0].ival = self_stack[0].sval;
+          stack[0].ival = self_stack[0].sval;
           env->call_class_method_by_name(env, stack, "Short", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -682,6 +688,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_INT : {
           
+          stack[0].ival = self_stack[0].ival;
           env->call_class_method_by_name(env, stack, "Int", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -689,6 +696,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG : {
           
+          stack[0].lval = self_stack[0].lval;
           env->call_class_method_by_name(env, stack, "Long", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -696,6 +704,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT : {
           
+          stack[0].fval = self_stack[0].fval;
           env->call_class_method_by_name(env, stack, "Float", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -703,6 +712,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE : {
           
+          stack[0].dval = self_stack[0].dval;
           env->call_class_method_by_name(env, stack, "Double", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -731,7 +741,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].bval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -745,7 +755,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].sval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -759,7 +769,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].ival;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -773,7 +783,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].lval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -787,7 +797,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].fval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -801,7 +811,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].dval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -811,7 +821,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       }
     }
     else if (method_return_basic_type_category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_VOID) {
-      self_stack[0].oval = NULL;
+      stack[0].oval = NULL;
     }
     else {
       assert(0);
-- 
2.43.0


From d6480334bbca1913222a78b5b2cf9c645d5d2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:39 +0000
Subject: [PATCH 077/102] fix: Native::BasicType#get_parent returns the parent
 basic type

---
 lib/SPVM/Native/BasicType.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 8ec242d..2708934 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -121,7 +121,7 @@ int32_t SPVM__Native__BasicType__get_parent(SPVM_ENV* env, SPVM_VALUE* stack) {
     stack[0].oval = obj_address_parent;
     env->call_class_method_by_name(env, stack, "Native::BasicType", "new_with_pointer", 1, &error_id, __func__, FILE_NAME, __LINE__);
     if (error_id) { return error_id; }
-    void* obj_parent = stack[0].oval;
+    obj_parent = stack[0].oval;
     env->set_no_free(env, stack, obj_parent, 1);
     
     env->set_field_object_by_name(env, stack, obj_parent, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
-- 
2.43.0


From 384b55a4fd9a99c675c0a68b066a3ad446bfded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 078/102] fix: set_no_free given 0 clears the no_free flag, not
 inverts it

---
 lib/SPVM/Builder/src/spvm_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index c201ec3..37e7f44 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5524,7 +5524,7 @@ void SPVM_API_set_no_free(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object,
     object->flag |= SPVM_OBJECT_C_FLAG_NO_FREE;
   }
   else {
-    object->flag ^= SPVM_OBJECT_C_FLAG_NO_FREE;
+    object->flag &= ~SPVM_OBJECT_C_FLAG_NO_FREE;
   }
 }
 
-- 
2.43.0


From 68c753ab09e5aacaccba218dc4364dacb4c99a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 079/102] fix: strerror_string does not write its failure
 message beyond the given length

---
 lib/SPVM/Builder/src/spvm_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 37e7f44..d5d1ffd 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4644,7 +4644,7 @@ void* SPVM_API_strerror_string(SPVM_ENV* env, SPVM_VALUE* stack, int32_t errno_v
   
   if (!(status == 0)) {
     errno = status;
-    sprintf(strerror_value, "strerror failed. errno is %d.", errno);
+    snprintf(strerror_value, length + 1, "strerror failed. errno is %d.", errno);
   }
   
   SPVM_API_shorten(env, stack, obj_strerror_value, strlen(strerror_value));
-- 
2.43.0


From 226c10e2b82294367fb6eb7eeee9f3ac33222843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 080/102] fix: get_field_string_chars_by_name reports an
 undefined object and a non-object field as the other getters do

---
 lib/SPVM/Builder/src/spvm_api.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index d5d1ffd..ecf3346 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -2189,12 +2189,11 @@ const char* SPVM_API_get_field_string_chars_by_name(SPVM_ENV* env, SPVM_VALUE* s
   
   *error_id = 0;
   
-  SPVM_RUNTIME_FIELD* field = SPVM_API_get_field(env, stack, object, field_name);
-  if (!field) {
-    *error_id = SPVM_API_die(env, stack, "The \"%s\" field is not found.", field_name, func_name, file, line);
+  SPVM_OBJECT* value = SPVM_API_get_field_string_by_name(env, stack, object, field_name, error_id, func_name, file, line);
+  if (*error_id) {
     return NULL;
   };
-  SPVM_OBJECT* value = SPVM_API_get_field_string(env, stack, object, field);
+  
   if (value == NULL) {
     return NULL;
   }
-- 
2.43.0


From 5d06d05112d1a09f54772d3a07fae44d51a849f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 081/102] fix: new_object_by_name reports a type that is not a
 class type as an exception

---
 lib/SPVM/Builder/src/spvm_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index ecf3346..fde9135 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -603,6 +603,11 @@ void* SPVM_API_new_object_by_name(SPVM_ENV* env, SPVM_VALUE* stack, const char*
     return NULL;
   };
   
+  if (!(((SPVM_RUNTIME_BASIC_TYPE*)basic_type)->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS)) {
+    *error_id = SPVM_API_die(env, stack, "The creation of the object of the \"%s\" class failed.", basic_type_name, func_name, file, line);
+    return NULL;
+  }
+  
   void* object = SPVM_API_new_object(env, stack, basic_type);
   
   if (!object) {
-- 
2.43.0


From ca1e8bc771aa45898dac88fd376df26db14149aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 082/102] fix: read and check the reference count under the
 lock that guards it

---
 lib/SPVM/Builder/src/spvm_api.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index fde9135..b087407 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5293,15 +5293,13 @@ void SPVM_API_assign_object(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref,
 void SPVM_API_inc_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object) {
   
   if (object != NULL) {
-    int32_t ref_count = SPVM_API_get_ref_count(env, stack, object);
-    assert(ref_count >= 0);
-    
     SPVM_RUNTIME* runtime = env->runtime;
     
     SPVM_MUTEX* runtime_mutex_atomic = runtime->mutex_atomic;
     
     {
       SPVM_MUTEX_lock(runtime_mutex_atomic);
+      assert(object->ref_count >= 0);
       object->ref_count++;
       SPVM_MUTEX_unlock(runtime_mutex_atomic);
     }
@@ -5313,15 +5311,13 @@ void SPVM_API_dec_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* objec
   SPVM_RUNTIME* runtime = env->runtime;
   
   if (object != NULL) {
-    int32_t ref_count = SPVM_API_get_ref_count(env, stack, object);
-    assert(ref_count > 0);
-    
     SPVM_RUNTIME* runtime = env->runtime;
     
     SPVM_MUTEX* runtime_mutex_atomic = runtime->mutex_atomic;
     
     {
       SPVM_MUTEX_lock(runtime_mutex_atomic);
+      assert(object->ref_count > 0);
       object->ref_count--;
       SPVM_MUTEX_unlock(runtime_mutex_atomic);
     }
@@ -5331,7 +5327,16 @@ void SPVM_API_dec_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* objec
 
 int32_t SPVM_API_get_ref_count(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object) {
   
-  int32_t ref_count = object->ref_count;
+  SPVM_RUNTIME* runtime = env->runtime;
+  
+  SPVM_MUTEX* runtime_mutex_atomic = runtime->mutex_atomic;
+  
+  int32_t ref_count = 0;
+  {
+    SPVM_MUTEX_reader_lock(runtime_mutex_atomic);
+    ref_count = object->ref_count;
+    SPVM_MUTEX_reader_unlock(runtime_mutex_atomic);
+  }
   
   return ref_count;
 }
-- 
2.43.0


From c2d7d94a0367e3440511a073e8cb6b85cc1d98d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 083/102] fix: pass the arguments following a multi-dimensional
 array argument

---
 SPVM.xs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index c12ba30..89fc983 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1929,7 +1929,6 @@ _xs_call_method(...)
       stack[stack_index].oval = spvm_array;
       
       stack_index++;
-      break;
     }
     else {
       assert(0);
-- 
2.43.0


From b0a4c287e627c716e51ac0c5be326a095bd7eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 084/102] fix: an exception message that contains NUL is not
 cut in the Perl exception

---
 SPVM.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index 89fc983..7927167 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1957,7 +1957,7 @@ _xs_call_method(...)
     int32_t length = env->length(env, stack, exception);
     const char* exception_chars = env->get_chars(env, stack, exception);
     SV* sv_exception = sv_2mortal(newSVpvn((char*)exception_chars, length));
-    croak("%s\n    %s at %s line %d\n", SvPV_nolen(sv_exception), __func__, FILE_NAME, __LINE__);
+    croak("%" SVf "\n    %s at %s line %d\n", SVfARG(sv_exception), __func__, FILE_NAME, __LINE__);
   }
   
   // Return value conversion
-- 
2.43.0


From 2f6f70e16caa96095c0f28a05b4c538e42e88fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 085/102] fix: BlessedObject::Array returns each element as the
 object it is, undef included

---
 SPVM.xs | 67 +++++++++++++++++++++------------------------------------
 1 file changed, 24 insertions(+), 43 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 7927167..02dc471 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -157,6 +157,25 @@ SV* SPVM_XS_UTIL_new_sv_blessed_object(pTHX_ SV* sv_api, void* spvm_object, cons
   return sv_blessed_object;
 }
 
+SV* SPVM_XS_UTIL_new_sv_object(pTHX_ SV* sv_api, SPVM_ENV* env, SPVM_VALUE* stack, void* object) {
+  
+  SV* sv_object;
+  if (object == NULL) {
+    sv_object = &PL_sv_undef;
+  }
+  else if (env->get_object_type_dimension(env, stack, object) > 0) {
+    sv_object = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::Array");
+  }
+  else if (strcmp(env->get_object_basic_type_name(env, stack, object), "string") == 0) {
+    sv_object = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::String");
+  }
+  else {
+    sv_object = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::Class");
+  }
+  
+  return sv_object;
+}
+
 SV* SPVM_XS_UTIL_new_sv_pointer_object(pTHX_ void* pointer, const char* class) {
   
   size_t iv_pointer = PTR2IV(pointer);
@@ -4028,40 +4047,10 @@ _xs_to_elems(...)
       }
     }
     else if (array_is_object_array) {
-      if (basic_type_id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING) {
-        for (int32_t i = 0; i < length; i++) {
-          void* object = env->get_elem_string(env, stack, spvm_array, i);
-          
-          SV* sv_value;
-          if (object != NULL) {
-            sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::String");
-          }
-          else {
-            sv_value = &PL_sv_undef;
-          }
-          
-          av_push(av_values, SvREFCNT_inc(sv_value));
-        }
-      }
-      else {
-        for (int32_t index = 0; index < length; index++) {
-          // Index
-          void* value = env->get_elem_object(env, stack, spvm_array, index);
-          if (value == NULL) {
-            av_push(av_values, &PL_sv_undef);
-          }
-          else {
-            int32_t elem_type_is_array_type = elem_type_dimension > 0;
-            SV* sv_value;
-            if (elem_type_is_array_type) {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Array");
-            }
-            else {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Class");
-            }
-            av_push(av_values, SvREFCNT_inc(sv_value));
-          }
-        }
+      for (int32_t index = 0; index < length; index++) {
+        void* object = env->get_elem_object(env, stack, spvm_array, index);
+        SV* sv_value = SPVM_XS_UTIL_new_sv_object(aTHX_ sv_api, env, stack, object);
+        av_push(av_values, SvREFCNT_inc(sv_value));
       }
     }
     else {
@@ -4522,18 +4511,10 @@ _xs_get(...)
   if (elem_is_object) {
     void* runtime = env->runtime;
     
-    // Element type dimension
-    int32_t elem_type_dimension = env->get_object_type_dimension(env, stack, spvm_array) - 1;
-    
     // Index
     void* elem = env->get_elem_object(env, stack, spvm_array, index);
     
-    if (elem_type_dimension == 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Class");
-    }
-    else if (elem_type_dimension > 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Array");
-    }
+    sv_elem = SPVM_XS_UTIL_new_sv_object(aTHX_ sv_api, env, stack, elem);
   }
   
   XPUSHs(sv_elem);
-- 
2.43.0


From 5a10e93fcb89affc2fade979b3616ba708ce79c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 086/102] fix: BlessedObject::Array set checks the type of an
 object element; get and set refuse a multi-numeric array

---
 SPVM.xs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index 02dc471..841f8a8 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -4379,15 +4379,32 @@ _xs_set(...)
         break;
       }
       default: {
+        if (env->is_mulnum_array(env, stack, spvm_array)) {
+          croak("The element of the multi-numeric array cannnot be set\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+        }
+        
+        if (SvOK(sv_elem) && !(sv_isobject(sv_elem) && sv_derived_from(sv_elem, "SPVM::BlessedObject"))) {
+          croak("$elem must be an SPVM::BlessedObject object or undef\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+        }
+        
         // Get object
         void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
         
+        int32_t elem_isa = env->elem_isa(env, stack, spvm_array, elem);
+        if (!elem_isa) {
+          croak("$elem must be assigned to the element of the array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+        }
+        
         env->set_elem_object(env, stack, spvm_array, index, elem);
       }
     }
   }
   else if (type_dimension > 1) {
     
+    if (SvOK(sv_elem) && !(sv_isobject(sv_elem) && sv_derived_from(sv_elem, "SPVM::BlessedObject"))) {
+      croak("$elem must be an SPVM::BlessedObject object or undef\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
+    
     // Get object
     void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
     
@@ -4500,6 +4517,9 @@ _xs_get(...)
         break;
       }
       default: {
+        if (env->is_mulnum_array(env, stack, spvm_array)) {
+          croak("The element of the multi-numeric array cannnot be got\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+        }
         elem_is_object = 1;
       }
     }
-- 
2.43.0


From 4ada59295ac720384e777eba7b7504d82e9cbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 087/102] fix: an array is released when the conversion of an
 element to it fails

---
 SPVM.xs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 841f8a8..d5ed676 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -306,6 +306,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -319,7 +320,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int8_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -365,6 +366,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -378,7 +380,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         elems[i] = (int8_t)(uint8_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -424,6 +426,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -437,7 +440,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (int16_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -483,6 +486,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -496,7 +500,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
         elems[i] = (int16_t)(uint16_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -542,6 +546,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -555,7 +560,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int32_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -602,6 +607,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -615,7 +621,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
         elems[i] = (int32_t)(uint32_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -662,6 +668,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -675,7 +682,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int64_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -722,6 +729,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -735,7 +743,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         elems[i] = (int64_t)(uint64_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -782,6 +790,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_float_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       float* elems = env->get_elems_float(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -795,7 +804,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (float)SvNV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -842,6 +851,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_double_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       double* elems = env->get_elems_double(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -855,7 +865,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (double)SvNV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -902,6 +912,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_string_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
@@ -917,7 +928,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         env->set_elem_string(env, stack, spvm_array, i, spvm_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -963,6 +974,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_object_array_no_mortal(env, stack, basic_type, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -991,7 +1003,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -1036,6 +1048,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
       
       // New array
       void* spvm_array = env->new_muldim_array_no_mortal(env, stack, basic_type, type_dimension, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1064,7 +1077,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -1111,6 +1124,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_mulnum_array_no_mortal(env, stack, basic_type, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1185,7 +1199,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
-- 
2.43.0


From 5362a4110414ca348ccea87a1a7a326e130b95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 088/102] fix: call_method of a class that is not found throws
 an exception

---
 SPVM.xs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index d5ed676..abda234 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1302,6 +1302,9 @@ _xs_call_method(...)
     class_method_call = 1;
     basic_type_name = SvPV_nolen(sv_invocant);
     void* basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
+    if (!basic_type) {
+      croak("The \"%s\" basic type is not found\n    %s at %s line %d\n", basic_type_name, __func__, FILE_NAME, __LINE__);
+    }
     
     method = env->api->basic_type->get_method_by_name(env->runtime, basic_type, method_name);
     
-- 
2.43.0


From 5c5d547546ebe11f8e551efd1df0548f573c48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 089/102] fix: the type name made for an error message of the
 exchange API is released

---
 SPVM.xs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index abda234..d88ed9e 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -991,7 +991,8 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
-            void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
+            void* spvm_elem_type_name = env->get_type_name_no_mortal(env, stack, elem);
+            SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_elem_type_name, "SPVM::BlessedObject::String");
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
             return &PL_sv_undef;
@@ -1065,7 +1066,8 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
-            void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
+            void* spvm_elem_type_name = env->get_type_name_no_mortal(env, stack, elem);
+            SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_elem_type_name, "SPVM::BlessedObject::String");
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
             return &PL_sv_undef;
@@ -1497,7 +1499,8 @@ _xs_call_method(...)
             
             if (error) {
               const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
-              void* spvm_compile_type_name = env->get_compile_type_name(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
+              void* spvm_compile_type_name = env->get_compile_type_name_no_mortal(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
+              SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_self, spvm_compile_type_name, "SPVM::BlessedObject::String");
               const char* compile_type_name = env->get_chars(env, stack, spvm_compile_type_name);
               croak("The %dth argument of the \"%s\" method in the \"%s\" class must be an SPVM::BlessedObject::Class object of a \"%s\" assignable type or undef\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, compile_type_name, __func__, FILE_NAME, __LINE__);
             }
-- 
2.43.0


From 4b5c4171c26e359bc99b8ee1cd9e8e5a744d8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:41 +0000
Subject: [PATCH 090/102] fix: an executable reports an uncaught exception
 whose message has % or NUL or is long

---
 lib/SPVM/Builder/Exe.pm | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index ad76522..cf0e818 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -517,6 +517,22 @@ sub create_bootstrap_main_func_source {
 
   $source .= <<"EOS";
 
+static void SPVM_BOOTSTRAP_add_stack_trace(SPVM_ENV* env, SPVM_VALUE* stack, const char* func_name, const char* file, int32_t line) {
+  
+  int32_t mortal_stack_top = env->enter_scope(env, stack);
+  
+  char place[1024] = {0};
+  snprintf(place, sizeof(place), "\\n    %s at %s line %d", func_name, file, line);
+  
+  void* obj_place = env->new_string_nolen(env, stack, place);
+  
+  void* obj_exception = env->concat(env, stack, env->get_exception(env, stack), obj_place);
+  
+  env->set_exception(env, stack, obj_exception);
+  
+  env->leave_scope(env, stack, mortal_stack_top);
+}
+
 int32_t main(int32_t command_args_length, const char *command_args[]) {
   
   SPVM_ENV* boot_env = SPVM_NATIVE_new_env();
@@ -559,18 +575,18 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
       error_id = env->set_command_info_program_name(env, stack, obj_program_name);
       
       if (error_id) {
-        env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
+        SPVM_BOOTSTRAP_add_stack_trace(env, stack, __func__, __FILE__, __LINE__);
       }
       else {
         error_id = env->set_command_info_argv(env, stack, obj_argv);
         
         if (error_id) {
-          env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
+          SPVM_BOOTSTRAP_add_stack_trace(env, stack, __func__, __FILE__, __LINE__);
         }
         else {
           error_id = env->set_command_info_base_time(env, stack, base_time);
           if (error_id) {
-            env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
+            SPVM_BOOTSTRAP_add_stack_trace(env, stack, __func__, __FILE__, __LINE__);
           }
         }
       }
@@ -585,7 +601,7 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
     error_id = env->check_bootstrap_method(env, stack, class_name);
     
     if (error_id) {
-      env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
+      SPVM_BOOTSTRAP_add_stack_trace(env, stack, __func__, __FILE__, __LINE__);
     }
     else {
       error_id = env->call_init_methods(env, stack);
@@ -596,7 +612,7 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
         int32_t args_width = 0;
         error_id = env->call_method(env, stack, method, args_width);
         if (error_id) {
-          env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, __FILE__, __LINE__);
+          SPVM_BOOTSTRAP_add_stack_trace(env, stack, __func__, __FILE__, __LINE__);
         }
       }
     }
-- 
2.43.0


From 1ab5bc016ad4079c889435912f386e7a24bd746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:41 +0000
Subject: [PATCH 091/102] fix: the exit status of an executable is not 0 if the
 ID of an uncaught error is a multiple of 256

---
 lib/SPVM/Builder/Exe.pm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index cf0e818..de61cd7 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -633,6 +633,11 @@ int32_t main(int32_t command_args_length, const char *command_args[]) {
   
   boot_env->free_env(boot_env);
   
+  // Only the lower 8 bits of the return value become the exit status. This must not be 0 if an exception is thrown.
+  if (error_id && (error_id & 0xFF) == 0) {
+    return 255;
+  }
+  
   return error_id;
 }
 EOS
-- 
2.43.0


From 8cd38c32939e02eb18f03ba006bca19d275f6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:40 +0000
Subject: [PATCH 092/102] fix: a file changed within the second of the last
 build is rebuilt

---
 lib/SPVM/Builder/Util.pm | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/Util.pm b/lib/SPVM/Builder/Util.pm
index 18c2e2b..20290c3 100644
--- a/lib/SPVM/Builder/Util.pm
+++ b/lib/SPVM/Builder/Util.pm
@@ -13,6 +13,7 @@ use File::Spec;
 use SPVM::Builder::Config;
 use Encode 'decode';
 use File::Find 'find';
+use Time::HiRes ();
 
 # SPVM::Builder::Util is used from Makefile.PL
 # so this class must be wrote as pure perl. Do not contain XS functions.
@@ -114,7 +115,7 @@ sub need_generate {
       for my $input_file (@$input_files) {
         if (-f $input_file) {
           $exists_input_file_at_least_one = 1;
-          my $input_file_mtime = (stat($input_file))[9];
+          my $input_file_mtime = (Time::HiRes::stat($input_file))[9];
           if ($input_file_mtime > $input_files_mtime_max) {
             $input_files_mtime_max = $input_file_mtime;
           }
@@ -123,13 +124,13 @@ sub need_generate {
       if ($exists_input_file_at_least_one) {
         my $spvm_version_header_file = &get_spvm_version_header_file;
         
-        my $spvm_version_header_file_mtime = (stat($spvm_version_header_file))[9];
+        my $spvm_version_header_file_mtime = (Time::HiRes::stat($spvm_version_header_file))[9];
         
         if ($spvm_version_header_file_mtime > $input_files_mtime_max) {
           $input_files_mtime_max = $spvm_version_header_file_mtime;
         }
         
-        my $output_file_mtime = (stat($output_file))[9];
+        my $output_file_mtime = (Time::HiRes::stat($output_file))[9];
         
         if ($input_files_mtime_max > $output_file_mtime) {
           $need_generate = 1;
-- 
2.43.0


From 26a1411c358a6cbcce3ae20e887a3879233ecf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 093/102] fix: a precompile class is built again when its C
 source changes by the change of another class

---
 lib/SPVM/Builder/CC.pm | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 854b0b3..007b263 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -153,11 +153,8 @@ sub build_precompile_class_source_file {
   my $source_file = "$cc_input_dir/$source_rel_file";
   
   # Check if generating is needed
-  my $need_generate = SPVM::Builder::Util::need_generate({
-    force => $force,
-    output_file => $source_file,
-    input_files => [$class_file],
-  });
+  # The precompile source depends on other classes too, so the content is compared with the content of the existing file.
+  my $need_generate = $force || !-f $source_file || SPVM::Builder::Util::slurp_binary($source_file) ne $precompile_source;
   
   # Generate precompile C source file
   if ($need_generate) {
-- 
2.43.0


From df1e4c66bf2a07c74e8449817eeb0f66e8229a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 094/102] fix: an object file depends on all config files that
 affect its compilation

---
 lib/SPVM/Builder/CC.pm | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 007b263..a2d9461 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -530,7 +530,7 @@ sub compile_class {
         my $resource = $config->get_resource($resource_name);
         my $resource_config = $resource->config;
         
-        push @resource_config_files, $resource_config->file;
+        push @resource_config_files, @{$resource_config->get_loaded_config_files};
         
         my $resource_native_include_dir = $resource_config->native_include_dir;
         if (defined $resource_native_include_dir && -d $resource_native_include_dir) {
@@ -551,9 +551,12 @@ sub compile_class {
       
       my $input_files = [$source_file, $class_file, @native_header_files, @resource_native_header_files, @resource_config_files];
       
-      if (defined $config->file) {
-        push @$input_files, $config->file;
-      };
+      # All config files that affect the compilation
+      for my $related_config ($config, $config->resource_loader_config, $config->config_exe) {
+        if (defined $related_config) {
+          push @$input_files, grep { defined $_ } ($related_config->file, @{$related_config->get_loaded_config_files});
+        }
+      }
       
       $need_generate = SPVM::Builder::Util::need_generate({
         force => $force,
-- 
2.43.0


From 6e87e9ef10ad19ce616f34fb94ffece1eaad0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 095/102] fix: an object file compiled with other options of
 spvmcc is compiled again after a build that did not end

---
 lib/SPVM/Builder/CC.pm  |  5 +++++
 lib/SPVM/Builder/Exe.pm | 24 +++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index a2d9461..72eb753 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -422,6 +422,7 @@ sub compile_class {
       my $compile_options = {
         runtime => $runtime,
         config => $resource_config,
+        dependent_files => $options->{dependent_files},
       };
       
       my $resouce_object_files = $builder_cc_resource->compile_class($resource_class_name, $compile_options);
@@ -551,6 +552,10 @@ sub compile_class {
       
       my $input_files = [$source_file, $class_file, @native_header_files, @resource_native_header_files, @resource_config_files];
       
+      if (defined $options->{dependent_files}) {
+        push @$input_files, @{$options->{dependent_files}};
+      }
+      
       # All config files that affect the compilation
       for my $related_config ($config, $config->resource_loader_config, $config->config_exe) {
         if (defined $related_config) {
diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index de61cd7..1cbb13f 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -370,7 +370,9 @@ sub compile_source_file {
   
   my $config_exe_loaded_config_files = $config_exe->get_loaded_config_files;
   my $config_loaded_config_files = $config->get_loaded_config_files;
-  my $need_generate_input_files = [$source_file, @$config_loaded_config_files, @$config_exe_loaded_config_files];
+  # The bootstrap source file is created again when the options change.
+  my $bootstrap_source_file = $self->get_bootstrap_source_file;
+  my $need_generate_input_files = [$source_file, $bootstrap_source_file, @$config_loaded_config_files, @$config_exe_loaded_config_files];
   my $need_generate = SPVM::Builder::Util::need_generate({
     force => $self->force || $config->force,
     output_file => $output_file,
@@ -805,6 +807,16 @@ EOS
   return $source;
 }
 
+sub get_bootstrap_source_file {
+  my ($self) = @_;
+  
+  my $class_name_rel_file = SPVM::Builder::Util::convert_class_name_to_rel_file($self->class_name);
+  
+  my $bootstrap_source_file = SPVM::Builder::Util::create_build_src_path($self->builder->build_dir, "$class_name_rel_file.boot.c");
+  
+  return $bootstrap_source_file;
+}
+
 sub create_bootstrap_source {
   my ($self) = @_;
   
@@ -825,11 +837,7 @@ sub create_bootstrap_source {
   }
   
   # Source file - Output
-  my $build_src_dir = SPVM::Builder::Util::create_build_src_path($self->builder->build_dir);
-  my $perl_class_name = "SPVM::$class_name";
-  my $bootstrap_base = $perl_class_name;
-  $bootstrap_base =~ s|::|/|g;
-  my $bootstrap_source_file = "$build_src_dir/$bootstrap_base.boot.c";
+  my $bootstrap_source_file = $self->get_bootstrap_source_file;
   
   # Config
   my $config_exe = $self->config;
@@ -913,7 +921,7 @@ sub compile_bootstrap_source_file {
   # Compile source files
   my $class_name_rel_file = SPVM::Builder::Util::convert_class_name_to_rel_file($class_name);
   my $object_file_name = SPVM::Builder::Util::create_build_object_path($self->builder->build_dir, "$class_name_rel_file.boot.o");
-  my $source_file = SPVM::Builder::Util::create_build_src_path($self->builder->build_dir, "$class_name_rel_file.boot.c");
+  my $source_file = $self->get_bootstrap_source_file;
   
   my $config = $config_exe->config_bootstrap;
   unless ($config) {
@@ -1005,6 +1013,7 @@ sub compile_precompile_class {
     {
       runtime => $runtime,
       config => $config,
+      dependent_files => [$self->get_bootstrap_source_file],
     }
   );
   push @$object_files, @$precompile_object_files;
@@ -1064,6 +1073,7 @@ sub compile_native_class {
       {
         runtime => $runtime,
         config => $config,
+        dependent_files => [$self->get_bootstrap_source_file],
       }
     );
     push @$all_object_files, @$object_files;
-- 
2.43.0


From 435f87a85f1d54211bd11d1c2a0dde1098231cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:48 +0000
Subject: [PATCH 096/102] fix: an interrupted link leaves no broken output file

---
 lib/SPVM/Builder/CC.pm | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 72eb753..fcc1196 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -692,6 +692,10 @@ sub link {
       $before_link_cb->($config, $link_info);
     }
     
+    # The output file is created under a temporary name, so that an interrupted link does not leave a broken output file
+    my $link_tmp_output_file = "$link_info_output_file.tmp";
+    unlink $link_tmp_output_file;
+    
     # Create a dynamic library
     if ($output_type eq 'dynamic_lib') {
       my $basic_type = $runtime->get_basic_type_by_name($class_name);
@@ -711,7 +715,7 @@ sub link {
       (undef, @link_tmp_files) = $cbuilder->link(
         objects => $link_info_object_file_names,
         module_name => $class_name,
-        lib_file => $link_info_output_file,
+        lib_file => $link_tmp_output_file,
         extra_linker_flags => "@$link_info_ldflags",
         dl_func_list => $dl_func_list,
       );
@@ -720,7 +724,7 @@ sub link {
     # Create a static library
     elsif ($output_type eq 'static_lib') {
       my @object_files = map { "$_" } @$link_info_object_file_names;
-      my @ar_cmd = ('ar', 'rc', $link_info_output_file, @object_files);
+      my @ar_cmd = ('ar', 'rc', $link_tmp_output_file, @object_files);
       
       unless ($quiet) {
         warn "[Generate a static link library for the \"$class_name\" class]\n";
@@ -743,7 +747,7 @@ sub link {
       (undef, @link_tmp_files) = $cbuilder->link_executable(
         objects => $link_info_object_file_names,
         module_name => $class_name,
-        exe_file => $link_info_output_file,
+        exe_file => $link_tmp_output_file,
         extra_linker_flags => "@$link_info_ldflags",
       );
     }
@@ -751,6 +755,9 @@ sub link {
       confess("Unknown output_type \"$output_type\"");
     }
     
+    rename $link_tmp_output_file, $link_info_output_file
+      or confess("Can't rename \"$link_tmp_output_file\" to \"$link_info_output_file\":$!");
+    
     if ($self->debug) {
       if ($^O eq 'MSWin32') {
         my $def_file;
-- 
2.43.0


From c369517fe60da4c8912b33a6679d44dc2eaf34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:48 +0000
Subject: [PATCH 097/102] fix: config arguments of spvmcc that differ only in
 how they are split are told apart

---
 lib/SPVM/Builder/Exe.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index 1cbb13f..2367052 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -875,7 +875,8 @@ sub create_bootstrap_source {
   
   # For detecting chaging config arguments
   my $argv = $self->argv;
-  $bootstrap_source .= "// argv : @$argv\n";
+  my @argv_escaped = map { my $arg = $_; $arg =~ s/([\\"\s])/sprintf("\\x%02X", ord($1))/ge; "\"$arg\"" } @$argv;
+  $bootstrap_source .= "// argv : @argv_escaped\n";
   
   # For detecting chaging optimize
   my $optimize_string = $self->optimize;
-- 
2.43.0


From 867a3ddeec94b310ad4e6b523d0ff1f3b2ee7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 098/102] fix: an executable of a program that uses the Native
 classes links

---
 lib/SPVM/Native/BasicType.c | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 2708934..fe18eca 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -570,21 +570,3 @@ int32_t SPVM__Native__BasicType__get_anon_basic_types_length(SPVM_ENV* env, SPVM
   
   return 0;
 }
-
-int32_t SPVM__Native__Env__DESTROY(SPVM_ENV* env, SPVM_VALUE* stack) {
-  
-  int32_t error_id = 0;
-  
-  void* obj_self = stack[0].oval;
-  
-  int32_t no_free = env->no_free(env, stack, obj_self);
-  if (error_id) { return error_id; }
-  
-  if (!no_free) {
-    SPVM_ENV* my_env = env->get_pointer(env, stack, obj_self);
-    
-    my_env->free_env(my_env);
-  }
-  
-  return 0;
-}
-- 
2.43.0


From 5275446e1bbbe1d023b91b99c9234364b9dbdde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 099/102] fix: an executable of a class that has precompile
 anonymous methods only links

---
 lib/SPVM/Builder/CC.pm | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index fcc1196..e0502e6 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -294,7 +294,15 @@ sub compile_class {
     my $basic_type = $runtime->get_basic_type_by_name($class_name);
     my $precompile_method_names = $basic_type->get_method_names_by_category($category);
     
-    unless (@$precompile_method_names) {
+    my $has_precompile_methods = @$precompile_method_names;
+    
+    # The precompile source of a class contains the precompile methods of its anonymous classes
+    for my $anon_basic_type_name (@{$basic_type->get_anon_basic_type_names}) {
+      my $anon_basic_type = $runtime->get_basic_type_by_name($anon_basic_type_name);
+      $has_precompile_methods ||= @{$anon_basic_type->get_method_names_by_category($category)};
+    }
+    
+    unless ($has_precompile_methods) {
       return [];
     }
   }
-- 
2.43.0


From 870581db3cef030d4163bc0c7eb4af0f76d15a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:56 +0000
Subject: [PATCH 100/102] fix: a source file that could not be parsed is read
 again by the next compilation

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 8ee281f..971d480 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -177,6 +177,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   
   compiler->constant_strings_base_id = compiler_constant_strings_base_id;
   
+  int32_t compile_start_class_files_length = compiler->class_files->length;
+  
   if (compiler->basic_types->length == 0) {
     SPVM_COMPILER_add_basic_types(compiler);
     
@@ -258,6 +260,11 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   assert(compiler->current_each_compile_allocator->memory_blocks_count_tmp == compile_start_memory_blocks_count_tmp);
   
   if (error_id) {
+    // Class files loaded in this compilation are removed, including those of classes that are not parsed to the end
+    while (compiler->class_files->length > compile_start_class_files_length) {
+      SPVM_COMPILER_delete_class_file(compiler, SPVM_LIST_get(compiler->class_file_class_names, compiler->class_files->length - 1));
+    }
+    
     for (int32_t basic_type_id = compiler_basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
       SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
       
-- 
2.43.0


From 7c57ff3efb682bc2749cd82a9bab844f8a11db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 101/102] fix: spvmdist prints nothing with the --quiet option

---
 lib/SPVM/Dist.pm | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Dist.pm b/lib/SPVM/Dist.pm
index 0600e45..220577c 100644
--- a/lib/SPVM/Dist.pm
+++ b/lib/SPVM/Dist.pm
@@ -68,6 +68,17 @@ sub precompile {
   }
 }
 
+sub quiet {
+  my $self = shift;
+  if (@_) {
+    $self->{quiet} = $_[0];
+    return $self;
+  }
+  else {
+    return $self->{quiet};
+  }
+}
+
 sub resource {
   my $self = shift;
   if (@_) {
@@ -226,11 +237,11 @@ sub generate_file {
   
   my $force = $self->force;
   if ($force || !-f $file) {
-    print "  [write]$file\n";
+    print "  [write]$file\n" unless $self->quiet;
     SPVM::Builder::Util::spurt_binary($file, $content);
   }
   else {
-    print "  [exists]$file\n";
+    print "  [exists]$file\n" unless $self->quiet;
   }
 }
 
@@ -239,7 +250,7 @@ sub generate_dir {
   
   my @created = mkpath $rel_dir;
   if (@created) {
-    print "  [mkdir]$rel_dir\n";
+    print "  [mkdir]$rel_dir\n" unless $self->quiet;
   }
 }
 
-- 
2.43.0


From 38bf2b3fc61dd03d76a8edf8d9d861488be18747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:33 +0000
Subject: [PATCH 102/102] fix: spvmdist quotes the user name and the email in
 Makefile.PL

---
 lib/SPVM/Dist.pm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Dist.pm b/lib/SPVM/Dist.pm
index 220577c..ab6023f 100644
--- a/lib/SPVM/Dist.pm
+++ b/lib/SPVM/Dist.pm
@@ -828,6 +828,11 @@ sub generate_makefile_pl_file {
     $user_email = '[--user-email]'
   }
   
+  # They are written in single quoted strings
+  for my $user_string ($user_name, $user_email) {
+    $user_string =~ s/([\\'])/\\$1/g;
+  }
+  
   # "Makefile.PL" content
   my $makefile_pl_content = <<"EOS";
 use 5.008_007;
-- 
2.43.0

