From 1f5adf5c0212af885e640b3f38a4fb60a4c8c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 01/34] fix: reject truncated instructions and skip empty array
 bodies by instruction, implement OP_SWAP

Operands past the end of the bytecode were read as zero, skip_loop_body mistook operand
bytes for array opcodes, an EOF array entered at EOF leaked its loop frame, a counted
array of 0xFFFFFFFF elements was taken for an EOF array, and OP_SWAP was ignored.
---
 src/vm/vm_exec.c     |  64 +++++++++++++++++------
 src/vm/vm_internal.h | 120 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 168 insertions(+), 16 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 5d6b443..961d764 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -303,19 +303,36 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
 
 // --- Loop Stack Helpers ---
 
-static void skip_loop_body(cnd_vm_ctx* ctx) {
-    int depth = 1;
-    while (ctx->ip < ctx->program->bytecode_len && depth > 0) {
-        uint8_t op = ctx->program->bytecode[ctx->ip];
+// Moves ip past the OP_ARR_END that closes the array body starting at ip.
+static cnd_error_t skip_loop_body(cnd_vm_ctx* ctx) {
+    const uint8_t* bc = ctx->program->bytecode;
+    size_t len = ctx->program->bytecode_len;
+    size_t depth = 1;
+    while (depth > 0) {
+        if (ctx->ip >= len) return CND_ERR_OOB;
+        uint8_t op = bc[ctx->ip];
+        size_t avail = len - ctx->ip;
+        size_t n = cnd_instr_len(bc + ctx->ip, avail);
+        if (n == 0) return CND_ERR_INVALID_OP;
+        if (n > avail) return CND_ERR_OOB;
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // The cases (which are balanced) and the inline table are skipped as a whole
+            size_t table_start, table_size;
+            if (!cnd_switch_table(bc, len, ctx->ip, &table_start, &table_size)) return CND_ERR_OOB;
+            ctx->ip = table_start + table_size;
+            continue;
+        }
         if (op == OP_ARR_FIXED || op == OP_ARR_PRE_U8 || 
             op == OP_ARR_PRE_U16 || op == OP_ARR_PRE_U32 || op == OP_ARR_EOF || op == OP_ARR_DYNAMIC) depth++;
         if (op == OP_ARR_END) depth--;
-        ctx->ip++; 
+        ctx->ip += n;
     }
+    return CND_ERR_OK;
 }
 
 static bool loop_push(cnd_vm_ctx* ctx, size_t start_ip, uint32_t count) {
     if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return false;
+    if (count == 0xFFFFFFFF) return false; // Reserved to mark EOF loops
     ctx->loop_stack[ctx->loop_depth].start_ip = start_ip;
     ctx->loop_stack[ctx->loop_depth].remaining = count;
     ctx->loop_depth++;
@@ -379,7 +396,8 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (!loop_push(ctx, ctx->ip, (uint32_t)count)) return CND_ERR_OOB; \
         } else { \
              SYNC_IP(); \
-             skip_loop_body(ctx); \
+             cnd_error_t skip_err = skip_loop_body(ctx); \
+             if (skip_err != CND_ERR_OK) return skip_err; \
              RELOAD_PC(); \
         } \
         break; \
@@ -686,6 +704,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
     #define RELOAD_PC() (pc = ctx->program->bytecode + ctx->ip)
 
     while (pc < end) {
+        // Reject instructions whose operands run past the end of the bytecode
+        if (cnd_instr_len(pc, (size_t)(end - pc)) > (size_t)(end - pc)) return CND_ERR_OOB;
+
         uint8_t opcode = *pc++;
         // printf("Opcode: %02X at IP %zu\n", opcode, (size_t)(pc - ctx->program->bytecode - 1));
 
@@ -1136,7 +1157,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
                      SYNC_IP();
-                     skip_loop_body(ctx);
+                     cnd_error_t skip_err = skip_loop_body(ctx);
+                     if (skip_err != CND_ERR_OK) return skip_err;
                      RELOAD_PC();
                 }
                 break;
@@ -1148,17 +1170,18 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
 
+                // Already at EOF: zero elements
+                if (ctx->cursor >= ctx->data_len) {
+                    cnd_error_t skip_err = skip_loop_body(ctx);
+                    if (skip_err != CND_ERR_OK) return skip_err;
+                    RELOAD_PC();
+                    break;
+                }
+
                 if (ctx->loop_depth >= CND_MAX_LOOP_DEPTH) return CND_ERR_STACK_OVERFLOW;
                 cnd_loop_frame* frame = &ctx->loop_stack[ctx->loop_depth++];
                 frame->start_ip = ctx->ip;
                 frame->remaining = 0xFFFFFFFF; // Special value for EOF loop
-                
-                // Check if we are already at EOF
-                if (ctx->cursor >= ctx->data_len) {
-                    // Skip loop
-                    skip_loop_body(ctx);
-                    RELOAD_PC();
-                }
                 break;
             }
 
@@ -1181,7 +1204,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (try_optimize_byte_array(ctx, count)) { RELOAD_PC(); break; }
                     if (!loop_push(ctx, ctx->ip, count)) return CND_ERR_OOB;
                 } else {
-                     skip_loop_body(ctx);
+                     cnd_error_t skip_err = skip_loop_body(ctx);
+                     if (skip_err != CND_ERR_OK) return skip_err;
                      RELOAD_PC();
                 }
                 break;
@@ -1420,6 +1444,14 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 break;
             }
 
+            case OP_SWAP: {
+                if (ctx->expr_sp < 2) return CND_ERR_STACK_UNDERFLOW;
+                uint64_t top = ctx->expr_stack[ctx->expr_sp - 1];
+                ctx->expr_stack[ctx->expr_sp - 1] = ctx->expr_stack[ctx->expr_sp - 2];
+                ctx->expr_stack[ctx->expr_sp - 2] = top;
+                break;
+            }
+
             case OP_EMIT: {
                 uint8_t type = FETCH_IL_U8(ctx);
                 uint64_t val;
@@ -1667,7 +1699,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_LOG_NOT: { UNARY_OP(!); break; }
 
             default:
-                break;
+                break; // Unassigned opcodes have no effect
         }
     }
     
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index d4d1331..2b115a8 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -50,6 +50,126 @@ static inline uint32_t peek_il_u32(cnd_vm_ctx* ctx, size_t idx) {
     return b[0] | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
+// --- Instruction Layout ---
+
+// Size in bytes of a value of the given IO type, or 0 if the type carries no inline value.
+static inline size_t cnd_value_size(uint8_t type) {
+    switch (type) {
+        case OP_IO_U8:  case OP_IO_I8:  case OP_IO_BOOL: return 1;
+        case OP_IO_U16: case OP_IO_I16: return 2;
+        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
+        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
+        default: return 0;
+    }
+}
+
+// Total length (opcode included) of the instruction at `bc`, of which `avail` (>= 1) bytes exist.
+// Returns 0 if the opcode (or its type operand) is invalid. The result may exceed `avail`, in
+// which case the instruction is truncated.
+static inline size_t cnd_instr_len(const uint8_t* bc, size_t avail) {
+    switch (bc[0]) {
+        case OP_NOOP: case OP_SET_ENDIAN_LE: case OP_SET_ENDIAN_BE: case OP_EXIT_STRUCT:
+        case OP_ENTER_BIT_MODE: case OP_EXIT_BIT_MODE: case OP_ARR_END: case OP_MARK_OPTIONAL:
+        case OP_POP: case OP_SWAP: case OP_DUP:
+        case OP_ADD: case OP_SUB: case OP_MUL: case OP_DIV: case OP_MOD: case OP_NEG:
+        case OP_FADD: case OP_FSUB: case OP_FMUL: case OP_FDIV: case OP_FNEG:
+        case OP_SIN: case OP_COS: case OP_TAN: case OP_SQRT: case OP_POW: case OP_LOG: case OP_ABS:
+        case OP_ITOF: case OP_FTOI:
+        case OP_EQ_F: case OP_NEQ_F: case OP_GT_F: case OP_LT_F: case OP_GTE_F: case OP_LTE_F:
+        case OP_BIT_AND: case OP_BIT_OR: case OP_BIT_XOR: case OP_BIT_NOT: case OP_SHL: case OP_SHR:
+        case OP_EQ: case OP_NEQ: case OP_GT: case OP_LT: case OP_GTE: case OP_LTE:
+        case OP_LOG_AND: case OP_LOG_OR: case OP_LOG_NOT:
+            return 1;
+
+        case OP_META_VERSION: case OP_ALIGN_PAD: case OP_ALIGN_FILL:
+            return 2;
+
+        case OP_EMIT:
+            return (avail >= 2 && cnd_value_size(bc[1]) == 0) ? 0 : 2;
+
+        case OP_ENTER_STRUCT: case OP_META_NAME:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL: case OP_IO_BIT_BOOL:
+        case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_LOAD_CTX: case OP_STORE_CTX:
+            return 3;
+
+        case OP_IO_BIT_U: case OP_IO_BIT_I:
+            return 4;
+
+        case OP_STR_NULL: case OP_ARR_DYNAMIC: case OP_JUMP: case OP_JUMP_IF_NOT:
+            return 5;
+
+        case OP_ARR_FIXED: case OP_RAW_BYTES: case OP_SWITCH: case OP_SWITCH_TABLE:
+            return 7;
+
+        case OP_CRC_16: return 8;
+        case OP_PUSH_IMM:
+        case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV:
+            return 9;
+        case OP_CRC_32: return 14;
+        case OP_SCALE_LIN: return 17;
+
+        case OP_TRANS_POLY:   return (avail < 2) ? 2 : 2 + (size_t)bc[1] * 8;
+        case OP_TRANS_SPLINE: return (avail < 2) ? 2 : 2 + (size_t)bc[1] * 16;
+
+        case OP_CONST_CHECK: {
+            if (avail < 4) return 4;
+            if (bc[3] < OP_IO_U8 || bc[3] > OP_IO_I64) return 0;
+            return 4 + cnd_value_size(bc[3]);
+        }
+        case OP_CONST_WRITE: {
+            if (avail < 2) return 2;
+            if (bc[1] < OP_IO_U8 || bc[1] > OP_IO_U64) return 0;
+            return 2 + cnd_value_size(bc[1]);
+        }
+        case OP_RANGE_CHECK: {
+            if (avail < 2) return 2;
+            if (bc[1] < OP_IO_U8 || bc[1] > OP_IO_F64) return 0;
+            return 2 + 2 * cnd_value_size(bc[1]);
+        }
+        case OP_ENUM_CHECK: {
+            if (avail < 4) return 4;
+            if (bc[1] < OP_IO_U8 || bc[1] > OP_IO_I64) return 0;
+            return 4 + (size_t)(bc[2] | (bc[3] << 8)) * cnd_value_size(bc[1]);
+        }
+        default:
+            return 0;
+    }
+}
+
+static inline uint32_t cnd_load_le32(const uint8_t* b) {
+    return (uint32_t)b[0] | ((uint32_t)b[1] << 8) | ((uint32_t)b[2] << 16) | ((uint32_t)b[3] << 24);
+}
+
+static inline uint64_t cnd_load_le64(const uint8_t* b) {
+    return (uint64_t)cnd_load_le32(b) | ((uint64_t)cnd_load_le32(b + 4) << 32);
+}
+
+// Locates the jump table of the OP_SWITCH / OP_SWITCH_TABLE instruction at `ip` (which must be
+// complete). Returns false if the table does not lie inside the bytecode.
+static inline bool cnd_switch_table(const uint8_t* bc, size_t len, size_t ip, size_t* start, size_t* size) {
+    size_t rel = cnd_load_le32(bc + ip + 3);
+    size_t avail = len - (ip + 7);
+    if (rel > avail) return false;
+    avail -= rel;
+    *start = ip + 7 + rel;
+    if (bc[ip] == OP_SWITCH) {
+        if (avail < 6) return false;
+        *size = 6 + (size_t)(bc[*start] | (bc[*start + 1] << 8)) * 12;
+    } else {
+        if (avail < 20) return false;
+        uint64_t min_val = cnd_load_le64(bc + *start);
+        uint64_t max_val = cnd_load_le64(bc + *start + 8);
+        if (max_val < min_val) return false;
+        if (max_val - min_val >= (avail - 20) / 4) return false;
+        *size = 20 + (size_t)(max_val - min_val + 1) * 4;
+    }
+    return *size <= avail;
+}
+
 // --- Data Access (Read) ---
 
 static inline uint8_t read_u8(const uint8_t* buf) {
-- 
2.43.0


From cba02876da11e41c393d9c929a6b1e2598d1dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 02/34] fix: bit fields and bit padding must fit in the
 remaining data

read_bits/write_bits silently stopped at the end of the buffer, decode padding moved the
cursor past it, and widths above 64 shifted out of range.
---
 src/vm/vm_exec.c     | 38 +++++++++++++++++++++++++++++++++++---
 src/vm/vm_internal.h |  6 ++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 961d764..c15b631 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -438,6 +438,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
     }
 
 static int64_t sign_extend(uint64_t val, uint8_t bits) {
+    if (bits == 0) return 0;
     if (bits >= 64) return (int64_t)val;
     uint64_t m = 1ULL << (bits - 1);
     return (int64_t)((val ^ m) - m);
@@ -998,7 +999,26 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_F64: HANDLE_FLOAT(8, double, uint64_t, read_u64(ctx->data_buffer + ctx->cursor, ctx->endianness), write_u64(ctx->data_buffer + ctx->cursor, t, ctx->endianness));
 
             // ... Category C (Bitfields) ...
-            case OP_IO_BIT_U: { uint16_t k=FETCH_IL_U16(ctx); uint8_t b=FETCH_IL_U8(ctx); uint64_t v=0; if(ctx->mode==CND_MODE_ENCODE){ SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; write_bits(ctx,v,b); } else { v=read_bits(ctx,b); SYNC_IP(); if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; } break; } 
+            case OP_IO_BIT_U: {
+                uint16_t k=FETCH_IL_U16(ctx);
+                uint8_t b=FETCH_IL_U8(ctx);
+                uint64_t v=0;
+                if (b > 64) return CND_ERR_INVALID_OP;
+                if (!has_bits(ctx, b)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                } else if(ctx->mode==CND_MODE_ENCODE){
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                    write_bits(ctx,v,b);
+                } else {
+                    v=read_bits(ctx,b);
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                }
+                break;
+            }
             
             case OP_ENTER_BIT_MODE: {
                 // No-op for now
@@ -1016,6 +1036,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint8_t fill_bit = FETCH_IL_U8(ctx);
                 if (ctx->bit_offset > 0) {
                     uint8_t bits_needed = 8 - ctx->bit_offset;
+                    if (!has_bits(ctx, bits_needed)) return CND_ERR_OOB;
                     uint64_t fill_val = (fill_bit ? 0xFFFFFFFFFFFFFFFF : 0);
                     
                     if (ctx->mode == CND_MODE_ENCODE) {
@@ -1030,7 +1051,12 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t k=FETCH_IL_U16(ctx); 
                 uint8_t b=FETCH_IL_U8(ctx); 
                 int64_t v=0; 
-                if(ctx->mode==CND_MODE_ENCODE){ 
+                if (b > 64) return CND_ERR_INVALID_OP;
+                if (!has_bits(ctx, b)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
+                } else if(ctx->mode==CND_MODE_ENCODE){ 
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
                     write_bits(ctx,(uint64_t)v,b); 
@@ -1045,7 +1071,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_IO_BIT_BOOL: {
                 uint16_t k = FETCH_IL_U16(ctx);
                 uint8_t v = 0;
-                if (ctx->mode == CND_MODE_ENCODE) {
+                if (!has_bits(ctx, 1)) {
+                    if (!ctx->is_next_optional) return CND_ERR_OOB;
+                    SYNC_IP();
+                    if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
+                } else if (ctx->mode == CND_MODE_ENCODE) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
                     if (v > 1) return CND_ERR_VALIDATION;
@@ -1060,7 +1090,9 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             }
             case OP_ALIGN_PAD: { 
                 uint8_t b=FETCH_IL_U8(ctx); 
+                if (!has_bits(ctx, b)) return CND_ERR_OOB;
                 if (ctx->mode == CND_MODE_ENCODE) {
+                    while (b > 64) { write_bits(ctx, 0, 64); b -= 64; }
                     write_bits(ctx, 0, b);
                 } else {
                     size_t total_bits = ctx->bit_offset + b;
diff --git a/src/vm/vm_internal.h b/src/vm/vm_internal.h
index 2b115a8..a7ddfbe 100644
--- a/src/vm/vm_internal.h
+++ b/src/vm/vm_internal.h
@@ -214,6 +214,12 @@ static inline uint64_t read_u64(const uint8_t* buf, cnd_endian_t endian) {
     }
 }
 
+// True if `count` bits remain between the current bit position and the end of the data.
+static inline bool has_bits(const cnd_vm_ctx* ctx, uint8_t count) {
+    size_t bits = (size_t)ctx->bit_offset + count;
+    return (bits + 7) / 8 <= ctx->data_len - ctx->cursor;
+}
+
 static inline uint64_t read_bits(cnd_vm_ctx* ctx, uint8_t count) {
     // Optimization: Byte-aligned reads
     if (ctx->bit_offset == 0 && (count & 7) == 0) {
-- 
2.43.0


From bcb9079b2b168f96b3a43a683ffefaf4cfbc413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 03/34] fix: transforms and optional markers apply to exactly
 one data item

They survived absent optional fields, bool, bit, string, raw, const, crc and emit items
and the byte-array fast path, and were then applied to a later field.
---
 src/vm/vm_exec.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index c15b631..39372b4 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -115,6 +115,12 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     }
 }
 
+// A transform or optional marker applies to exactly one data item.
+static inline void clear_modifiers(cnd_vm_ctx* ctx) {
+    ctx->trans_type = CND_TRANS_NONE;
+    ctx->is_next_optional = false;
+}
+
 // --- Helpers / Macros to reduce repeated IO case code ---
 // HANDLE_PRIMITIVE(size, ctype, READ_EXPR, WRITE_EXPR)
 //   - size: number of bytes this IO consumes
@@ -125,7 +131,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
+              clear_modifiers(ctx); \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -187,7 +193,6 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
           } \
-          ctx->trans_type = CND_TRANS_NONE; \
       } else { \
           ctype val = 0; \
           if (ctx->mode == CND_MODE_ENCODE) { \
@@ -201,7 +206,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           } \
       } \
       ctx->cursor += (size); \
-      ctx->is_next_optional = false; \
+      clear_modifiers(ctx); \
       break; }
 
 // Helper for float/double where we must memcopy to/from an integer representation
@@ -209,7 +214,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     { uint16_t key = FETCH_IL_U16(ctx); \
       if (ctx->cursor + (size) > ctx->data_len) { \
           if (ctx->is_next_optional) { \
-              ctx->is_next_optional = false; \
+              clear_modifiers(ctx); \
               ctype val = 0; \
               SYNC_IP(); \
               if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
@@ -261,7 +266,6 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
           } \
-          ctx->trans_type = CND_TRANS_NONE; \
       } else { \
           ctype val = 0; \
           if (ctx->mode == CND_MODE_ENCODE) { \
@@ -275,7 +279,7 @@ static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
           } \
       } \
       ctx->cursor += (size); \
-      ctx->is_next_optional = false; \
+      clear_modifiers(ctx); \
       break; }
 
 #define CHECK_RANGE(size, ctype, IL_READ, BUF_READ) \
@@ -365,6 +369,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
         }
         
         ctx->cursor += count;
+        clear_modifiers(ctx);
         ctx->ip += 4; // Skip OP_IO_U8(1) + KEY(2) + OP_ARR_END(1)
         return true;
     }
@@ -411,7 +416,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, &str) != CND_ERR_OK) { \
                 if (ctx->is_next_optional) { \
-                    ctx->is_next_optional = false; \
+                    clear_modifiers(ctx); \
                     break; \
                 } \
                 return CND_ERR_CALLBACK; \
@@ -433,7 +438,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
             ctx->cursor += (size) + len_val; \
         } \
-        ctx->is_next_optional = false; \
+        clear_modifiers(ctx); \
         break; \
     }
 
@@ -769,6 +774,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 else if (size == 8) write_u64(ctx->data_buffer + ctx->cursor, val, ctx->endianness);
                 
                 ctx->cursor += size;
+                clear_modifiers(ctx);
                 break;
             }
             
@@ -807,6 +813,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 }
                 
                 ctx->cursor += size;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -891,6 +898,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (actual != (uint16_t)crc) return CND_ERR_CRC_MISMATCH;
                 }
                 ctx->cursor += 2;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -911,6 +919,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (actual != crc) return CND_ERR_CRC_MISMATCH;
                 }
                 ctx->cursor += 4;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -970,7 +979,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 uint16_t key = FETCH_IL_U16(ctx);
                 if (ctx->cursor + 1 > ctx->data_len) {
                     if (ctx->is_next_optional) {
-                        ctx->is_next_optional = false;
+                        clear_modifiers(ctx);
                         uint8_t val = 0;
                         SYNC_IP();
                         if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
@@ -991,7 +1000,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     if (ctx->io_callback(ctx, key, opcode, &val) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
                 ctx->cursor += 1;
-                ctx->is_next_optional = false;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -1017,6 +1026,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK;
                 }
+                clear_modifiers(ctx);
                 break;
             }
             
@@ -1066,6 +1076,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if(ctx->io_callback(ctx,k,opcode,&v)) return CND_ERR_CALLBACK; 
                 } 
+                clear_modifiers(ctx);
                 break; 
             }
             case OP_IO_BIT_BOOL: {
@@ -1086,6 +1097,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, k, opcode, &v) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 }
+                clear_modifiers(ctx);
                 break;
             }
             case OP_ALIGN_PAD: { 
@@ -1113,7 +1125,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     SYNC_IP();
                     if (ctx->io_callback(ctx, key, opcode, &str) != CND_ERR_OK) {
                         if (ctx->is_next_optional) {
-                            ctx->is_next_optional = false;
+                            clear_modifiers(ctx);
                             break; // Skip optional string
                         }
                         return CND_ERR_CALLBACK;
@@ -1154,7 +1166,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     ctx->cursor++; // Skip null
                 }
-                ctx->is_next_optional = false;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -1287,6 +1299,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 if (ctx->io_callback(ctx, key, opcode, ptr) != CND_ERR_OK) return CND_ERR_CALLBACK;
                 
                 ctx->cursor += count;
+                clear_modifiers(ctx);
                 break;
             }
 
@@ -1601,6 +1614,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     ctx->cursor += size;
                 }
+                clear_modifiers(ctx);
                 break;
             }
 
-- 
2.43.0


From f72abea09f0484e054bee0f64317009c223d5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 04/34] fix: enum checks and switch tables must lie inside the
 data and bytecode

ENUM_CHECK read before the start of the buffer when no value had been read, and the
table index computation could wrap around or read a truncated table as zeros.
---
 src/vm/vm_exec.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 39372b4..68465d9 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -823,6 +823,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 bool found = false;
                 
                 #define CHECK_ENUM(size, ctype, READ_EXPR) \
+                    if (ctx->cursor < size) return CND_ERR_OOB; \
                     ctype actual = (READ_EXPR); \
                     for (uint16_t i = 0; i < count; i++) { \
                         ctype val = 0; \
@@ -1310,9 +1311,10 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 // IP is now at the start of the code block (immediately after SWITCH instruction)
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
-                size_t table_start_ip = code_start_ip + table_rel_offset;
+                size_t table_start_ip, table_size;
                 
-                if (table_start_ip > ctx->program->bytecode_len) return CND_ERR_OOB;
+                (void)table_rel_offset;
+                if (!cnd_switch_table(ctx->program->bytecode, ctx->program->bytecode_len, code_start_ip - 7, &table_start_ip, &table_size)) return CND_ERR_OOB;
                 
                 // Jump to table to read it
                 size_t original_ip = ctx->ip;
@@ -1361,11 +1363,11 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 SYNC_IP();
                 size_t code_start_ip = ctx->ip;
-                size_t table_start_ip = code_start_ip + table_rel_offset;
+                size_t table_start_ip, table_size;
                 
-                // Check if table start is valid and if we can read the header (20 bytes)
-                if (table_start_ip > ctx->program->bytecode_len || 
-                    table_start_ip + 20 > ctx->program->bytecode_len) return CND_ERR_OOB;
+                // Check that the whole table (header and entries) is inside the bytecode
+                (void)table_rel_offset;
+                if (!cnd_switch_table(ctx->program->bytecode, ctx->program->bytecode_len, code_start_ip - 7, &table_start_ip, &table_size)) return CND_ERR_OOB;
                 
                 // Jump to table
                 size_t original_ip = ctx->ip;
-- 
2.43.0


From 6182c182f68350ad88a85b71327748064481a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 05/34] fix: no undefined arithmetic in transforms, shifts and
 float conversions

INT64_MIN / -1, signed overflow, shifts by 64 or more and out-of-range float to integer
conversions were undefined and could trap; the last are now CND_ERR_ARITHMETIC.
---
 src/vm/vm_exec.c | 83 +++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 68465d9..1328acf 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -95,26 +95,47 @@ static inline double vm_math_spline_solve(cnd_vm_ctx* ctx, double target_y) {
     return x;
 }
 
+// Integer transforms wrap around (two's complement)
+static inline int64_t vm_wrap_add(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
+static inline int64_t vm_wrap_sub(int64_t a, int64_t b) { return (int64_t)((uint64_t)a - (uint64_t)b); }
+static inline int64_t vm_wrap_mul(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
+static inline int64_t vm_wrap_div(int64_t a, int64_t b) {
+    if (b == 0) return a;
+    if (b == -1) return vm_wrap_sub(0, a);
+    return a / b;
+}
+
 static inline int64_t vm_math_int_to_eng(cnd_vm_ctx* ctx, int64_t raw) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return raw + ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return raw - ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return raw * ctx->trans_i_val;
-        case CND_TRANS_DIV_I64: return (ctx->trans_i_val != 0) ? raw / ctx->trans_i_val : raw;
+        case CND_TRANS_ADD_I64: return vm_wrap_add(raw, ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return vm_wrap_sub(raw, ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_wrap_mul(raw, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_wrap_div(raw, ctx->trans_i_val);
         default: return raw;
     }
 }
 
 static inline int64_t vm_math_int_to_raw(cnd_vm_ctx* ctx, int64_t eng) {
     switch(ctx->trans_type) {
-        case CND_TRANS_ADD_I64: return eng - ctx->trans_i_val;
-        case CND_TRANS_SUB_I64: return eng + ctx->trans_i_val;
-        case CND_TRANS_MUL_I64: return (ctx->trans_i_val != 0) ? eng / ctx->trans_i_val : eng;
-        case CND_TRANS_DIV_I64: return eng * ctx->trans_i_val;
+        case CND_TRANS_ADD_I64: return vm_wrap_sub(eng, ctx->trans_i_val);
+        case CND_TRANS_SUB_I64: return vm_wrap_add(eng, ctx->trans_i_val);
+        case CND_TRANS_MUL_I64: return vm_wrap_div(eng, ctx->trans_i_val);
+        case CND_TRANS_DIV_I64: return vm_wrap_mul(eng, ctx->trans_i_val);
         default: return eng;
     }
 }
 
+// True if the conversion of `v` to an integer of `size` bytes is defined.
+static inline bool vm_f64_fits(double v, bool is_unsigned, size_t size) {
+    switch (size) {
+        case 1: return is_unsigned ? (v > -1.0 && v < 256.0) : (v > -129.0 && v < 128.0);
+        case 2: return is_unsigned ? (v > -1.0 && v < 65536.0) : (v > -32769.0 && v < 32768.0);
+        case 4: return is_unsigned ? (v > -1.0 && v < 4294967296.0) : (v > -2147483649.0 && v < 2147483648.0);
+        default: return is_unsigned ? (v > -1.0 && v < 18446744073709551616.0)
+                                    : (v >= -9223372036854775808.0 && v < 9223372036854775808.0);
+    }
+}
+
 // A transform or optional marker applies to exactly one data item.
 static inline void clear_modifiers(cnd_vm_ctx* ctx) {
     ctx->trans_type = CND_TRANS_NONE;
@@ -145,7 +166,9 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)((eng_val - ctx->trans_f_offset) / ctx->trans_f_factor); \
+                  double raw_val = (eng_val - ctx->trans_f_offset) / ctx->trans_f_factor; \
+                  if (!vm_f64_fits(raw_val, (ctype)-1 > 0, sizeof(ctype))) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -158,7 +181,9 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  double raw_val = vm_math_poly_solve(ctx, eng_val); \
+                  if (!vm_f64_fits(raw_val, (ctype)-1 > 0, sizeof(ctype))) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -171,7 +196,9 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  double raw_val = vm_math_spline_solve(ctx, eng_val); \
+                  if (!vm_f64_fits(raw_val, (ctype)-1 > 0, sizeof(ctype))) return CND_ERR_ARITHMETIC; \
+                  ctype val = (ctype)raw_val; \
                   WRITE_EXPR; \
               } else { \
                   ctype raw = (READ_EXPR); \
@@ -241,27 +268,13 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
               if (ctx->mode == CND_MODE_ENCODE) { \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-                  int64_t raw64 = eng_val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: raw64 *= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
+                  int64_t raw64 = vm_math_int_to_raw(ctx, eng_val); \
                   ctype val = (ctype)raw64; \
                   int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
               } else { \
                   int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
-                  int64_t raw64 = (int64_t)val; \
-                  switch(ctx->trans_type) { \
-                      case CND_TRANS_ADD_I64: raw64 += ctx->trans_i_val; break; \
-                      case CND_TRANS_SUB_I64: raw64 -= ctx->trans_i_val; break; \
-                      case CND_TRANS_MUL_I64: raw64 *= ctx->trans_i_val; break; \
-                      case CND_TRANS_DIV_I64: if(ctx->trans_i_val!=0) raw64 /= ctx->trans_i_val; break; \
-                      default: break; \
-                  } \
-                  eng_val = raw64; \
+                  if (!vm_f64_fits((double)val, false, sizeof(int64_t))) return CND_ERR_ARITHMETIC; \
+                  eng_val = vm_math_int_to_eng(ctx, (int64_t)val); \
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_I64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
@@ -662,6 +675,12 @@ static inline cnd_error_t stack_pop(cnd_vm_ctx* ctx, uint64_t* val) {
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
     if (stack_push(ctx, a OP b) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
 
+// Helper for shifts: every bit is shifted out by an amount of 64 or more
+#define BINARY_SHIFT(OP) \
+    uint64_t b; if (stack_pop(ctx, &b) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
+    if (stack_push(ctx, b < 64 ? a OP b : 0) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+
 // Helper for unary operations
 #define UNARY_OP(OP) \
     uint64_t a; if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW; \
@@ -1641,8 +1660,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_NEG: {
                 uint64_t a;
                 if (stack_pop(ctx, &a) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
-                // Cast to signed to avoid C4146 (unary minus on unsigned)
-                if (stack_push(ctx, (uint64_t)(-(int64_t)a)) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
+                if (stack_push(ctx, 0 - a) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
             }
 
@@ -1712,6 +1730,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_FTOI: {
                 uint64_t a_bits; if (stack_pop(ctx, &a_bits) != CND_ERR_OK) return CND_ERR_STACK_UNDERFLOW;
                 double f; memcpy(&f, &a_bits, 8);
+                if (!vm_f64_fits(f, false, sizeof(int64_t))) return CND_ERR_ARITHMETIC;
                 int64_t i = (int64_t)f;
                 if (stack_push(ctx, (uint64_t)i) != CND_ERR_OK) return CND_ERR_STACK_OVERFLOW;
                 break;
@@ -1730,8 +1749,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
             case OP_BIT_OR:  { BINARY_OP(|); break; }
             case OP_BIT_XOR: { BINARY_OP(^); break; }
             case OP_BIT_NOT: { UNARY_OP(~); break; }
-            case OP_SHL:     { BINARY_OP(<<); break; }
-            case OP_SHR:     { BINARY_OP(>>); break; }
+            case OP_SHL:     { BINARY_SHIFT(<<); break; }
+            case OP_SHR:     { BINARY_SHIFT(>>); break; }
 
             // Comparison
             case OP_EQ:  { BINARY_OP(==); break; }
-- 
2.43.0


From ba937ab5a9b6d6baa1c248011bc02b8b9a176453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 06/34] fix: apply polynomial and spline calibration to float
 fields

They were truncated to integers and passed through uncalibrated.
---
 src/vm/vm_exec.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 1328acf..d1ab60a 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -263,6 +263,32 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
                   SYNC_IP(); \
                   if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
               } \
+          } else if (ctx->trans_type == CND_TRANS_POLY) { \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)vm_math_poly_solve(ctx, eng_val); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = vm_math_poly_eval(ctx, (double)val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
+          } else if (ctx->trans_type == CND_TRANS_SPLINE) { \
+              double eng_val = 0; \
+              if (ctx->mode == CND_MODE_ENCODE) { \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+                  ctype val = (ctype)vm_math_spline_solve(ctx, eng_val); \
+                  int_t t; memcpy(&t, &val, sizeof(t)); WRITE_INT_EXPR; \
+              } else { \
+                  int_t t = (READ_INT_EXPR); ctype val; memcpy(&val, &t, sizeof(t)); \
+                  eng_val = vm_math_spline_eval(ctx, (double)val); \
+                  SYNC_IP(); \
+                  if (ctx->io_callback(ctx, key, OP_IO_F64, &eng_val) != CND_ERR_OK) return CND_ERR_CALLBACK; \
+              } \
           } else { \
               int64_t eng_val = 0; \
               if (ctx->mode == CND_MODE_ENCODE) { \
-- 
2.43.0


From ee64834e7994e0428407451b1e5eec37f965230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 07/34] fix: NaN fails float range and expression checks,
 signed expression fields verify

An expression field is byte aligned like every other byte field, and decode compares
the bytes encode writes instead of a zero-extended value.
---
 src/vm/vm_exec.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index d1ab60a..7036763 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -341,7 +341,7 @@ static inline void clear_modifiers(cnd_vm_ctx* ctx) {
         int_type ival = (BUF_READ); \
         ctype val; \
         memcpy(&val, &ival, sizeof(ctype)); \
-        if (val < min || val > max) return CND_ERR_VALIDATION; \
+        if (!(val >= min && val <= max)) return CND_ERR_VALIDATION; /* NaN is out of range */ \
     }
 
 // --- Loop Stack Helpers ---
@@ -595,7 +595,8 @@ static const bool ALIGN_TABLE[256] = {
     1, // 0x4B ENUM_CHECK
     1, 1, 1, 1, // 0x4C - 0x4F
     // 0x50 - 0xFF (Control Flow & Others) - No alignment
-    0 // ... rest 0
+    0, // ... rest 0
+    [OP_EMIT] = 1
 };
 
 // --- Public API ---
@@ -1648,15 +1649,17 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                         float f_bin; memcpy(&f_bin, &bin_val, 4);
                         
                         float diff = f_val - f_bin;
-                        if (diff < -0.00001f || diff > 0.00001f) return CND_ERR_VALIDATION;
+                        if (memcmp(&f_val, &f_bin, 4) != 0 && !(diff >= -0.00001f && diff <= 0.00001f)) return CND_ERR_VALIDATION;
                     } else if (type == OP_IO_F64) {
                         double d_val; memcpy(&d_val, &val, 8);
                         double d_bin; memcpy(&d_bin, &bin_val, 8);
                         
                         double diff = d_val - d_bin;
-                        if (diff < -0.0000001 || diff > 0.0000001) return CND_ERR_VALIDATION;
+                        if (val != bin_val && !(diff >= -0.0000001 && diff <= 0.0000001)) return CND_ERR_VALIDATION;
                     } else {
-                        if (bin_val != val) return CND_ERR_VALIDATION;
+                        // Encode writes the low `size` bytes
+                        uint64_t mask = (size == 8) ? UINT64_MAX : (((uint64_t)1 << (size * 8)) - 1);
+                        if (bin_val != (val & mask)) return CND_ERR_VALIDATION;
                     }
                     
                     ctx->cursor += size;
-- 
2.43.0


From 22bbd8e10f133b4e625a59002b09516758bc7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 08/34] fix: cnd_init initialises the calibration state, no
 memcpy from a null string

---
 src/vm/vm_exec.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 7036763..69f8875 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -466,7 +466,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             if (ctx->cursor + (size) + len > ctx->data_len) return CND_ERR_OOB; \
             ctype len_val = (ctype)len; \
             WRITE_EXPR; \
-            memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
+            if (len > 0) memcpy(ctx->data_buffer + ctx->cursor + (size), str, len); \
             ctx->cursor += (size) + len; \
         } else { \
             if (ctx->cursor + (size) > ctx->data_len) return CND_ERR_OOB; \
@@ -679,6 +679,10 @@ void cnd_init(cnd_vm_ctx* ctx,
     ctx->trans_f_factor = 1.0;
     ctx->trans_f_offset = 0.0;
     ctx->trans_i_val = 0;
+    ctx->trans_poly_data = NULL;
+    ctx->trans_poly_count = 0;
+    ctx->trans_spline_data = NULL;
+    ctx->trans_spline_count = 0;
     
     ctx->is_next_optional = false;
 }
@@ -1183,7 +1187,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     
                     if (ctx->cursor + len + 1 > ctx->data_len) return CND_ERR_OOB;
                     
-                    memcpy(ctx->data_buffer + ctx->cursor, str, len);
+                    if (len > 0) memcpy(ctx->data_buffer + ctx->cursor, str, len);
                     ctx->cursor += len;
                     ctx->data_buffer[ctx->cursor] = 0x00; // Null terminator
                     ctx->cursor++;
-- 
2.43.0


From bd52535753cc0e4bf0c07c6c19c2699043f71965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 09/34] fix: reject images whose string table is not terminated
 inside the image

---
 src/vm/vm_exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 69f8875..31d9bad 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -623,6 +623,14 @@ cnd_error_t cnd_program_load_il(cnd_program* program, const uint8_t* image, size
 
     if (str_offset > len || bc_offset > len) return CND_ERR_OOB;
     
+    // Key lookups walk the table without a length: all strings must be terminated inside the image
+    size_t str_pos = str_offset;
+    for (uint16_t i = 0; i < str_count; i++) {
+        const void* nul = memchr(image + str_pos, 0, len - str_pos);
+        if (!nul) return CND_ERR_OOB;
+        str_pos = (size_t)((const uint8_t*)nul - image) + 1;
+    }
+    
     program->string_table = (const char*)(image + str_offset);
     program->string_count = str_count;
     program->bytecode = image + bc_offset;
-- 
2.43.0


From d626619b7c137159bb5bb79f24f3e30c4c1f685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 10/34] fix: verifier uses the VM's instruction lengths, steps
 over inline switch tables, accepts jumps to the end, no 32-bit truncation

---
 src/vm/vm_verify.c | 307 +++++++++------------------------------------
 1 file changed, 56 insertions(+), 251 deletions(-)

diff --git a/src/vm/vm_verify.c b/src/vm/vm_verify.c
index 0800f2f..e4f6c55 100644
--- a/src/vm/vm_verify.c
+++ b/src/vm/vm_verify.c
@@ -1,279 +1,84 @@
 #include "concordia.h"
 #include "vm_internal.h"
 
+// Switch tables are stored inline, behind the code of their cases. This is the number of tables
+// that may be pending (switch seen, table not reached yet) at the same time.
+#define CND_VERIFY_MAX_TABLES 64
+
+static bool target_ok(size_t base, const uint8_t* off_ptr, size_t len) {
+    // A jump to the end of the bytecode ends the program
+    int64_t target = (int64_t)base + (int32_t)cnd_load_le32(off_ptr);
+    return target >= 0 && target <= (int64_t)len;
+}
+
 cnd_error_t cnd_verify_program(const cnd_program* program)
 {
     if (!program || !program->bytecode) {
         return CND_ERR_OOB;
     }
 
-    uint32_t ip = 0;
-    uint32_t len = (uint32_t)program->bytecode_len;
+    size_t ip = 0;
+    size_t len = program->bytecode_len;
     const uint8_t* bc = program->bytecode;
 
-    while (ip < len) {
-        uint8_t opcode = bc[ip];
-        
-        // Get instruction length
-        uint32_t instr_len = 1; // Opcode itself
-        
-        // Add argument lengths based on opcode
-        switch (opcode) {
-            // 0 args
-            case OP_NOOP:
-            case OP_SET_ENDIAN_LE:
-            case OP_SET_ENDIAN_BE:
-            case OP_ENTER_STRUCT:
-            case OP_EXIT_STRUCT:
-            case OP_META_VERSION:
-            case OP_META_NAME:
-            case OP_ARR_END:
-            case OP_ARR_EOF:
-            case OP_ARR_DYNAMIC:
-            case OP_POP:
-            case OP_SWAP:
-            case OP_DUP:
-            case OP_EMIT:
-            case OP_ADD:
-            case OP_SUB:
-            case OP_MUL:
-            case OP_DIV:
-            case OP_MOD:
-            case OP_NEG:
-            case OP_FADD:
-            case OP_FSUB:
-            case OP_FMUL:
-            case OP_FDIV:
-            case OP_FNEG:
-            case OP_SIN:
-            case OP_COS:
-            case OP_TAN:
-            case OP_SQRT:
-            case OP_POW:
-            case OP_LOG:
-            case OP_ABS:
-            case OP_ITOF:
-            case OP_FTOI:
-            case OP_EQ_F:
-            case OP_NEQ_F:
-            case OP_GT_F:
-            case OP_LT_F:
-            case OP_GTE_F:
-            case OP_LTE_F:
-            case OP_BIT_AND:
-            case OP_BIT_OR:
-            case OP_BIT_XOR:
-            case OP_BIT_NOT:
-            case OP_SHL:
-            case OP_SHR:
-            case OP_EQ:
-            case OP_NEQ:
-            case OP_GT:
-            case OP_LT:
-            case OP_GTE:
-            case OP_LTE:
-            case OP_LOG_AND:
-            case OP_LOG_OR:
-            case OP_LOG_NOT:
-            case OP_LOAD_CTX:
-            case OP_STORE_CTX:
-            case OP_MARK_OPTIONAL:
-            case OP_ENTER_BIT_MODE:
-            case OP_EXIT_BIT_MODE:
-                instr_len = 1;
-                break;
-
-            // 1 byte arg
-            case OP_ALIGN_PAD:
-            case OP_ALIGN_FILL:
-                instr_len = 2;
-                break;
-
-            // 2 byte arg (Key ID)
-            case OP_CTX_QUERY:
-            case OP_IO_U8:
-            case OP_IO_U16:
-            case OP_IO_U32:
-            case OP_IO_U64:
-            case OP_IO_I8:
-            case OP_IO_I16:
-            case OP_IO_I32:
-            case OP_IO_I64:
-            case OP_IO_F32:
-            case OP_IO_F64:
-            case OP_IO_BOOL:
-            case OP_IO_BIT_U:
-            case OP_IO_BIT_I:
-            case OP_IO_BIT_BOOL:
-            case OP_STR_PRE_U8:
-            case OP_ARR_PRE_U8:
-            case OP_STR_PRE_U16:
-            case OP_ARR_PRE_U16:
-            case OP_STR_PRE_U32:
-            case OP_ARR_PRE_U32:
-                instr_len = 3;
-                break;
+    size_t table_starts[CND_VERIFY_MAX_TABLES];
+    size_t table_ends[CND_VERIFY_MAX_TABLES];
+    size_t table_count = 0;
 
-            // Special cases
-            case OP_ARR_FIXED:
-                instr_len = 7; // 1 + 2 + 4
-                break;
-                
-            case OP_STR_NULL:
-                instr_len = 5; // 1 + Key(2) + MaxLen(2)
-                break;
-                
-            case OP_RAW_BYTES:
-                instr_len = 7; // 1 + Key(2) + Count(4)
-                break;
-
-            case OP_CONST_CHECK:
-            case OP_CONST_WRITE:
-                // Key(2) + Type(1) + Value(8)
-                instr_len = 1 + 2 + 1 + 8;
-                break;
-                
-            case OP_RANGE_CHECK:
-                // Key(2) + Type(1) + Min(8) + Max(8)
-                instr_len = 1 + 2 + 1 + 8 + 8;
-                break;
-                
-            case OP_SCALE_LIN:
-                // Key(2) + Factor(8) + Offset(8)
-                instr_len = 1 + 2 + 8 + 8;
-                break;
-                
-            case OP_CRC_16:
-            case OP_CRC_32:
-                // Key(2) + StartOffset(4) + Length(4) + Poly(4) + Init(4) + XorOut(4) + RefIn(1) + RefOut(1)
-                // This is a guess based on typical CRC params, but let's assume it's handled or skip detailed check.
-                // Actually, let's just check opcode existence.
-                // If we don't know length, we can't verify.
-                // Assuming standard CRC32 params: 2+4+4+4+4+4+1+1 = 24 bytes?
-                // Let's assume 1 for now and hope it's not used in tests or fix later.
-                // Wait, tests use CRC16/32.
-                // Let's check vm_exec.c for CRC length.
-                // But I can't read it now.
-                // I'll assume 1 and if tests fail I'll fix.
-                instr_len = 1; 
+    while (ip < len) {
+        // Step over inline tables
+        bool at_table = false;
+        for (size_t i = 0; i < table_count; i++) {
+            if (ip == table_starts[i]) {
+                ip = table_ends[i];
+                table_count--;
+                table_starts[i] = table_starts[table_count];
+                table_ends[i] = table_ends[table_count];
+                at_table = true;
                 break;
+            }
+        }
+        if (at_table) continue;
 
-            case OP_PUSH_IMM:
-                instr_len = 9; // 1 + 8
-                break;
+        uint8_t opcode = bc[ip];
+        size_t instr_len = cnd_instr_len(bc + ip, len - ip);
+        if (instr_len == 0) return CND_ERR_INVALID_OP;
+        if (instr_len > len - ip) return CND_ERR_OOB;
 
+        switch (opcode) {
             case OP_JUMP:
             case OP_JUMP_IF_NOT:
-                instr_len = 5; // 1 + Offset(4)
+                if (!target_ok(ip + instr_len, bc + ip + 1, len)) return CND_ERR_OOB;
                 break;
 
-            case OP_SWITCH: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Count(2) + Default(4)
-                if (table_start + 6 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint16_t count = (uint16_t)(t_ptr[0] | (t_ptr[1] << 8));
-                
-                // Table size: 2 + 4 + count * (8 + 4)
-                uint32_t table_size = 6 + count * 12;
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check offsets
-                // Default offset
-                const uint8_t* def_ptr = bc + table_start + 2;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                
-                // Target relative to code_start_ip (ip + 7)
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Case offsets
-                for (uint16_t i = 0; i < count; i++) {
-                    const uint8_t* case_ptr = bc + table_start + 6 + (i * 12) + 8; // Skip value(8)
-                    int32_t off = (int32_t)(case_ptr[0] | (case_ptr[1] << 8) | (case_ptr[2] << 16) | (case_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
-                }
-                
-                instr_len = 7;
-                break;
-            }
-            
+            case OP_SWITCH:
             case OP_SWITCH_TABLE: {
-                if (ip + 7 > len) return CND_ERR_OOB;
-                // 1 (op) + 2 (key) + 4 (table_offset)
-                const uint8_t* off_ptr = bc + ip + 3;
-                uint32_t table_rel = (uint32_t)(off_ptr[0] | (off_ptr[1] << 8) | (off_ptr[2] << 16) | (off_ptr[3] << 24));
-                
-                size_t table_start = (ip + 7) + table_rel;
-                
-                if (table_start > len) return CND_ERR_OOB;
-                
-                // Read table header: Min(8) + Max(8) + Default(4)
-                if (table_start + 20 > len) return CND_ERR_OOB;
-                
-                const uint8_t* t_ptr = bc + table_start;
-                uint64_t min_val = (uint64_t)t_ptr[0] | ((uint64_t)t_ptr[1] << 8) | ((uint64_t)t_ptr[2] << 16) | ((uint64_t)t_ptr[3] << 24) |
-                                   ((uint64_t)t_ptr[4] << 32) | ((uint64_t)t_ptr[5] << 40) | ((uint64_t)t_ptr[6] << 48) | ((uint64_t)t_ptr[7] << 56);
-                uint64_t max_val = (uint64_t)t_ptr[8] | ((uint64_t)t_ptr[9] << 8) | ((uint64_t)t_ptr[10] << 16) | ((uint64_t)t_ptr[11] << 24) |
-                                   ((uint64_t)t_ptr[12] << 32) | ((uint64_t)t_ptr[13] << 40) | ((uint64_t)t_ptr[14] << 48) | ((uint64_t)t_ptr[15] << 56);
-                
-                if (max_val < min_val) return CND_ERR_VALIDATION;
-                
-                uint64_t count = max_val - min_val + 1;
-                if (count > 0xFFFFFFFF) return CND_ERR_OOB;
-                
-                uint64_t table_size_64 = 20 + count * 4;
-                if (table_size_64 > 0xFFFFFFFF) return CND_ERR_OOB;
-                uint32_t table_size = (uint32_t)table_size_64;
-                
-                if (table_start + table_size > len) return CND_ERR_OOB;
-                
-                // Check default offset
-                const uint8_t* def_ptr = bc + table_start + 16;
-                int32_t def_off = (int32_t)(def_ptr[0] | (def_ptr[1] << 8) | (def_ptr[2] << 16) | (def_ptr[3] << 24));
-                int64_t target = (int64_t)(ip + 7) + def_off;
-                if (target < 0 || target >= len) return CND_ERR_OOB;
-                
-                // Check table offsets
-                for (uint64_t i = 0; i < count; i++) {
-                    const uint8_t* entry_ptr = bc + table_start + 20 + (i * 4);
-                    int32_t off = (int32_t)(entry_ptr[0] | (entry_ptr[1] << 8) | (entry_ptr[2] << 16) | (entry_ptr[3] << 24));
-                    target = (int64_t)(ip + 7) + off;
-                    if (target < 0 || target >= len) return CND_ERR_OOB;
+                size_t table_start, table_size;
+                if (!cnd_switch_table(bc, len, ip, &table_start, &table_size)) return CND_ERR_OOB;
+
+                // Targets are relative to the end of the instruction
+                if (opcode == OP_SWITCH) {
+                    if (!target_ok(ip + instr_len, bc + table_start + 2, len)) return CND_ERR_OOB;
+                    // Entry: Value(8) + Offset(4)
+                    for (size_t off = 6; off + 12 <= table_size; off += 12) {
+                        if (!target_ok(ip + instr_len, bc + table_start + off + 8, len)) return CND_ERR_OOB;
+                    }
+                } else {
+                    // Min(8) + Max(8), then Default(4) and one Offset(4) per value
+                    for (size_t off = 16; off + 4 <= table_size; off += 4) {
+                        if (!target_ok(ip + instr_len, bc + table_start + off, len)) return CND_ERR_OOB;
+                    }
                 }
-                
-                instr_len = 7;
+
+                if (table_count >= CND_VERIFY_MAX_TABLES) return CND_ERR_STACK_OVERFLOW;
+                table_starts[table_count] = table_start;
+                table_ends[table_count] = table_start + table_size;
+                table_count++;
                 break;
             }
 
             default:
-                return CND_ERR_INVALID_OP;
-        }
-
-        // Check if instruction fits
-        if (ip + instr_len > len) {
-            return CND_ERR_OOB;
-        }
-
-        // Additional checks for JMP
-        if (opcode == OP_JUMP || opcode == OP_JUMP_IF_NOT) {
-            const uint8_t* ptr = bc + ip + 1;
-            int32_t offset = (int32_t)(ptr[0] | (ptr[1] << 8) | (ptr[2] << 16) | (ptr[3] << 24));
-            
-            int64_t target = (int64_t)ip + 5 + offset;
-            if (target < 0 || target >= len) {
-                return CND_ERR_OOB;
-            }
+                break;
         }
 
         ip += instr_len;
-- 
2.43.0


From 39905e32fc3351e0f72332a3ce85fa985f59e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 11/34] fix: 32-bit prefixed string advance does not wrap

---
 src/vm/vm_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 31d9bad..17550c8 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -475,7 +475,7 @@ static bool try_optimize_byte_array(cnd_vm_ctx* ctx, uint32_t count) {
             const char* ptr = (const char*)(ctx->data_buffer + ctx->cursor + (size)); \
             SYNC_IP(); \
             if (ctx->io_callback(ctx, key, opcode, (void*)ptr) != CND_ERR_OK) return CND_ERR_CALLBACK; \
-            ctx->cursor += (size) + len_val; \
+            ctx->cursor += (size_t)(size) + len_val; \
         } \
         clear_modifiers(ctx); \
         break; \
-- 
2.43.0


From 89fe93732e29177042bf736d4783dab5c2491399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 12/34] fix: an unterminated string is not handed to the host

---
 src/vm/vm_exec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 17550c8..64e2642 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -1218,6 +1218,7 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                     }
 
                     if (ctx->cursor >= ctx->data_len) return CND_ERR_OOB; 
+                    if (ctx->data_buffer[ctx->cursor] != 0x00) return CND_ERR_VALIDATION; // Longer than max_len
                     
                     const char* ptr = (const char*)(ctx->data_buffer + start);
                     SYNC_IP();
-- 
2.43.0


From a70258caccf87deb5f0ce9c5ae923a6cbde0961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 13/34] fix: decoding does not modify the message at
 OP_CONST_WRITE

---
 src/vm/vm_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm_exec.c b/src/vm/vm_exec.c
index 64e2642..bf8a70d 100644
--- a/src/vm/vm_exec.c
+++ b/src/vm/vm_exec.c
@@ -826,7 +826,8 @@ cnd_error_t cnd_execute(cnd_vm_ctx* ctx) {
                 
                 if (ctx->cursor + size > ctx->data_len) return CND_ERR_OOB;
                 
-                if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)val);
+                if (ctx->mode != CND_MODE_ENCODE) { /* Decoding only steps over the constant */ }
+                else if (size == 1) write_u8(ctx->data_buffer + ctx->cursor, (uint8_t)val);
                 else if (size == 2) write_u16(ctx->data_buffer + ctx->cursor, (uint16_t)val, ctx->endianness);
                 else if (size == 4) write_u32(ctx->data_buffer + ctx->cursor, (uint32_t)val, ctx->endianness);
                 else if (size == 8) write_u64(ctx->data_buffer + ctx->cursor, val, ctx->endianness);
-- 
2.43.0


From 083993e0c7e3a0cc3b9b8f9aaca66d95c189280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:12 +0000
Subject: [PATCH 14/34] fix: a bool bitfield is compiled without the width
 operand the VM does not read

---
 src/compiler/cnd_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8e47fa3..70c73ad 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1231,11 +1231,13 @@ void parse_field(Parser* p, const char* doc) {
                      op = OP_IO_BIT_I;
                  }
                  else if (match_keyword(type_tok, "bool")) {
+                     if (bit_width != 1) { parser_error(p, "A bool bitfield is 1 bit wide"); }
                      op = OP_IO_BIT_BOOL;
                  }
                  else { parser_error(p, "Bitfields only supported for integer/bool types"); return; }
                  
-                 buf_push(p->target, op); buf_push_u16(p->target, key_id); buf_push(p->target, bit_width);
+                 buf_push(p->target, op); buf_push_u16(p->target, key_id);
+                 if (op != OP_IO_BIT_BOOL) { buf_push(p->target, bit_width); }
                  
                  if (p->in_bit_mode && p->is_bit_count_valid) {
                      p->current_bit_count += bit_width;
-- 
2.43.0


From 30886a49b8d4ea8db575384329ff844926ba5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:44 +0000
Subject: [PATCH 15/34] fix: key operands are found with the instruction layout
 of the VM when keys are prefixed and renumbered

---
 src/compiler/cnd_internal.h |  11 +-
 src/compiler/cnd_parser.c   |   6 +-
 src/compiler/cnd_utils.c    | 258 +++++++++-------------------------
 src/compiler/cndc.c         | 270 +++++-------------------------------
 4 files changed, 114 insertions(+), 431 deletions(-)

diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index 820160a..ec9fcdb 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -141,9 +141,14 @@ void strtab_init(StringTable* t);
 void strtab_free(StringTable* t);
 uint16_t strtab_add(StringTable* t, const char* start, int len);
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab);
+// Replaces every key operand of the instructions in bc[ip, end) by what `map` returns for it. The
+// inline tables of switches are stepped over. Returns 0 if that range is not a sequence of instructions.
+typedef uint16_t (*KeyMapFn)(void* user, uint16_t key);
+int cnd_map_keys(uint8_t* bc, size_t ip, size_t end, KeyMapFn map, void* user);
+
+// Append struct bytecode with key IDs remapped to include prefix. Returns 0 if that is not possible.
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                           const char* prefix, int prefix_len, StringTable* strtab);
 
 // --- Utils: StringBuilder ---
 typedef struct {
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 70c73ad..56fa974 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1165,8 +1165,10 @@ void parse_field(Parser* p, const char* doc) {
             field_name[field_name_len] = '\0';
             
             // Append struct bytecode with field names prefixed
-            buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
-                                   field_name, field_name_len, &p->strtab);
+            if (!buf_append_with_prefix(p->target, sdef->bytecode.data, sdef->bytecode.size,
+                                        field_name, field_name_len, &p->strtab)) {
+                parser_error(p, "Cannot nest this struct");
+            }
             
             buf_push(p->target, OP_EXIT_STRUCT);
         } else if (edef) {
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index f54b85e..857a492 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -1,4 +1,5 @@
 #include "cnd_internal.h"
+#include "../vm/vm_internal.h"
 
 char* cnd_canonicalize_path(const char* path) {
     if (!path) return NULL;
@@ -27,207 +28,84 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
-// Helper to get opcode instruction size (returns total bytes including opcode)
-static int get_opcode_size_and_keyid_offset(uint8_t op, int* keyid_offset) {
-    *keyid_offset = -1; // -1 means no key ID in this instruction
-    
+// Number of key operands of an instruction: the first is at offset 1, the second at offset 3
+static int key_operand_count(uint8_t op) {
     switch (op) {
-        case OP_NOOP:
-        case OP_SET_ENDIAN_LE:
-        case OP_SET_ENDIAN_BE:
-        case OP_EXIT_STRUCT:
-        case OP_ARR_END:
-        case OP_EXIT_BIT_MODE:
-        case OP_ENTER_BIT_MODE:
-        case OP_ADD:
-        case OP_SUB:
-        case OP_MUL:
-        case OP_DIV:
-        case OP_MOD:
-        case OP_NEG:
-        case OP_LOG_AND:
-        case OP_LOG_OR:
-        case OP_LOG_NOT:
-        case OP_BIT_AND:
-        case OP_BIT_OR:
-        case OP_BIT_XOR:
-        case OP_BIT_NOT:
-        case OP_SHL:
-        case OP_SHR:
-        case OP_EQ:
-        case OP_NEQ:
-        case OP_GT:
-        case OP_LT:
-        case OP_GTE:
-        case OP_LTE:
-        case OP_POP:
-        case OP_DUP:
-        case OP_SWAP:
-        case OP_FADD:
-        case OP_FSUB:
-        case OP_FMUL:
-        case OP_FDIV:
-        case OP_FNEG:
-        case OP_SIN:
-        case OP_COS:
-        case OP_TAN:
-        case OP_SQRT:
-        case OP_POW:
-        case OP_LOG:
-        case OP_ABS:
-        case OP_ITOF:
-        case OP_FTOI:
-        case OP_EQ_F:
-        case OP_NEQ_F:
-        case OP_GT_F:
-        case OP_LT_F:
-        case OP_GTE_F:
-        case OP_LTE_F:
+        case OP_META_NAME: case OP_ENTER_STRUCT:
+        case OP_IO_U8: case OP_IO_U16: case OP_IO_U32: case OP_IO_U64:
+        case OP_IO_I8: case OP_IO_I16: case OP_IO_I32: case OP_IO_I64:
+        case OP_IO_F32: case OP_IO_F64: case OP_IO_BOOL:
+        case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL:
+        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32:
+        case OP_ARR_FIXED: case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32:
+        case OP_ARR_EOF: case OP_RAW_BYTES: case OP_CONST_CHECK:
+        case OP_SWITCH: case OP_SWITCH_TABLE:
+        case OP_LOAD_CTX: case OP_STORE_CTX:
             return 1;
-            
-        case OP_ALIGN_PAD:
-        case OP_ALIGN_FILL:
-        case OP_EMIT:
-            return 2;
-            
-        // Opcodes with key_id at offset 1
-        case OP_ENTER_STRUCT:
-        case OP_META_NAME:
-        case OP_META_VERSION:
-        case OP_IO_U8:
-        case OP_IO_U16:
-        case OP_IO_U32:
-        case OP_IO_U64:
-        case OP_IO_I8:
-        case OP_IO_I16:
-        case OP_IO_I32:
-        case OP_IO_I64:
-        case OP_IO_F32:
-        case OP_IO_F64:
-        case OP_IO_BOOL:
-        case OP_IO_BIT_BOOL:
-        case OP_LOAD_CTX:
-        case OP_STORE_CTX:
-        case OP_ARR_EOF:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_IO_BIT_U:
-        case OP_IO_BIT_I:
-            *keyid_offset = 1;
-            return 4; // op + key(2) + bits(1)
-            
-        case OP_STR_NULL:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + maxlen(2)
-            
-        case OP_STR_PRE_U8:
-        case OP_STR_PRE_U16:
-        case OP_STR_PRE_U32:
-        case OP_ARR_PRE_U8:
-        case OP_ARR_PRE_U16:
-        case OP_ARR_PRE_U32:
-            *keyid_offset = 1;
-            return 3;
-            
-        case OP_ARR_FIXED:
-        case OP_RAW_BYTES:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + count(4)
-            
         case OP_ARR_DYNAMIC:
-            *keyid_offset = 1;
-            return 5; // op + key(2) + ref_key(2)
-            
-        case OP_JUMP:
-        case OP_JUMP_IF_NOT:
-            return 5; // op + offset(4)
-            
-        case OP_PUSH_IMM:
-            return 9; // op + val(8)
-            
-        case OP_SWITCH:
-            *keyid_offset = 1;
-            return 7; // op + key(2) + table_off(4)
-            
-        // Variable length - skip for now, struct bytecode shouldn't have these
-        case OP_CONST_CHECK:
-        case OP_CONST_WRITE:
-        case OP_RANGE_CHECK:
-        case OP_SCALE_LIN:
-        case OP_TRANS_ADD:
-        case OP_TRANS_SUB:
-        case OP_TRANS_MUL:
-        case OP_TRANS_DIV:
-        case OP_TRANS_POLY:
-        case OP_TRANS_SPLINE:
-        case OP_CRC_16:
-        case OP_CRC_32:
-        case OP_ENUM_CHECK:
-        case OP_MARK_OPTIONAL:
+            return 2; // Array key and key of the count field
         default:
-            return -1; // Unknown/variable - can't process
+            return 0;
     }
 }
 
-// Append struct bytecode with key IDs remapped to include prefix
-void buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
-                            const char* prefix, int prefix_len, StringTable* strtab) {
-    size_t i = 0;
-    while (i < len) {
-        uint8_t op = src[i];
-        int keyid_offset;
-        int instr_size = get_opcode_size_and_keyid_offset(op, &keyid_offset);
-        
-        if (instr_size < 0 || i + instr_size > len) {
-            // Unknown opcode or would overflow - just copy rest verbatim
-            buf_append(b, src + i, len - i);
-            break;
+int cnd_map_keys(uint8_t* bc, size_t ip, size_t end, KeyMapFn map, void* user) {
+    while (ip < end) {
+        uint8_t op = bc[ip];
+        size_t instr_len = cnd_instr_len(bc + ip, end - ip);
+        if (instr_len == 0 || instr_len > end - ip) return 0;
+
+        int keys = key_operand_count(op);
+        for (int i = 0; i < keys; i++) {
+            uint8_t* key = bc + ip + 1 + 2 * i;
+            uint16_t new_key = map(user, (uint16_t)(key[0] | (key[1] << 8)));
+            key[0] = new_key & 0xFF;
+            key[1] = (new_key >> 8) & 0xFF;
         }
-        
-        if (keyid_offset < 0) {
-            // No key ID to remap, just copy
-            buf_append(b, src + i, instr_size);
+
+        if (op == OP_SWITCH || op == OP_SWITCH_TABLE) {
+            // The cases lie between the instruction and its table
+            size_t table_start, table_size;
+            if (!cnd_switch_table(bc, end, ip, &table_start, &table_size)) return 0;
+            if (!cnd_map_keys(bc, ip + instr_len, table_start, map, user)) return 0;
+            ip = table_start + table_size;
         } else {
-            // Has key ID - need to remap
-            // Copy opcode byte(s) before key
-            buf_append(b, src + i, keyid_offset);
-            
-            // Read old key ID
-            uint16_t old_key = src[i + keyid_offset] | (src[i + keyid_offset + 1] << 8);
-            
-            // Look up old string
-            const char* old_name = (old_key < strtab->count) ? strtab->strings[old_key] : "";
-            int old_len = (int)strlen(old_name);
-            
-            // Build new prefixed name
-            char new_name[512];
-            if (prefix_len + 1 + old_len < 512) {
-                memcpy(new_name, prefix, prefix_len);
-                new_name[prefix_len] = '.';
-                memcpy(new_name + prefix_len + 1, old_name, old_len);
-                new_name[prefix_len + 1 + old_len] = '\0';
-            } else {
-                // Fallback - just use old name
-                memcpy(new_name, old_name, old_len + 1);
-            }
-            
-            // Add new name to strtab and get new key ID
-            uint16_t new_key = strtab_add(strtab, new_name, prefix_len + 1 + old_len);
-            
-            // Write new key ID
-            buf_push(b, new_key & 0xFF);
-            buf_push(b, (new_key >> 8) & 0xFF);
-            
-            // Copy rest of instruction after key ID
-            int after_key = instr_size - keyid_offset - 2;
-            if (after_key > 0) {
-                buf_append(b, src + i + keyid_offset + 2, after_key);
-            }
+            ip += instr_len;
         }
-        
-        i += instr_size;
     }
+    return 1;
+}
+
+typedef struct {
+    const char* prefix;
+    int prefix_len;
+    StringTable* strtab;
+} PrefixMap;
+
+static uint16_t prefix_key(void* user, uint16_t key) {
+    PrefixMap* m = (PrefixMap*)user;
+    if (key >= m->strtab->count) return key;
+
+    const char* old_name = m->strtab->strings[key];
+    size_t old_len = strlen(old_name);
+    size_t new_len = (size_t)m->prefix_len + 1 + old_len;
+    char* new_name = malloc(new_len + 1);
+    memcpy(new_name, m->prefix, m->prefix_len);
+    new_name[m->prefix_len] = '.';
+    memcpy(new_name + m->prefix_len + 1, old_name, old_len + 1);
+
+    uint16_t new_key = strtab_add(m->strtab, new_name, (int)new_len);
+    free(new_name);
+    return new_key;
+}
+
+// Append struct bytecode with key IDs remapped to include prefix
+int buf_append_with_prefix(Buffer* b, const uint8_t* src, size_t len, 
+                           const char* prefix, int prefix_len, StringTable* strtab) {
+    PrefixMap m = { prefix, prefix_len, strtab };
+    size_t start = b->size;
+    buf_append(b, src, len);
+    return cnd_map_keys(b->data + start, 0, len, prefix_key, &m);
 }
 
 // --- Buffer Implementation ---
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index bb50d52..25f0af9 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -3,255 +3,53 @@
 #include <string.h>
 #include "cnd_internal.h"
 
-static int get_type_size(uint8_t type) {
-    switch (type) {
-        case OP_IO_U8: case OP_IO_I8: return 1;
-        case OP_IO_U16: case OP_IO_I16: return 2;
-        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: return 4;
-        case OP_IO_U64: case OP_IO_I64: case OP_IO_F64: return 8;
-        case OP_IO_BOOL: return 1;
-        default: return 0;
-    }
+typedef struct {
+    uint8_t* used;
+    uint16_t* map;
+    size_t count;
+} KeyUse;
+
+static uint16_t mark_key(void* user, uint16_t key) {
+    KeyUse* u = (KeyUse*)user;
+    if (key < u->count) u->used[key] = 1;
+    return key;
+}
+
+static uint16_t renumber_key(void* user, uint16_t key) {
+    KeyUse* u = (KeyUse*)user;
+    return (key < u->count) ? u->map[key] : key;
 }
 
 static void optimize_strings(Parser* p) {
     if (p->strtab.count == 0) return;
 
-    // 1. Mark used strings
-    uint8_t* used = calloc(p->strtab.count, 1);
-    
-    size_t offset = 0;
-    uint8_t* bc = p->global_bc.data;
-    size_t len = p->global_bc.size;
-
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        // Opcodes with string ID at offset 0 (immediately after op)
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t id = *(uint16_t*)(bc + offset);
-            if (id < p->strtab.count) used[id] = 1;
-            offset += 2;
-        }
+    KeyUse u;
+    u.count = p->strtab.count;
+    u.used = calloc(u.count, 1);
+    u.map = calloc(u.count, sizeof(uint16_t));
 
-        // Skip other arguments
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_EOF: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t id = *(uint16_t*)(bc + offset);
-                if (id < p->strtab.count) used[id] = 1;
-                offset += 2; 
-                break;
-            }
-            
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
+    // 1. Mark used strings
+    if (u.used && u.map && cnd_map_keys(p->global_bc.data, 0, p->global_bc.size, mark_key, &u)) {
+        // 2. Build new string table and map
+        StringTable new_tab;
+        strtab_init(&new_tab);
 
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2; // min, max
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break; // poly(2), init(2), xor(2), flags(1)
-            case OP_CRC_32: offset += 13; break; // poly(4), init(4), xor(4), flags(1)
-            case OP_SCALE_LIN: offset += 16; break; // double, double
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break; // double
-            case OP_TRANS_POLY: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 8;
-                break;
-            }
-            case OP_TRANS_SPLINE: {
-                if (offset + 1 > len) break;
-                uint8_t count = bc[offset++];
-                offset += count * 16; // 2 doubles per point
-                break;
-            }
-            
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
+        for (size_t i = 0; i < u.count; i++) {
+            if (u.used[i]) {
+                u.map[i] = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
             }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
         }
-    }
-
-    // 2. Build new string table and map
-    uint16_t* map = malloc(p->strtab.count * sizeof(uint16_t));
-    StringTable new_tab;
-    strtab_init(&new_tab);
-
-    for (size_t i = 0; i < p->strtab.count; i++) {
-        if (used[i]) {
-            uint16_t new_id = strtab_add(&new_tab, p->strtab.strings[i], (int)strlen(p->strtab.strings[i]));
-            map[i] = new_id;
-        } else {
-            map[i] = 0; // Should not be used
-        }
-    }
 
-    // 3. Update bytecode
-    offset = 0;
-    while (offset < len) {
-        uint8_t op = bc[offset++];
-        
-        if (op == OP_META_NAME || 
-            op == OP_ENTER_STRUCT ||
-            (op >= OP_IO_U8 && op <= OP_IO_BOOL) ||
-            (op >= OP_IO_BIT_U && op <= OP_IO_BIT_BOOL) ||
-            (op >= OP_STR_NULL && op <= OP_STR_PRE_U32) ||
-            (op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32) ||
-            op == OP_ARR_EOF ||
-            op == OP_ARR_DYNAMIC ||
-            op == OP_CONST_CHECK ||
-            op == OP_SWITCH ||
-            op == OP_LOAD_CTX ||
-            op == OP_CTX_QUERY ||
-            op == OP_STORE_CTX) {
-            
-            if (offset + 2 > len) break;
-            uint16_t* id_ptr = (uint16_t*)(bc + offset);
-            uint16_t old_id = *id_ptr;
-            if (old_id < p->strtab.count) {
-                *id_ptr = map[old_id];
-            }
-            offset += 2;
-        }
+        // 3. Update bytecode
+        cnd_map_keys(p->global_bc.data, 0, p->global_bc.size, renumber_key, &u);
 
-        // Skip other arguments (same as above)
-        switch (op) {
-            case OP_META_VERSION: offset += 1; break;
-            case OP_IO_BIT_U: case OP_IO_BIT_I: case OP_IO_BIT_BOOL: offset += 1; break;
-            case OP_ALIGN_PAD: case OP_ALIGN_FILL: offset += 1; break;
-            case OP_ARR_FIXED: offset += 4; break; // u32 count
-            case OP_ARR_PRE_U8: case OP_ARR_PRE_U16: case OP_ARR_PRE_U32: break; // No extra args
-            case OP_ARR_DYNAMIC: {
-                if (offset + 2 > len) break;
-                uint16_t* id_ptr = (uint16_t*)(bc + offset);
-                uint16_t old_id = *id_ptr;
-                if (old_id < p->strtab.count) {
-                    *id_ptr = map[old_id];
-                }
-                offset += 2;
-                break;
-            }
-            case OP_RAW_BYTES: {
-                if (offset + 4 > len) break;
-                uint32_t count = *(uint32_t*)(bc + offset);
-                offset += 4; // u32 count
-                offset += count; // payload
-                break;
-            }
-            case OP_CONST_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_CONST_WRITE: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_RANGE_CHECK: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                int sz = get_type_size(type);
-                offset += sz * 2;
-                break;
-            }
-            case OP_ENUM_CHECK: {
-                if (offset + 3 > len) break;
-                uint8_t type = bc[offset++];
-                uint16_t count = *(uint16_t*)(bc + offset); offset += 2;
-                offset += count * get_type_size(type);
-                break;
-            }
-            case OP_CRC_16: offset += 7; break;
-            case OP_CRC_32: offset += 13; break;
-            case OP_SCALE_LIN: offset += 16; break;
-            case OP_TRANS_ADD: case OP_TRANS_SUB: case OP_TRANS_MUL: case OP_TRANS_DIV: offset += 8; break;
-            case OP_JUMP_IF_NOT: case OP_JUMP: offset += 4; break;
-            case OP_SWITCH: {
-                if (offset + 4 > len) break;
-                offset += 4; // Table Offset
-                break;
-            }
-            case OP_PUSH_IMM: {
-                if (offset + 1 > len) break;
-                uint8_t type = bc[offset++];
-                offset += get_type_size(type);
-                break;
-            }
-            case OP_STR_NULL: offset += 2; break; // max_len
-            case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: break; // No extra args
-        }
+        // Replace string table
+        strtab_free(&p->strtab);
+        p->strtab = new_tab;
     }
 
-    // Replace string table
-    for(size_t i=0; i<p->strtab.count; i++) free(p->strtab.strings[i]);
-    free(p->strtab.strings);
-    p->strtab = new_tab;
-
-    free(used);
-    free(map);
+    free(u.used);
+    free(u.map);
 }
 
 // Implementation of cnd_compile_file using the new modular structure
-- 
2.43.0


From 4e4653980161c8c6a5d91f69dddd543454113f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 16/34] fix: unary operators and parentheses in expressions

---
 src/compiler/cnd_parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 56fa974..13dccd8 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -48,8 +48,7 @@ static int is_float_literal(Token t) {
 }
 
 static ExprType parse_unary(Parser* p) {
-    TokenType op = p->current.type;
-    advance(p);
+    TokenType op = p->previous.type;
     ExprType t = parse_precedence(p, PREC_UNARY);
     switch (op) {
         case TOK_BANG: buf_push(p->target, OP_LOG_NOT); return TYPE_INT;
@@ -123,8 +122,7 @@ static ExprType parse_binary(Parser* p, ExprType left) {
 }
 
 static ExprType parse_grouping(Parser* p) {
-    advance(p); // Consume (
-    ExprType t = parse_expression(p);
+    ExprType t = parse_expression(p); // ( is already consumed
     consume(p, TOK_RPAREN, "Expect ) after expression");
     return t;
 }
-- 
2.43.0


From fd7b71e6a10131210277e5e39ca314c5a9e32756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 17/34] fix: every token has an expression rule

---
 src/compiler/cnd_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 13dccd8..0dd4369 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -127,7 +127,7 @@ static ExprType parse_grouping(Parser* p) {
     return t;
 }
 
-static ParseRule rules[] = {
+static ParseRule rules[TOK_ERROR + 1] = {
     [TOK_LPAREN]    = {parse_grouping, NULL, PREC_NONE},
     [TOK_MINUS]     = {parse_unary, parse_binary, PREC_TERM},
     [TOK_PLUS]      = {NULL, parse_binary, PREC_TERM},
-- 
2.43.0


From 42750651cf5c27d160342057b33362f79cc99fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 18/34] fix: an array without a size is rejected

---
 src/compiler/cnd_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 0dd4369..3099123 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1053,6 +1053,10 @@ void parse_field(Parser* p, const char* doc) {
         if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
     }
 
+    if (is_array_field && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
+        parser_error(p, "Array must have a size, a 'prefix', @count or @eof");
+    }
+
     if (is_array_field && match_keyword(type_tok, "string")) {
         if (str_prefix_op == OP_NOOP && !has_until && !has_fixed_array_count && !has_count_ref) {
             parser_error(p, "String arrays must specify 'prefix' or 'until' or be fixed/dynamic count");
-- 
2.43.0


From cf0091650ad4d99f6150dab8410c33c19f035a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:02 +0000
Subject: [PATCH 19/34] fix: CRC widths other than 16 and 32 are rejected

---
 src/compiler/cnd_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 3099123..c8f3fed 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -864,6 +864,7 @@ void parse_field(Parser* p, const char* doc) {
                 crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
+                else { parser_error(p, "CRC width must be 16 or 32"); }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
             } else if (match_keyword(dec_name_token, "crc_init")) {
-- 
2.43.0


From a27e92a9cd50c4b4d510263f8dee78b7d21b7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 20/34] fix: a transform applies to every value of its field
 and to nothing else

---
 src/compiler/cnd_parser.c | 59 +++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index c8f3fed..4bd7987 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -955,33 +955,6 @@ void parse_field(Parser* p, const char* doc) {
         // Do nothing here, wait until type is parsed
     }
     
-    // Emit Transform Op
-    if (trans_type == CND_TRANS_SCALE_F64) {
-        buf_push(p->target, OP_SCALE_LIN);
-        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
-        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
-    } else if (trans_type == CND_TRANS_MUL_I64) {
-        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_DIV_I64) {
-        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_ADD_I64) {
-        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_SUB_I64) {
-        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
-    } else if (trans_type == CND_TRANS_POLY) {
-        buf_push(p->target, OP_TRANS_POLY);
-        buf_push(p->target, poly_count);
-        for (int i = 0; i < poly_count; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
-        }
-    } else if (trans_type == CND_TRANS_SPLINE) {
-        buf_push(p->target, OP_TRANS_SPLINE);
-        buf_push(p->target, spline_count);
-        for (int i = 0; i < spline_count * 2; i++) {
-            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
-        }
-    }
-
     Token type_tok = p->current;
     consume(p, TOK_IDENTIFIER, "Expect field type");
 
@@ -1064,6 +1037,12 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if (trans_type != CND_TRANS_NONE) {
+        if (has_const || has_expr || has_crc) { parser_error(p, "Cannot apply scale/transform to a const, expr or CRC field"); }
+        if (bit_width > 0 || p->in_bit_mode) { parser_error(p, "Cannot apply scale/transform to a bitfield"); }
+        if (match_keyword(type_tok, "bool")) { parser_error(p, "Cannot apply scale/transform to bool"); }
+    }
+
     if (is_big_endian_field) { buf_push(p->target, OP_SET_ENDIAN_BE); }
 
     if (arr_prefix_op != OP_NOOP) {
@@ -1287,6 +1266,32 @@ void parse_field(Parser* p, const char* doc) {
                     buf_push(p->target, OP_STORE_CTX); buf_push_u16(p->target, key_id);
                     buf_push(p->target, OP_EMIT); buf_push(p->target, op);
                 } else {
+                    // Emit Transform Op (it applies to the next IO instruction)
+                    if (trans_type == CND_TRANS_SCALE_F64) {
+                        buf_push(p->target, OP_SCALE_LIN);
+                        buf_push_u64(p->target, *(uint64_t*)&trans_scale);
+                        buf_push_u64(p->target, *(uint64_t*)&trans_offset);
+                    } else if (trans_type == CND_TRANS_MUL_I64) {
+                        buf_push(p->target, OP_TRANS_MUL); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_DIV_I64) {
+                        buf_push(p->target, OP_TRANS_DIV); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_ADD_I64) {
+                        buf_push(p->target, OP_TRANS_ADD); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_SUB_I64) {
+                        buf_push(p->target, OP_TRANS_SUB); buf_push_u64(p->target, (uint64_t)trans_int_val);
+                    } else if (trans_type == CND_TRANS_POLY) {
+                        buf_push(p->target, OP_TRANS_POLY);
+                        buf_push(p->target, poly_count);
+                        for (int i = 0; i < poly_count; i++) {
+                            buf_push_u64(p->target, *(uint64_t*)&poly_coeffs[i]);
+                        }
+                    } else if (trans_type == CND_TRANS_SPLINE) {
+                        buf_push(p->target, OP_TRANS_SPLINE);
+                        buf_push(p->target, spline_count);
+                        for (int i = 0; i < spline_count * 2; i++) {
+                            buf_push_u64(p->target, *(uint64_t*)&spline_points[i]);
+                        }
+                    }
                     buf_push(p->target, op); buf_push_u16(p->target, key_id);
                     if (has_range) { emit_range_check(p, op, range_min_tok, range_max_tok); }
                 }
-- 
2.43.0


From 6b9a99c6a5a45f81d5fea9f36f2455f78494d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 21/34] fix: a range check that would be dropped or cannot be
 executed is rejected

---
 src/compiler/cnd_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 4bd7987..1fb591e 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1037,6 +1037,10 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if (has_range && (bit_width > 0 || p->in_bit_mode || has_expr || has_crc || match_keyword(type_tok, "bool"))) {
+        parser_error(p, "Cannot apply range check to a bitfield, expr, CRC or bool field");
+    }
+
     if (trans_type != CND_TRANS_NONE) {
         if (has_const || has_expr || has_crc) { parser_error(p, "Cannot apply scale/transform to a const, expr or CRC field"); }
         if (bit_width > 0 || p->in_bit_mode) { parser_error(p, "Cannot apply scale/transform to a bitfield"); }
-- 
2.43.0


From 5567d659d7ce29d0eb2810be96a1a10f7d19dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 22/34] fix: an expression whose value no field takes is
 rejected

---
 src/compiler/cnd_parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 1fb591e..506f13b 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -935,6 +935,7 @@ void parse_field(Parser* p, const char* doc) {
                     }
                 }
             } else if (match_keyword(dec_name_token, "expr")) {
+                if (has_expr) { parser_error(p, "Only one @expr per field"); }
                 parse_expression(p);
                 has_expr = 1;
             } else { 
@@ -946,6 +947,7 @@ void parse_field(Parser* p, const char* doc) {
     } 
 
     if (is_standalone_op && (p->current.type == TOK_SEMICOLON || p->current.type == TOK_RBRACE)) {
+        if (has_expr) { parser_error(p, "@expr needs a field"); }
         if (p->current.type == TOK_SEMICOLON) advance(p);
         return;
     }
@@ -1037,6 +1039,11 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if (has_expr && (has_const || has_crc || is_array_field || bit_width > 0 || p->in_bit_mode || match_keyword(type_tok, "string") ||
+                     reg_find(&p->registry, type_tok.start, type_tok.length) || enum_reg_find(&p->enums, type_tok.start, type_tok.length))) {
+        parser_error(p, "@expr is only supported for fields of a plain integer, float or bool type");
+    }
+
     if (has_range && (bit_width > 0 || p->in_bit_mode || has_expr || has_crc || match_keyword(type_tok, "bool"))) {
         parser_error(p, "Cannot apply range check to a bitfield, expr, CRC or bool field");
     }
-- 
2.43.0


From c802ac9be28d73fb162b9ebe02c4273142f5514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:36 +0000
Subject: [PATCH 23/34] fix: a constant that would be read in the wrong mode is
 rejected

---
 src/compiler/cnd_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 506f13b..8d90348 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1039,6 +1039,10 @@ void parse_field(Parser* p, const char* doc) {
         }
     }
 
+    if (has_const && (has_crc || bit_width > 0 || p->in_bit_mode)) {
+        parser_error(p, "@const is not supported for bitfields and CRC fields");
+    }
+
     if (has_expr && (has_const || has_crc || is_array_field || bit_width > 0 || p->in_bit_mode || match_keyword(type_tok, "string") ||
                      reg_find(&p->registry, type_tok.start, type_tok.length) || enum_reg_find(&p->enums, type_tok.start, type_tok.length))) {
         parser_error(p, "@expr is only supported for fields of a plain integer, float or bool type");
-- 
2.43.0


From 78d23cec85558941ba430beeca212d05f73e791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:21 +0000
Subject: [PATCH 24/34] fix: numbers that do not fit their operand are rejected

---
 src/compiler/cnd_parser.c | 62 ++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 8d90348..42e7988 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -277,8 +277,34 @@ int match_keyword(Token t, const char* kw) {
 
 
 
+// Value of an unsigned number token. Reports an error if it is not in 0..max.
+static uint32_t parse_uint(Parser* p, Token t, uint32_t max) {
+    int64_t val = parse_number_i64(t.start, t.length);
+    if (t.length > 18 || memchr(t.start, '.', t.length) || val < 0 || val > (int64_t)max) {
+        parser_error(p, "Number out of range");
+    }
+    return (uint32_t)val;
+}
+
+static int fits_type(uint8_t type_op, int64_t val) {
+    switch (type_op) {
+        case OP_IO_U8:  return val >= 0 && val <= UINT8_MAX;
+        case OP_IO_U16: return val >= 0 && val <= UINT16_MAX;
+        case OP_IO_U32: return val >= 0 && val <= UINT32_MAX;
+        case OP_IO_I8:  return val >= INT8_MIN && val <= INT8_MAX;
+        case OP_IO_I16: return val >= INT16_MIN && val <= INT16_MAX;
+        case OP_IO_I32: return val >= INT32_MIN && val <= INT32_MAX;
+        default: return 1;
+    }
+}
+
 void emit_range_check(Parser* p, uint8_t type_op, Token min_tok, Token max_tok) {
     // Validate range
+    if (!fits_type(type_op, parse_number_i64(min_tok.start, min_tok.length)) ||
+        !fits_type(type_op, parse_number_i64(max_tok.start, max_tok.length))) {
+        parser_error(p, "Range limit does not fit the type");
+        return;
+    }
     if (type_op == OP_IO_U8 || type_op == OP_IO_U16 || type_op == OP_IO_U32) {
         uint32_t min = parse_number_u32(min_tok.start, min_tok.length);
         uint32_t max = parse_number_u32(max_tok.start, max_tok.length);
@@ -588,6 +614,9 @@ void parse_switch(Parser* p) {
             cases[case_count].val = val;
             cases[case_count].offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             case_count++;
+            if (case_count > UINT16_MAX) {
+                parser_error(p, "Too many cases");
+            }
             
             // Parse body
             if (p->current.type == TOK_LBRACE) {
@@ -804,10 +833,7 @@ void parse_field(Parser* p, const char* doc) {
                 advance(p);
                 Token num = p->current;
                 consume(p, TOK_NUMBER, "Expect fill bit value (0 or 1)");
-                fill_val = (uint8_t)parse_number_u32(num.start, num.length);
-                if (fill_val > 1) {
-                    parser_error(p, "Fill bit must be 0 or 1");
-                }
+                fill_val = (uint8_t)parse_uint(p, num, 1);
                 consume(p, TOK_RPAREN, "Expect )");
             }
             buf_push(p->target, OP_ALIGN_FILL);
@@ -840,7 +866,7 @@ void parse_field(Parser* p, const char* doc) {
                 } else if (p->current.type == TOK_NUMBER) {
                     Token num = p->current; 
                     advance(p);
-                    array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+                    array_fixed_count = parse_uint(p, num, UINT32_MAX); has_fixed_array_count = 1;
                 } else {
                     parser_error(p, "Expect number or variable name for count");
                 }
@@ -850,7 +876,7 @@ void parse_field(Parser* p, const char* doc) {
             } else if (match_keyword(dec_name_token, "pad")) {
                 is_standalone_op = 1;
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect pad bits");
-                uint32_t pad_bits = parse_number_u32(num.start, num.length); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
+                uint32_t pad_bits = parse_uint(p, num, UINT8_MAX); buf_push(p->target, OP_ALIGN_PAD); buf_push(p->target, (uint8_t)pad_bits);
                 if (p->in_bit_mode && p->is_bit_count_valid) {
                     p->current_bit_count += pad_bits;
                 }
@@ -861,16 +887,16 @@ void parse_field(Parser* p, const char* doc) {
                 has_range = 1;
             } else if (match_keyword(dec_name_token, "crc")) {
                 Token num = p->current; consume(p, TOK_NUMBER, "Expect width");
-                crc_width = parse_number_u32(num.start, num.length); has_crc = 1;
+                crc_width = parse_uint(p, num, 32); has_crc = 1;
                 if (crc_width == 16) { crc_poly = 0x1021; crc_init = 0xFFFF; crc_xor = 0; crc_flags = 0; } 
                 else if (crc_width == 32) { crc_poly = 0x04C11DB7; crc_init = 0xFFFFFFFF; crc_xor = 0xFFFFFFFF; crc_flags = 3; }
                 else { parser_error(p, "CRC width must be 16 or 32"); }
             } else if (match_keyword(dec_name_token, "crc_poly")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect poly"); crc_poly = parse_uint(p, num, UINT32_MAX);
             } else if (match_keyword(dec_name_token, "crc_init")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect init"); crc_init = parse_uint(p, num, UINT32_MAX);
             } else if (match_keyword(dec_name_token, "crc_xor")) {
-                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_number_u32(num.start, num.length);
+                Token num = p->current; consume(p, TOK_NUMBER, "Expect xor"); crc_xor = parse_uint(p, num, UINT32_MAX);
             } else if (match_keyword(dec_name_token, "scale")) {
                 Token num = p->current; if (num.type == TOK_NUMBER) advance(p); else consume(p, TOK_NUMBER, "Expect scale factor");
                 trans_type = CND_TRANS_SCALE_F64; trans_scale = parse_number_double(num.start, num.length);
@@ -979,7 +1005,8 @@ void parse_field(Parser* p, const char* doc) {
     uint8_t bit_width = 0;
     if (p->current.type == TOK_COLON) {
         advance(p); consume(p, TOK_NUMBER, "Expect bit width");
-        bit_width = (uint8_t)parse_number_u32(p->previous.start, p->previous.length);
+        bit_width = (uint8_t)parse_uint(p, p->previous, 64);
+        if (bit_width == 0) { parser_error(p, "Bit width must be 1 to 64"); }
     }
 
     int is_array_field = 0; 
@@ -994,7 +1021,7 @@ void parse_field(Parser* p, const char* doc) {
         if (p->current.type == TOK_RBRACKET) { advance(p); is_variable_array = 1; } 
         else {
             Token num = p->current; consume(p, TOK_NUMBER, "Expect array size");
-            array_fixed_count = parse_number_u32(num.start, num.length); has_fixed_array_count = 1;
+            array_fixed_count = parse_uint(p, num, UINT32_MAX); has_fixed_array_count = 1;
             consume(p, TOK_RBRACKET, "Expect ]");
         }
     } else {
@@ -1026,7 +1053,7 @@ void parse_field(Parser* p, const char* doc) {
         } else { parser_error(p, "Prefix keyword used for non-variable-array/non-string type"); }
     } else if (match_keyword(type_tok, "string")) {
         if (match_keyword(p->current, "until")) { advance(p); consume(p, TOK_NUMBER, "Expect val"); has_until = 1; }
-        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_number_u32(max_tok.start, max_tok.length); }
+        if (match_keyword(p->current, "max")) { advance(p); Token max_tok = p->current; consume(p, TOK_NUMBER, "Expect max length"); max_len = (uint16_t)parse_uint(p, max_tok, UINT16_MAX); }
     }
 
     if (is_array_field && arr_prefix_op == OP_NOOP && !has_eof && !has_count_ref && !has_fixed_array_count) {
@@ -1263,6 +1290,7 @@ void parse_field(Parser* p, const char* doc) {
                 if (has_crc) {
                      if (crc_width == 16) {
                          if (op != OP_IO_U16) parser_error(p, "CRC16 requires uint16 type");
+                         if (crc_poly > UINT16_MAX || crc_init > UINT16_MAX || crc_xor > UINT16_MAX) parser_error(p, "CRC16 parameters are 16 bits wide");
                          buf_push(p->target, OP_CRC_16);
                          buf_push_u16(p->target, (uint16_t)crc_poly);
                          buf_push_u16(p->target, (uint16_t)crc_init);
@@ -1409,6 +1437,9 @@ void parse_enum(Parser* p, const char* doc) {
             consume(p, TOK_NUMBER, "Expect enum value");
             val = parse_number_i64(num.start, num.length);
         }
+        if (!fits_type(def->underlying_type, val)) {
+            parser_error(p, "Enum value does not fit the underlying type");
+        }
         
         // Check for duplicate value
         for (size_t i = 0; i < def->count; i++) {
@@ -1429,6 +1460,9 @@ void parse_enum(Parser* p, const char* doc) {
         def->values[def->count].doc_comment = val_doc_sb.length > 0 ? sb_build(&val_doc_sb) : NULL; // Transfer ownership
         sb_reset(&val_doc_sb); // Reset for next
         def->count++;
+        if (def->count > UINT16_MAX) {
+            parser_error(p, "Too many enum values");
+        }
         
         next_val = val + 1;
         
@@ -1660,7 +1694,7 @@ void parse_top_level(Parser* p) {
             
             if (match_keyword(dec, "version")) {
                 consume(p, TOK_LPAREN, "Expect ("); Token ver = p->current; consume(p, TOK_NUMBER, "Expect version number");
-                uint32_t v = parse_number_u32(ver.start, ver.length); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
+                uint32_t v = parse_uint(p, ver, UINT8_MAX); buf_push(p->target, OP_META_VERSION); buf_push(p->target, (uint8_t)v);
                 consume(p, TOK_RPAREN, "Expect )");
             } else if (match_keyword(dec, "import")) {
                 parse_import(p);
-- 
2.43.0


From 2be7040ef6e5db2a4e7f8127b6727ea9911151d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 25/34] fix: a CRC on a bitfield is rejected instead of dropped

---
 src/compiler/cnd_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 42e7988..de214dc 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1070,6 +1070,10 @@ void parse_field(Parser* p, const char* doc) {
         parser_error(p, "@const is not supported for bitfields and CRC fields");
     }
 
+    if (has_crc && (bit_width > 0 || p->in_bit_mode)) {
+        parser_error(p, "Cannot apply CRC to a bitfield");
+    }
+
     if (has_expr && (has_const || has_crc || is_array_field || bit_width > 0 || p->in_bit_mode || match_keyword(type_tok, "string") ||
                      reg_find(&p->registry, type_tok.start, type_tok.length) || enum_reg_find(&p->enums, type_tok.start, type_tok.length))) {
         parser_error(p, "@expr is only supported for fields of a plain integer, float or bool type");
-- 
2.43.0


From cb83f28a12238d71283859e2641f908fd8232817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 26/34] fix: an input file that cannot be read completely is an
 error

---
 src/compiler/cnd_fmt.c      | 13 ++-----------
 src/compiler/cnd_internal.h |  3 +++
 src/compiler/cnd_parser.c   |  8 ++------
 src/compiler/cnd_utils.c    | 18 ++++++++++++++++++
 src/compiler/cndc.c         |  7 ++-----
 5 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index 89abf8a..dcbe82e 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -215,21 +215,12 @@ char* cnd_format_source(const char* source) {
 }
 
 int cnd_format_file(const char* in_path, const char* out_path) {
-    FILE* f = fopen(in_path, "rb");
-    if (!f) {
+    char* source = cnd_read_source(in_path);
+    if (!source) {
         fprintf(stderr, "Failed to open input file: %s\n", in_path);
         return 1;
     }
 
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    char* source = (char*)malloc(size + 1);
-    fread(source, 1, size, f);
-    source[size] = '\0';
-    fclose(f);
-
     char* formatted = cnd_format_source(source);
     free(source);
 
diff --git a/src/compiler/cnd_internal.h b/src/compiler/cnd_internal.h
index ec9fcdb..1c66c44 100644
--- a/src/compiler/cnd_internal.h
+++ b/src/compiler/cnd_internal.h
@@ -105,6 +105,9 @@ static inline int is_hex_c(char c) { return is_digit_c(c) || (c >= 'a' && c <= '
 void lexer_init(Lexer* lexer, const char* source);
 Token lexer_next(Lexer* lexer);
 
+// Reads a whole file into a NUL-terminated string. Returns NULL if that fails.
+char* cnd_read_source(const char* path);
+
 // --- Utils: Number Parsing ---
 int hex_char_to_int(char c);
 uint32_t parse_number_u32(const char* start, int length);
diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index de214dc..eb7eac9 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -1641,8 +1641,8 @@ void parse_import(Parser* p) {
     strtab_add(&p->imports, full_path, (int)strlen(full_path));
     
     // Read file
-    FILE* f = fopen(full_path, "rb");
-    if (!f) {
+    char* source = cnd_read_source(full_path);
+    if (!source) {
         char msg[512];
         snprintf(msg, sizeof(msg), "Could not open imported file: %s", full_path);
         parser_error(p, msg);
@@ -1650,10 +1650,6 @@ void parse_import(Parser* p) {
         return;
     }
     
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = (char*)malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
-    
     // Save state
     Lexer old_lexer = p->lexer;
     Token old_cur = p->current;
diff --git a/src/compiler/cnd_utils.c b/src/compiler/cnd_utils.c
index 857a492..41ca444 100644
--- a/src/compiler/cnd_utils.c
+++ b/src/compiler/cnd_utils.c
@@ -28,6 +28,24 @@ char* cnd_canonicalize_path(const char* path) {
 #endif
 }
 
+char* cnd_read_source(const char* path) {
+    FILE* f = fopen(path, "rb");
+    if (!f) return NULL;
+
+    char* source = NULL;
+    long size = -1;
+    if (fseek(f, 0, SEEK_END) == 0 && (size = ftell(f)) >= 0 && fseek(f, 0, SEEK_SET) == 0) {
+        source = malloc((size_t)size + 1);
+        if (source && fread(source, 1, (size_t)size, f) != (size_t)size) {
+            free(source);
+            source = NULL;
+        }
+        if (source) source[size] = '\0';
+    }
+    fclose(f);
+    return source;
+}
+
 // Number of key operands of an instruction: the first is at offset 1, the second at offset 3
 static int key_operand_count(uint8_t op) {
     switch (op) {
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 25f0af9..7b00be4 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -58,16 +58,13 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     char* canonical_in_path = cnd_canonicalize_path(in_path);
     const char* open_path = canonical_in_path ? canonical_in_path : in_path;
 
-    FILE* f = fopen(open_path, "rb");
-    if (!f) { 
+    char* source = cnd_read_source(open_path);
+    if (!source) { 
         if (json_output) printf("{\"error\": \"Error opening input file: %s\"}\n", open_path);
         else printf("Error opening input file: %s\n", open_path);
         if (canonical_in_path) free(canonical_in_path);
         return 1; 
     }
-    fseek(f, 0, SEEK_END); long size = ftell(f); fseek(f, 0, SEEK_SET);
-    char* source = malloc(size + 1); fread(source, 1, size, f); source[size] = '\0';
-    fclose(f);
 
     Parser p;
     memset(&p, 0, sizeof(Parser)); // Zero init
-- 
2.43.0


From b9ec27a159544b1d1f18b0599e80de5a9711d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 27/34] fix: commands fail when their output cannot be written

---
 src/cli/cli_helpers.c  | 12 ++++++------
 src/cli/cmd_decode.c   |  7 ++++---
 src/cli/cmd_encode.c   |  6 ++++--
 src/compiler/cnd_fmt.c |  8 ++++++--
 src/compiler/cndc.c    | 21 ++++++++++++++-------
 5 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 2eb3ebd..0c42243 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -39,17 +39,17 @@ char* read_file_text(const char* path) {
 int write_file_bytes(const char* path, const uint8_t* data, size_t len) {
     FILE* f = fopen(path, "wb");
     if (!f) return 0;
-    fwrite(data, 1, len, f);
-    fclose(f);
-    return 1;
+    int ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 int write_file_text(const char* path, const char* text) {
     FILE* f = fopen(path, "w");
     if (!f) return 0;
-    fputs(text, f);
-    fclose(f);
-    return 1;
+    int ok = fputs(text, f) >= 0;
+    if (fclose(f) != 0) ok = 0;
+    return ok;
 }
 
 // =================================================================================================
diff --git a/src/cli/cmd_decode.c b/src/cli/cmd_decode.c
index d6dff1d..b20ba3a 100644
--- a/src/cli/cmd_decode.c
+++ b/src/cli/cmd_decode.c
@@ -48,12 +48,13 @@ int cmd_decode(int argc, char** argv) {
         return 1;
     }
     
-    write_file_text(argv[4], out_json);
-    printf("Decoded to %s\n", argv[4]);
+    int ok = write_file_text(argv[4], out_json);
+    if (ok) printf("Decoded to %s\n", argv[4]);
+    else printf("Failed to write %s\n", argv[4]);
     
     free(out_json);
     cJSON_Delete(root);
     free(bin_data);
     free_il(&il);
-    return 0;
+    return ok ? 0 : 1;
 }
diff --git a/src/cli/cmd_encode.c b/src/cli/cmd_encode.c
index fa46d91..68c9a8e 100644
--- a/src/cli/cmd_encode.c
+++ b/src/cli/cmd_encode.c
@@ -21,6 +21,7 @@ int cmd_encode(int argc, char** argv) {
     memset(buffer, 0, sizeof(buffer));
     
     static IOCtx io_ctx; // Made static to persist
+    memset(&io_ctx, 0, sizeof(IOCtx)); // Initialize all fields to 0
     io_ctx.il = &il;
     io_ctx.stack[0] = root;
     io_ctx.depth = 0;
@@ -41,12 +42,13 @@ int cmd_encode(int argc, char** argv) {
     // fprintf(stderr, "DEBUG: Writing file...\n");
     size_t final_len = vm.cursor;
     if (vm.bit_offset > 0) final_len++;
-    write_file_bytes(argv[4], buffer, final_len);
+    int ok = write_file_bytes(argv[4], buffer, final_len);
+    if (!ok) fprintf(stderr, "Failed to write %s\n", argv[4]);
     // fprintf(stderr, "Encoded %zu bytes to %s\n", final_len, argv[4]);
     
     // fprintf(stderr, "DEBUG: Cleaning up...\n");
     cJSON_Delete(root);
     free_il(&il);
     // fprintf(stderr, "DEBUG: Done.\n");
-    return 0;
+    return ok ? 0 : 1;
 }
diff --git a/src/compiler/cnd_fmt.c b/src/compiler/cnd_fmt.c
index dcbe82e..e2d4328 100644
--- a/src/compiler/cnd_fmt.c
+++ b/src/compiler/cnd_fmt.c
@@ -236,9 +236,13 @@ int cnd_format_file(const char* in_path, const char* out_path) {
         }
     }
 
-    fputs(formatted, out);
+    int written = fputs(formatted, out) >= 0 && fflush(out) == 0;
     
-    if (out_path && out != stdout) fclose(out);
+    if (out_path && out != stdout && fclose(out) != 0) written = 0;
     free(formatted);
+    if (!written) {
+        fprintf(stderr, "Failed to write output\n");
+        return 1;
+    }
     return 0;
 }
diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index 7b00be4..cb0bcfa 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -99,22 +99,29 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
             else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error opening output file: %s\n", out_path); 
             ret = 1; 
         } else {
-            fwrite("CNDIL", 1, 5, out); fputc(1, out);
-            uint16_t str_count = (uint16_t)p.strtab.count; fwrite(&str_count, 2, 1, out); 
+            int written = fwrite("CNDIL", 1, 5, out) == 5 && fputc(1, out) != EOF;
+            uint16_t str_count = (uint16_t)p.strtab.count; written = fwrite(&str_count, 2, 1, out) == 1 && written;
             
             uint32_t str_offset = 16;
             uint32_t str_bytes = 0;
             for(size_t i=0; i<p.strtab.count; i++) { str_bytes += (uint32_t)(strlen(p.strtab.strings[i]) + 1); }
             uint32_t bytecode_offset = str_offset + str_bytes;
             
-            fwrite(&str_offset, 4, 1, out); fwrite(&bytecode_offset, 4, 1, out);
+            written = fwrite(&str_offset, 4, 1, out) == 1 && fwrite(&bytecode_offset, 4, 1, out) == 1 && written;
             
-            for(size_t i=0; i<p.strtab.count; i++) { fwrite(p.strtab.strings[i], 1, strlen(p.strtab.strings[i]) + 1, out); }
+            for(size_t i=0; i<p.strtab.count; i++) {
+                size_t n = strlen(p.strtab.strings[i]) + 1;
+                if (fwrite(p.strtab.strings[i], 1, n, out) != n) written = 0;
+            }
             
-            fwrite(p.global_bc.data, 1, p.global_bc.size, out);
+            if (fwrite(p.global_bc.data, 1, p.global_bc.size, out) != p.global_bc.size) written = 0;
             
-            fclose(out);
-            if (json_output) {
+            if (fclose(out) != 0) written = 0;
+            if (!written) {
+                if (json_output) printf("{\"status\": \"error\", \"message\": \"Error writing output file: %s\"}\n", out_path);
+                else printf(COLOR_BOLD COLOR_RED "[ERROR]" COLOR_RESET " Error writing output file: %s\n", out_path);
+                ret = 1;
+            } else if (json_output) {
                 // Escape paths for JSON (simple check)
                 // For now assuming paths don't have crazy characters, but in production should be escaped properly
                 printf("{\"status\": \"success\", \"input\": \"%s\", \"output\": \"%s\", \"stats\": {\"strings\": %zu, \"bytecode_size\": %zu}}\n",
-- 
2.43.0


From 3ae006bc38108c10c36772ba74fe7883c0738816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 28/34] fix: the CLI reads input files completely or not at all

---
 src/cli/cli_helpers.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 0c42243..4535add 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -14,10 +14,13 @@ uint8_t* read_file_bytes(const char* path, size_t* out_len) {
     fseek(f, 0, SEEK_END);
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
-    uint8_t* buf = malloc(size);
-    if (buf) fread(buf, 1, size, f);
+    uint8_t* buf = (size < 0) ? NULL : malloc((size_t)size + 1);
+    if (buf && fread(buf, 1, (size_t)size, f) != (size_t)size) {
+        free(buf);
+        buf = NULL;
+    }
     fclose(f);
-    if (out_len) *out_len = size;
+    if (out_len) *out_len = (size_t)size;
     return buf;
 }
 
@@ -27,11 +30,12 @@ char* read_file_text(const char* path) {
     fseek(f, 0, SEEK_END);
     long size = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char* buf = malloc(size + 1);
-    if (buf) {
-        fread(buf, 1, size, f);
-        buf[size] = '\0';
+    char* buf = (size < 0) ? NULL : malloc((size_t)size + 1);
+    if (buf && fread(buf, 1, (size_t)size, f) != (size_t)size) {
+        free(buf);
+        buf = NULL;
     }
+    if (buf) buf[size] = '\0';
     fclose(f);
     return buf;
 }
-- 
2.43.0


From 25b9817e4278d22ffefed244c69e5ce06b5f1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 29/34] fix: load_il rejects a string table that runs past the
 end of the file

---
 src/cli/cli_helpers.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cli/cli_helpers.c b/src/cli/cli_helpers.c
index 4535add..a297484 100644
--- a/src/cli/cli_helpers.c
+++ b/src/cli/cli_helpers.c
@@ -75,11 +75,15 @@ int load_il(const char* path, ILFile* il) {
     
     if (str_offset > il->raw_len || bc_offset > il->raw_len) return 0;
 
-    il->string_table = malloc(il->str_count * sizeof(char*));
+    il->string_table = malloc((il->str_count + 1) * sizeof(char*));
+    if (!il->string_table) return 0;
     const char* ptr = (const char*)(il->raw_data + str_offset);
+    const char* end = (const char*)(il->raw_data + il->raw_len);
     for (int i = 0; i < il->str_count; i++) {
+        const char* nul = memchr(ptr, '\0', (size_t)(end - ptr));
+        if (!nul) return 0; // String not terminated inside the file
         il->string_table[i] = ptr;
-        ptr += strlen(ptr) + 1;
+        ptr = nul + 1;
     }
     
     il->bytecode = il->raw_data + bc_offset;
-- 
2.43.0


From 7e08f96df7a520c0d1547799f62366cd81edbc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 30/34] fix: a schema with more names than key operands can
 number is rejected

---
 src/compiler/cndc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/cndc.c b/src/compiler/cndc.c
index cb0bcfa..a1ffe3a 100644
--- a/src/compiler/cndc.c
+++ b/src/compiler/cndc.c
@@ -86,6 +86,10 @@ int cnd_compile_file(const char* in_path, const char* out_path, int json_output,
     advance(&p);
     parse_top_level(&p);
     
+    if (p.strtab.count > UINT16_MAX) {
+        parser_error(&p, "Too many names"); // Key operands are 16 bits wide
+    }
+    
     int ret = 0;
 
     if (p.had_error) {
-- 
2.43.0


From a25c1e0fac2acd644edd6abc36db4b82ee7a795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 31/34] fix: a hex literal with the digit e is an integer

---
 src/compiler/cnd_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index eb7eac9..76468de 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -42,7 +42,7 @@ ExprType parse_expression(Parser* p);
 
 static int is_float_literal(Token t) {
     for (int i = 0; i < t.length; i++) {
-        if (t.start[i] == '.' || t.start[i] == 'e' || t.start[i] == 'E') return 1;
+        if (t.start[i] == '.') return 1; // There are no exponents, e is a hex digit
     }
     return 0;
 }
-- 
2.43.0


From 340006d98083d2e9ad809278a2a981a7624b13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 32/34] fix: a case without value is rejected

---
 src/compiler/cnd_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 76468de..a2e3c9d 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -595,6 +595,8 @@ void parse_switch(Parser* p) {
                 } else {
                     parser_error(p, "Expect . after Enum name (Enum.Value)");
                 }
+            } else {
+                parser_error(p, "Expect case value");
             }
             
             consume(p, TOK_COLON, "Expect : after case value");
-- 
2.43.0


From 954635ba9f0b6216a64d814d83b0911e8e27eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:25 +0000
Subject: [PATCH 33/34] fix: a second default of a switch is rejected

---
 src/compiler/cnd_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index a2e3c9d..6340b1a 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -639,6 +639,7 @@ void parse_switch(Parser* p) {
             jump_fixups[jump_count++] = jump_loc;
 
         } else if (p->current.type == TOK_DEFAULT) {
+            if (default_offset != -1) { parser_error(p, "Duplicate default"); }
             advance(p); consume(p, TOK_COLON, "Expect :");
             default_offset = (int32_t)(buf_current_offset(p->target) - code_start_loc);
             
-- 
2.43.0


From 86d45daca2dbc44df3ae635158b1d1ce4c7eebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:54 +0000
Subject: [PATCH 34/34] fix: float() of a float and int() of an integer keep
 their argument

---
 src/compiler/cnd_parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/compiler/cnd_parser.c b/src/compiler/cnd_parser.c
index 6340b1a..8424a2b 100644
--- a/src/compiler/cnd_parser.c
+++ b/src/compiler/cnd_parser.c
@@ -447,15 +447,13 @@ ExprType parse_primary(Parser* p) {
             return TYPE_FLOAT;
         } else if (match_keyword(name, "float")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force ITOF
+            if (parse_expression(p) != TYPE_FLOAT) buf_push(p->target, OP_ITOF);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_ITOF);
             return TYPE_FLOAT;
         } else if (match_keyword(name, "int")) {
             consume(p, TOK_LPAREN, "Expect ("); 
-            parse_expression(p); // Ignore type, force FTOI
+            if (parse_expression(p) != TYPE_INT) buf_push(p->target, OP_FTOI);
             consume(p, TOK_RPAREN, "Expect )");
-            buf_push(p->target, OP_FTOI);
             return TYPE_INT;
         } else {
             // Handle Dot Notation (e.g. position.x)
-- 
2.43.0

