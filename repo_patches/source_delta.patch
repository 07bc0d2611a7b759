From 26cacbbac65502db956aa1af7f181ffa4f66eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 01/12] fix: compare whole elements of derivation paths, not
 their first bytes

---
 src/common/bip32_ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From a90ae2fb7032d3f77c3f88f5dd1aa9d4a6f27b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 02/12] fix: refuse a new output while the previous one is
 incomplete

---
 src/ergo/tx_ser_full.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..57c6f1b 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,9 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From 4c7ff17f8efe974efc946e464c1dbb95f7e4c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 03/12] fix: a truncated token index puts the box serializer
 into its error state

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0


From bcf809f1883dcf6af7deda75a66530ae59778c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 04/12] fix: refuse variable-length integers that exceed 64
 bits or ten bytes

---
 src/common/gve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..eb532a3 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -63,6 +63,8 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
     gve_result_e res = GVE_ERR_DATA_SIZE;
     while (shift < 64) {
         if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
+        // the tenth byte has room for the highest bit of the value only
+        if (shift == 63 && byte > 1) return GVE_ERR_INT_TO_BIG;
         *val |= (uint64_t) (byte & 0x7F) << shift;
         if ((byte & 0x80) == 0) {
             res = GVE_OK;
-- 
2.43.0


From f7a101513d3a4883ca191adab345cd1722774d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 05/12] fix: decode every 32-bit value gve_put_i32 encodes

---
 src/common/gve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index eb532a3..2a7a2d1 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // zigzag_encode_i32 sign-extends its result, so both forms of a 32-bit value are valid
+    if (u64 > 0xFFFFFFFFULL && u64 < 0xFFFFFFFF80000000ULL) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
-- 
2.43.0


From 0d69d7c0e170868ee897d65d2ad76089d6472746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 06/12] fix: refuse input frames with more tokens than a frame
 can hold

---
 src/helpers/input_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helpers/input_frame.c b/src/helpers/input_frame.c
index 51d3922..fc51e3a 100644
--- a/src/helpers/input_frame.c
+++ b/src/helpers/input_frame.c
@@ -6,6 +6,9 @@ uint8_t input_frame_data_length(const buffer_t* input) {
         return 0;
     }
     uint8_t token_count = buffer_read_ptr(input)[FRAME_TOKEN_COUNT_POSITION];
+    if (token_count > FRAME_MAX_TOKENS_COUNT) {
+        return 0;
+    }
     uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
     if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
         return 0;
-- 
2.43.0


From 99f4b153b72087da8109911d681594a169be09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 07/12] fix: pressing both buttons on a path page without
 action must not freeze the prompt

---
 src/ui/ui_bip32_path.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index f00a50d..f102513 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -7,11 +7,7 @@ static void* G_ui_bip32_approve_callback_context;
 
 void ux_bip32_path_validate_init(unsigned int stack_slot) {
     UNUSED(stack_slot);
-    if (G_ui_bip32_approve_callback != NULL) {
-        G_ui_bip32_approve_callback(G_ui_bip32_approve_callback_context);
-    } else {
-        ux_flow_next();
-    }
+    G_ui_bip32_approve_callback(G_ui_bip32_approve_callback_context);
 }
 
 const ux_flow_step_t ux_bip32_path_validate_step = {ux_bip32_path_validate_init, NULL, NULL, NULL};
@@ -26,6 +22,14 @@ const ux_flow_step_t ux_bip32_path_step = {
     NULL,
 };
 
+// The same page without an action: pressing both buttons does nothing
+const ux_flow_step_t ux_bip32_path_info_step = {
+    ux_layout_bnnn_paging_init,
+    G_ui_path_params,
+    NULL,
+    NULL,
+};
+
 const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
                                            uint8_t path_len,
                                            const char* title,
@@ -41,5 +45,5 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     }
     G_ui_bip32_approve_callback = cb;
     G_ui_bip32_approve_callback_context = cb_context;
-    return &ux_bip32_path_step;
+    return cb != NULL ? &ux_bip32_path_step : &ux_bip32_path_info_step;
 }
\ No newline at end of file
-- 
2.43.0


From 1c7e6fd839aa574ca7d39a195c5092ce590707be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 08/12] fix: a new session never reuses the identifier of the
 session it replaces

---
 src/commands/attestinput/ainpt_handler.c | 16 ++++++++++++----
 src/commands/signtx/stx_handler.c        | 16 ++++++++++++----
 src/context.h                            | 14 ++++++++++++++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/commands/attestinput/ainpt_handler.c b/src/commands/attestinput/ainpt_handler.c
index f3f946d..8817adf 100644
--- a/src/commands/attestinput/ainpt_handler.c
+++ b/src/commands/attestinput/ainpt_handler.c
@@ -71,7 +71,8 @@ static NOINLINE ergo_tx_serializer_box_result_e box_token_cb(ergo_tx_serializer_
 static inline int handle_init(attest_input_ctx_t *ctx,
                               buffer_t *cdata,
                               bool has_token,
-                              uint32_t app_session_id) {
+                              uint32_t app_session_id,
+                              uint8_t old_session) {
     uint64_t value;
     uint32_t ergo_tree_size, creation_height, registers_size, app_session_id_in = 0;
     uint8_t tokens_count;
@@ -106,7 +107,7 @@ static inline int handle_init(attest_input_ctx_t *ctx,
     ergo_tx_serializer_box_set_callbacks(&ctx->box, NULL, &box_token_cb, NULL, (void *) ctx);
 
     ctx->state = ATTEST_INPUT_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = session_id_new_random(old_session);
 
     if (is_known_application(app_session_id, app_session_id_in)) {
         ctx->state = ATTEST_INPUT_STATE_APPROVED;
@@ -153,12 +154,19 @@ int handler_attest_input(buffer_t *cdata,
 
     attest_input_ctx_t *ctx = app_attest_input_context();
     switch (subcommand) {
-        case ATTEST_INPUT_SUBCOMMAND_INIT:
+        case ATTEST_INPUT_SUBCOMMAND_INIT: {
             if (session_or_token != 0x01 && session_or_token != 0x02) {
                 return handler_err(ctx, SW_WRONG_P1P2);
             }
+            // the context is cleared by the new command
+            uint8_t old_session = app_current_session_id();
             app_set_current_command(CMD_ATTEST_INPUT_BOX);
-            return handle_init(ctx, cdata, session_or_token == 0x02, app_connected_app_id());
+            return handle_init(ctx,
+                               cdata,
+                               session_or_token == 0x02,
+                               app_connected_app_id(),
+                               old_session);
+        }
         case ATTEST_INPUT_SUBCOMMAND_TREE_CHUNK:
             CHECK_COMMAND(ctx, CMD_ATTEST_INPUT_BOX);
             CHECK_SESSION(ctx, session_or_token);
diff --git a/src/commands/signtx/stx_handler.c b/src/commands/signtx/stx_handler.c
index 0a27302..2da2061 100644
--- a/src/commands/signtx/stx_handler.c
+++ b/src/commands/signtx/stx_handler.c
@@ -61,7 +61,8 @@ static inline int show_output_screen_if_needed(sign_transaction_ctx_t *ctx) {
 static inline int handle_init_p2pk(sign_transaction_ctx_t *ctx,
                                    buffer_t *cdata,
                                    bool has_token,
-                                   uint32_t app_session_id) {
+                                   uint32_t app_session_id,
+                                   uint8_t old_session) {
     uint32_t app_session_id_in = 0;
     uint8_t network_id = 0;
     CHECK_READ_PARAM(ctx, buffer_read_u8(cdata, &network_id));
@@ -76,7 +77,7 @@ static inline int handle_init_p2pk(sign_transaction_ctx_t *ctx,
 
     ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;
     ctx->state = SIGN_TRANSACTION_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = session_id_new_random(old_session);
 
     // switch between operations if more will be added
     CHECK_CALL_RESULT_SW_OK(ctx,
@@ -282,13 +283,20 @@ int handler_sign_transaction(buffer_t *cdata,
     }
     sign_transaction_ctx_t *ctx = app_sign_transaction_context();
     switch (subcommand) {
-        case SIGN_TRANSACTION_SUBCOMMAND_SIGN_PK:
+        case SIGN_TRANSACTION_SUBCOMMAND_SIGN_PK: {
             if (session_or_token != 0x01 && session_or_token != 0x02) {
                 return res_error(SW_WRONG_P1P2);
             }
+            // the context is cleared by the new command
+            uint8_t old_session = app_current_session_id();
             app_set_current_command(CMD_SIGN_TRANSACTION);
 
-            return handle_init_p2pk(ctx, cdata, session_or_token == 0x02, app_connected_app_id());
+            return handle_init_p2pk(ctx,
+                                    cdata,
+                                    session_or_token == 0x02,
+                                    app_connected_app_id(),
+                                    old_session);
+        }
         case SIGN_TRANSACTION_SUBCOMMAND_START_TX:
             CHECK_COMMAND(ctx, CMD_SIGN_TRANSACTION);
             CHECK_SESSION(ctx, session_or_token);
diff --git a/src/context.h b/src/context.h
index 88cda12..9bc0fe1 100644
--- a/src/context.h
+++ b/src/context.h
@@ -83,6 +83,20 @@ static inline sign_transaction_ctx_t* app_sign_transaction_context(void) {
     return &G_app_context.commands_ctx.sign_tx;
 }
 
+/**
+ * Identifier of the session in progress. 0 if there is none.
+ */
+static inline uint8_t app_current_session_id(void) {
+    switch (app_current_command()) {
+        case CMD_ATTEST_INPUT_BOX:
+            return app_attest_input_context()->session;
+        case CMD_SIGN_TRANSACTION:
+            return app_sign_transaction_context()->session;
+        default:
+            return 0;
+    }
+}
+
 /**
  * Derive Address command context
  */
-- 
2.43.0


From 37f7d9552001a68aac5b3221c37dc2b95eaedafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 09/12] fix: version and name refuse a request with data, as
 documented

---
 src/apdu_dispatcher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/apdu_dispatcher.c b/src/apdu_dispatcher.c
index b81a665..f786985 100644
--- a/src/apdu_dispatcher.c
+++ b/src/apdu_dispatcher.c
@@ -26,11 +26,17 @@ int apdu_dispatcher(const command_t *cmd) {
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_version();
         case CMD_GET_APP_NAME:
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_app_name();
         case CMD_GET_EXTENDED_PUBLIC_KEY:
             if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 0) {
-- 
2.43.0


From ef0de87c68f6b9a3d87cbae2cb06db8fd3c25b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 10/12] fix: a path cut at the end of the display buffer is not
 shown as if complete

---
 src/commands/signtx/operations/stx_op_p2pk.c | 2 +-
 src/commands/signtx/stx_ui.c                 | 9 +++++----
 src/ui/ui_bip32_path.c                       | 8 +++++++-
 src/ui/ui_bip32_path.h                       | 6 ++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/commands/signtx/operations/stx_op_p2pk.c b/src/commands/signtx/operations/stx_op_p2pk.c
index bc85891..aae90f5 100644
--- a/src/commands/signtx/operations/stx_op_p2pk.c
+++ b/src/commands/signtx/operations/stx_op_p2pk.c
@@ -421,7 +421,7 @@ static NOINLINE uint16_t ui_stx_operation_p2pk_show_tx_screen(uint8_t index,
     sign_transaction_operation_p2pk_ctx_t *ctx = (sign_transaction_operation_p2pk_ctx_t *) cb_ctx;
     if (index != 0) return SW_BAD_STATE;
     strncpy(title, "P2PK Path", title_len);
-    if (!bip32_path_format(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
+    if (!ui_bip32_path_format(ctx->bip32.path, ctx->bip32.len, text, text_len)) {
         return SW_BIP32_FORMATTING_FAILED;
     }
     return SW_OK;
diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index a8e26de..71041b8 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -14,6 +14,7 @@
 #include "../../ergo/address.h"
 #include "../../ui/ui_application_id.h"
 #include "../../ui/ui_approve_reject.h"
+#include "../../ui/ui_bip32_path.h"
 #include "../../ui/ui_dynamic_flow.h"
 #include "../../ui/ui_menu.h"
 #include "../../ui/ui_main.h"
@@ -125,10 +126,10 @@ static inline uint16_t output_info_print_address(const sign_transaction_output_i
     switch (stx_output_info_type(ctx)) {
         case SIGN_TRANSACTION_OUTPUT_INFO_TYPE_BIP32: {
             strncpy(title, "Change", title_len);
-            if (!bip32_path_format(ctx->bip32_path.path,
-                                   ctx->bip32_path.len,
-                                   address,
-                                   address_len)) {
+            if (!ui_bip32_path_format(ctx->bip32_path.path,
+                                      ctx->bip32_path.len,
+                                      address,
+                                      address_len)) {
                 return SW_BIP32_FORMATTING_FAILED;
             }
             break;
diff --git a/src/ui/ui_bip32_path.c b/src/ui/ui_bip32_path.c
index f102513..6aa873c 100644
--- a/src/ui/ui_bip32_path.c
+++ b/src/ui/ui_bip32_path.c
@@ -1,3 +1,5 @@
+#include <string.h>
+
 #include "ui_bip32_path.h"
 #include "../common/bip32_ext.h"
 
@@ -30,6 +32,10 @@ const ux_flow_step_t ux_bip32_path_info_step = {
     NULL,
 };
 
+bool ui_bip32_path_format(const uint32_t* path, uint8_t path_len, char* out, size_t out_len) {
+    return bip32_path_format(path, path_len, out, out_len) && strlen(out) + 1 < out_len;
+}
+
 const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
                                            uint8_t path_len,
                                            const char* title,
@@ -40,7 +46,7 @@ const ux_flow_step_t* ui_bip32_path_screen(uint32_t* path,
     G_ui_path_params[0].title = title;
     G_ui_path_params[0].text = buffer;
     memset(buffer, 0, buffer_len);
-    if (!bip32_path_format(path, path_len, buffer, buffer_len)) {
+    if (!ui_bip32_path_format(path, path_len, buffer, buffer_len)) {
         return NULL;
     }
     G_ui_bip32_approve_callback = cb;
diff --git a/src/ui/ui_bip32_path.h b/src/ui/ui_bip32_path.h
index 88a61ed..10a27db 100644
--- a/src/ui/ui_bip32_path.h
+++ b/src/ui/ui_bip32_path.h
@@ -2,6 +2,12 @@
 
 #include <ux.h>
 #include <stdint.h>
+#include <stdbool.h>
+#include <stddef.h>
+
+// Formats the path. Fails if the text doesn't fit: bip32_path_format doesn't report
+// a last element cut at the end of the buffer, so a full buffer counts as a cut text
+bool ui_bip32_path_format(const uint32_t* path, uint8_t path_len, char* out, size_t out_len);
 
 typedef void (*ui_bip32_approve_callback)(void*);
 
-- 
2.43.0


From 5e9762f5896a5c8f55f82f010e1bd05d8e7d3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 11/12] fix: moving the write position of a buffer never passes
 its read position

---
 src/common/rwbuffer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/rwbuffer.c b/src/common/rwbuffer.c
index 686efe9..47e01ec 100644
--- a/src/common/rwbuffer.c
+++ b/src/common/rwbuffer.c
@@ -7,7 +7,8 @@
 #include "rwbuffer.h"
 
 bool rw_buffer_seek_write_set(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size ||           // exceed buffer size
+        offset < buffer->read.offset) {    // before the read position
         return false;
     }
     buffer->read.size = offset;
@@ -27,8 +28,7 @@ bool rw_buffer_seek_write_end(rw_buffer_t *buffer, size_t offset) {
     if (offset > buffer->size) {
         return false;
     }
-    buffer->read.size = buffer->size - offset;
-    return true;
+    return rw_buffer_seek_write_set(buffer, buffer->size - offset);
 }
 
 bool rw_buffer_write_u8(rw_buffer_t *buffer, uint8_t value) {
-- 
2.43.0


From 9fdf0aa8397e13d2d9b15b5d8f3c82ed35cd2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 12/12] fix: a script written by the device never follows a
 part of a streamed one

---
 src/ergo/tx_ser_box.c | 7 +++++++
 src/ergo/tx_ser_box.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index bfa77ff..166971f 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -147,6 +147,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tree(
         context->type = ERGO_TX_SERIALIZER_BOX_TYPE_TREE;
         return ergo_tree_added(context);
     }
+    context->tree_started = true;
     return ERGO_TX_SERIALIZER_BOX_RES_MORE_DATA;
 }
 
@@ -154,6 +155,9 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_miners_fee_tree(
     ergo_tx_serializer_box_context_t* context,
     bool is_mainnet) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
+    if (context->tree_started) {
+        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_STATE);
+    }
     const uint8_t* tree;
     size_t tree_len = 0;
     ergo_tree_miners_fee_tree(is_mainnet, &tree, &tree_len);
@@ -168,6 +172,9 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_change_tree(
     ergo_tx_serializer_box_context_t* context,
     const uint8_t raw_public_key[static PUBLIC_KEY_LEN]) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_BOX_STATE_INITIALIZED);
+    if (context->tree_started) {
+        return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_STATE);
+    }
 
     uint8_t tree[ERGO_TREE_P2PK_LEN];
     ergo_tree_generate_p2pk(raw_public_key, tree);
diff --git a/src/ergo/tx_ser_box.h b/src/ergo/tx_ser_box.h
index 1904502..1d899a2 100755
--- a/src/ergo/tx_ser_box.h
+++ b/src/ergo/tx_ser_box.h
@@ -63,6 +63,7 @@ typedef struct {
     uint32_t creation_height;
     uint32_t registers_size;
     uint8_t tokens_count;
+    bool tree_started;  // a part of the tree has been added
     ergo_tx_serializer_box_state_e state;
     ergo_tx_serializer_box_type_e type;
     cx_blake2b_t* hash;
-- 
2.43.0

