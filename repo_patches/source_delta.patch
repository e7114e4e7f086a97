From 99ec34c2d558f68b5acd0589d65b9d9c589b2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 01/36] fix: decode base64 and hex text only within the length
 of its buffer

---
 src/wickrcrypto/src/util.c | 39 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..46356f8 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -97,12 +97,11 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 	const char * objPointer = (const char *)strBase64->bytes;
 	if (objPointer == NULL)  return NULL;
 
-	size_t intLength = strlen(objPointer);
-    if (intLength > strBase64->length)
-        intLength = strBase64->length;
+	/* The input may not be null terminated, never look past its length */
+	size_t intLength = strnlen(objPointer, strBase64->length);
     
 	int intCurrent;
-	int i = 0, j = 0, k;
+	int i = 0, j = 0;
 
     wickr_buffer_t *objResult;
 	objResult = wickr_buffer_create_empty_zero(intLength);
@@ -110,9 +109,11 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while (intLength > 0) {
+		intCurrent = (unsigned char)*objPointer++;
+		intLength--;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
@@ -152,23 +153,6 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// mop things up if we ended on a boundary
-	k = j;
-	if (intCurrent == '=') {
-		switch (i % 4) {
-			case 1:
-				// Invalid state
-                wickr_buffer_destroy(&objResult);
-				return NULL;
-
-			case 2:
-				k++;
-				// flow through
-			case 3:
-				objResult->bytes[k] = 0;
-		}
-	}
-
     objResult->length = j;
 	return objResult;
 }
@@ -227,7 +211,11 @@ getDataFromHexString(const wickr_buffer_t *hexString)
         return NULL;
     
     const char * bytes = (const char *)hexString->bytes;
-    size_t length = strlen(bytes);
+    if (!bytes)
+        return NULL;
+    
+    /* The input may not be null terminated, never look past its length */
+    size_t length = strnlen(bytes, hexString->length);
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
@@ -237,10 +225,11 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     if (r != NULL) {
         unsigned char * index = r;
         
-        while ((*bytes) && (*(bytes +1))) {
+        while (length >= 2) {
             *index = strToChar(*bytes, *(bytes +1));
             index++;
             bytes+=2;
+            length-=2;
         }
         
         return result;
-- 
2.43.0


From be57a3d4a6543b1b8b3e2180afb308515cfdeaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 02/36] fix: include the complete signatures and the identity
 chain in cached validation verdicts

---
 src/wickrcrypto/src/identity_priv.c |  9 ++++++++-
 src/wickrcrypto/src/node_priv.c     | 11 ++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index c439ec3..51e0e80 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -257,17 +257,24 @@ wickr_buffer_t *wickr_identity_chain_make_status_cache(const wickr_identity_chai
         return NULL;
     }
     
+    wickr_buffer_t *signature_buffer = wickr_ecdsa_result_serialize(chain->node->signature);
+    
+    if (!signature_buffer) {
+        return NULL;
+    }
+    
     uint8_t status_int = (uint8_t)chain->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
     wickr_buffer_t *buffers[] = {
         chain->root->sig_key->pub_data,
-        chain->node->signature->sig_data,
+        signature_buffer,
         chain->node->sig_key->pub_data,
         &status_buffer
     };
     
     wickr_buffer_t *concat_buffer = wickr_buffer_concat_multi(buffers, BUFFER_ARRAY_LEN(buffers));
+    wickr_buffer_destroy(&signature_buffer);
     
     if (!concat_buffer) {
         return NULL;
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..db01f1f 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -116,16 +116,25 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
         return NULL;
     }
     
+    wickr_buffer_t *signature_buffer = wickr_ecdsa_result_serialize(node->ephemeral_keypair->signature);
+    
+    if (!signature_buffer) {
+        return NULL;
+    }
+    
     uint8_t status_int = (uint8_t)node->status;
     wickr_buffer_t status_buffer =  { .length = sizeof(uint8_t), .bytes = &status_int };
     
+    /* The verdict on a node also depends on its identity chain, so the state of the chain is part of the cached value */
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
-        node->ephemeral_keypair->signature->sig_data,
+        signature_buffer,
+        node->id_chain->_status_cache,
         &status_buffer
     };
     
     wickr_buffer_t *concat_buffer = wickr_buffer_concat_multi(buffers, BUFFER_ARRAY_LEN(buffers));
+    wickr_buffer_destroy(&signature_buffer);
     
     if (!concat_buffer) {
         return NULL;
-- 
2.43.0


From 5ade1f759d9eb95c59e517190efd3d49dc574101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 03/36] fix: only advance a stream when its packet was accepted

---
 src/wickrcrypto/src/stream_ctx.c | 49 +++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..99843ea 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -131,12 +131,16 @@ static wickr_stream_key_t *__wickr_stream_key_create_with_evo_buffer(wickr_strea
     return new_key;
 }
 
-static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder, uint64_t seq_num)
+/* Finds the key for 'seq_num' without changing the stream, so that it can be discarded if the packet is not accepted.
+   'evolved_key' is set to NULL if the current key of the stream is the key for 'seq_num' */
+static bool __wickr_stream_ctx_evolove_key_material(const wickr_stream_ctx_t *encoder, uint64_t seq_num, wickr_stream_key_t **evolved_key)
 {
-    if (!encoder) {
+    if (!encoder || !evolved_key) {
         return false;
     }
     
+    *evolved_key = NULL;
+    
     uint64_t curr_evo = encoder->last_seq / encoder->key->packets_per_evolution;
     uint64_t seq_evo = seq_num / encoder->key->packets_per_evolution;
 
@@ -177,12 +181,21 @@ static bool __wickr_stream_ctx_evolove_key_material(wickr_stream_ctx_t *encoder,
         curr_evo++;
     }
     
-    wickr_stream_key_destroy(&encoder->key);
-    encoder->key = curr_key;
+    *evolved_key = curr_key;
     
     return true;
 }
 
+static void __wickr_stream_ctx_advance(wickr_stream_ctx_t *ctx, wickr_stream_key_t *evolved_key, uint64_t seq_num)
+{
+    if (evolved_key) {
+        wickr_stream_key_destroy(&ctx->key);
+        ctx->key = evolved_key;
+    }
+    
+    ctx->last_seq = seq_num;
+}
+
 wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wickr_buffer_t *data, const wickr_buffer_t *aad, uint64_t seq_num)
 {
     if (!data || seq_num <= ctx->last_seq || ctx->direction != STREAM_DIRECTION_ENCODE) {
@@ -195,15 +208,23 @@ wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *ctx, const wi
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         wickr_buffer_destroy(&iv);
         return NULL;
     }
     
-    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, ctx->key->cipher_key, iv);
+    const wickr_stream_key_t *stream_key = evolved_key ? evolved_key : ctx->key;
+    wickr_cipher_result_t *encrypt_result = ctx->engine.wickr_crypto_engine_cipher_encrypt(data, aad, stream_key->cipher_key, iv);
     wickr_buffer_destroy(&iv);
     
-    ctx->last_seq = seq_num;
+    if (!encrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, evolved_key, seq_num);
     
     return encrypt_result;
 }
@@ -214,13 +235,21 @@ wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *ctx, const wickr_cip
         return NULL;
     }
     
-    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num)) {
+    wickr_stream_key_t *evolved_key = NULL;
+    
+    if (!__wickr_stream_ctx_evolove_key_material(ctx, seq_num, &evolved_key)) {
         return NULL;
     }
     
-    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, ctx->key->cipher_key, true);
+    const wickr_stream_key_t *stream_key = evolved_key ? evolved_key : ctx->key;
+    wickr_buffer_t *decrypt_result = ctx->engine.wickr_crypto_engine_cipher_decrypt(data, aad, stream_key->cipher_key, true);
     
-    ctx->last_seq = seq_num;
+    if (!decrypt_result) {
+        wickr_stream_key_destroy(&evolved_key);
+        return NULL;
+    }
+    
+    __wickr_stream_ctx_advance(ctx, evolved_key, seq_num);
     
     return decrypt_result;
 }
-- 
2.43.0


From 2160d771e528f6c5a2aee360a444aa30088a2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 04/36] fix: check which payload a handshake packet holds
 before reading it

---
 src/wickrcrypto/src/transport_handshake.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..78dd5ca 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,9 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    /* The seed and the response share storage, the payload case tells which one the packet holds */
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +513,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED
+        || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From 08fca7510d897f22fb368b8b83e40d99b56513e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 05/36] fix: keep the transport in error after a late identity
 verdict, and send the handshake volley before reporting the active state

---
 src/wickrcrypto/src/transport_ctx.c | 87 +++++++++++++++++------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..f0e298e 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -221,6 +221,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     wickr_stream_ctx_t *tx_stream = wickr_stream_ctx_create(ctx->engine, tx_key, STREAM_DIRECTION_ENCODE);
     
     if (!tx_stream) {
+        wickr_transport_handshake_res_destroy(&res);
         wickr_stream_key_destroy(&tx_key);
         return false;
     }
@@ -242,39 +243,71 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     ctx->rx_stream = rx_stream;
     ctx->tx_stream = tx_stream;
     
-    __wickr_transport_ctx_update_status(ctx, TRANSPORT_STATUS_ACTIVE);
-    
     return true;
 }
 
-static void __wickr_transport_validate_identity_complete(const wickr_transport_ctx_t *ctx, bool is_valid)
+/* Act upon the state the pending handshake is in after it processed a packet or an identity verdict */
+static void __wickr_transport_ctx_continue_handshake(wickr_transport_ctx_t *ctx,
+                                                     wickr_transport_packet_t *volley_packet,
+                                                     wickr_transport_error handshake_err,
+                                                     wickr_transport_error volley_err)
 {
-    /* Remove const for internal work */
-    wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
-    
-    wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
+    wickr_transport_handshake_status handshake_status = wickr_transport_handshake_get_status(ctx->pending_handshake);
+    bool is_finalized = false;
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+    if (handshake_status == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
+        is_finalized = __wickr_transport_ctx_finalize_handshake(ctx);
     }
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
+    if (handshake_status == TRANSPORT_HANDSHAKE_STATUS_FAILED ||
+        (handshake_status == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION && !is_finalized)) {
+        wickr_transport_packet_destroy(&volley_packet);
+        __wickr_transport_ctx_set_error(ctx, handshake_err);
         return;
     }
     
+    wickr_buffer_t *volley_buffer = NULL;
+    
     if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
+        volley_buffer = wickr_transport_packet_serialize(volley_packet);
         wickr_transport_packet_destroy(&volley_packet);
         
         if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
+            __wickr_transport_ctx_set_error(ctx, volley_err);
             return;
         }
-        
-        _ctx->callbacks.tx(ctx, volley_buffer);
     }
     
+    if (is_finalized) {
+        ctx->status = TRANSPORT_STATUS_ACTIVE;
+    }
+    
+    /* The remote can't process data before it has the volley, so it has to be passed on before the user is told the
+       transport is active and may begin to send */
+    if (volley_buffer) {
+        ctx->callbacks.tx(ctx, volley_buffer);
+    }
+    
+    if (is_finalized && ctx->status == TRANSPORT_STATUS_ACTIVE) {
+        ctx->callbacks.on_state(ctx, TRANSPORT_STATUS_ACTIVE);
+    }
+}
+
+static void __wickr_transport_validate_identity_complete(const wickr_transport_ctx_t *ctx, bool is_valid)
+{
+    /* Remove const for internal work */
+    wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
+    
+    /* A verdict that arrives after an error can't bring the transport back */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
+    wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
+    
+    __wickr_transport_ctx_continue_handshake(_ctx, volley_packet,
+                                             TRANSPORT_ERROR_HANDSHAKE_FAILED,
+                                             TRANSPORT_ERROR_HANDSHAKE_VOLLEY_FAILED);
 }
 
 static void __wickr_transport_handshake_identity_callback(const wickr_transport_handshake_t *handshake,
@@ -385,27 +418,9 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
-    }
-    
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
-        __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
-        return;
-    }
-    
-    if (volley_packet) {
-        wickr_buffer_t *volley_buffer = wickr_transport_packet_serialize(volley_packet);
-        wickr_transport_packet_destroy(&volley_packet);
-        
-        if (!volley_buffer) {
-            __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
-            return;
-        }
-        
-        ctx->callbacks.tx(ctx, volley_buffer);
-    }
-    
+    __wickr_transport_ctx_continue_handshake(ctx, volley_packet,
+                                             TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED,
+                                             TRANSPORT_ERROR_PACKET_SERIALIZATION_FAILED);
 }
 
 static bool __wickr_transport_ctx_can_process_handshake(const wickr_transport_ctx_t *ctx)
-- 
2.43.0


From f55d3b02737d0c833e3d40abaaef90b6ca5358a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 06/36] fix: refuse to start a transport whose handshake is
 pending verification

---
 src/wickrcrypto/src/transport_ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index f0e298e..3dfea2f 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -340,7 +340,8 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    /* A handshake started by the remote may be pending while the status is still none */
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From 4b87d1c0e62927f1131ea7aa208320255d284d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 07/36] fix: copy the complete state of a transport context

---
 src/wickrcrypto/src/transport_ctx.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 3dfea2f..301a6c5 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -98,6 +98,16 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
+    wickr_transport_handshake_t *handshake_copy = wickr_transport_handshake_copy(ctx->pending_handshake);
+    
+    if (!handshake_copy && ctx->pending_handshake) {
+        wickr_identity_chain_destroy(&local_copy);
+        wickr_identity_chain_destroy(&remote_copy);
+        wickr_stream_ctx_destroy(&tx_copy);
+        wickr_stream_ctx_destroy(&rx_copy);
+        return NULL;
+    }
+    
     wickr_transport_ctx_t *copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
     
     if (!copy) {
@@ -105,15 +115,21 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         wickr_identity_chain_destroy(&remote_copy);
         wickr_stream_ctx_destroy(&tx_copy);
         wickr_stream_ctx_destroy(&rx_copy);
+        wickr_transport_handshake_destroy(&handshake_copy);
         return NULL;
     }
     
+    /* The identity callback of the handshake has to reach the copy, not the original */
+    wickr_transport_set_user_data(handshake_copy, copy);
+    
     copy->engine = ctx->engine;
     copy->local_identity = local_copy;
     copy->remote_identity = remote_copy;
     copy->tx_stream = tx_copy;
     copy->rx_stream = rx_copy;
+    copy->pending_handshake = handshake_copy;
     copy->status = ctx->status;
+    copy->err = ctx->err;
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
-- 
2.43.0


From dab67658312f5532ab0a8afc82e047e34a6f6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 08/36] fix: refuse serialised signatures with nonzero padding

---
 src/wickrcrypto/src/ecdsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..816d076 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -39,6 +39,14 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
     }
     
     size_t start_loc = ECDSA_HEADER_SIZE + padding_size;
+    
+    /* Padding is always zero, anything else would be another representation of the same signature */
+    for (size_t i = ECDSA_HEADER_SIZE; i < start_loc; i++) {
+        if (buffer->bytes[i] != 0) {
+            return NULL;
+        }
+    }
+    
     wickr_buffer_t *key_data = wickr_buffer_copy_section(buffer, start_loc, buffer->length - start_loc);
     
     if (!key_data) {
-- 
2.43.0


From c9486de348b87fbfc084750b2ba81b4ab1d15353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 09/36] fix: refuse IVs and keys of the wrong length and
 oversized associated data

---
 src/wickrcrypto/src/openssl_suite.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..d6e81ec 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -405,7 +405,12 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
     wickr_cipher_t cipher = key->cipher;
     
     /* OpenSSL does not allow encryption of buffers greater than INT_MAX size */
-    if (key->key_data->length != cipher.key_len || plaintext->length > INT_MAX) {
+    if (key->key_data->length != cipher.key_len || plaintext->length > INT_MAX || (aad && aad->length > INT_MAX)) {
+        return NULL;
+    }
+    
+    /* An IV that is passed in must be the length the cipher reads */
+    if (iv && iv->length != cipher.iv_len) {
         return NULL;
     }
     
@@ -519,7 +524,14 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     }
     
     /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
-    if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || cipher_result->cipher_text->length > INT_MAX) {
+    if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || cipher_result->cipher_text->length > INT_MAX ||
+        (aad && aad->length > INT_MAX)) {
+        return NULL;
+    }
+    
+    /* The key and the IV must be the length the cipher reads */
+    if (!key->key_data || key->key_data->length != cipher_result->cipher.key_len ||
+        !cipher_result->iv || cipher_result->iv->length != cipher_result->cipher.iv_len) {
         return NULL;
     }
     
@@ -569,7 +581,7 @@ wickr_buffer_t *openssl_aes256_decrypt(const wickr_cipher_result_t *cipher_resul
     
     /* Update the AAD if needed */
     
-    if (aad && aad->length <= INT_MAX) {
+    if (aad) {
         if (1 != EVP_DecryptUpdate(ctx, NULL, &temp_length, aad->bytes, (int)aad->length)) {
             goto process_error;
         }
-- 
2.43.0


From a8c64cd9806f8d0227b8639eab7dab354ca50e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 10/36] fix: convert only valid-sized, canonically encoded
 signatures to raw form

---
 src/wickrcrypto/src/openssl_suite.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index d6e81ec..48f68f4 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -960,8 +960,9 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    /* BN_bn2binpad returns -1 when the number does not fit */
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
@@ -996,6 +997,18 @@ wickr_buffer_t *openssl_ecdsa_to_raw(const wickr_ecdsa_result_t *input)
         return NULL;
     }
     
+    /* Verification only accepts the one canonical encoding of a signature, so nothing else can be converted either */
+    uint8_t *canonical = NULL;
+    int canonical_len = i2d_ECDSA_SIG(sig, &canonical);
+    bool is_canonical = canonical_len > 0 && (size_t)canonical_len == input->sig_data->length &&
+        memcmp(canonical, input->sig_data->bytes, input->sig_data->length) == 0;
+    OPENSSL_free(canonical);
+    
+    if (!is_canonical) {
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
+    
     wickr_buffer_t *out_buffer = wickr_buffer_create_empty_zero(input->curve.raw_signature_size);
     
     if (!out_buffer) {
-- 
2.43.0


From 694c2be04d38091f9d865c8548f55ac7299aedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 11/36] fix: do not leak the computed code when there is
 nothing to compare with

---
 src/wickrcrypto/src/openssl_suite.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 48f68f4..c61116d 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1231,10 +1231,14 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
     
     bool openssl_hmac_verify(const wickr_buffer_t *data, const wickr_buffer_t *hmac_key, wickr_digest_t mode, const wickr_buffer_t *expected)
     {
+        if (!expected) {
+            return false;
+        }
+        
         /* Compute the expected HMAC */
         wickr_buffer_t *computed_hmac = openssl_hmac_create(data, hmac_key, mode);
         
-        if (!expected || !computed_hmac) {
+        if (!computed_hmac) {
             return false;
         }
         
-- 
2.43.0


From 8ec4b8055c497ca37a8a441103e1ab0bb87f5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 12/36] fix: refuse output sizes the expansion parameters
 cannot represent

---
 src/wickrcrypto/src/kdf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..a1b1ee8 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -68,7 +68,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
     }
     
     wickr_kdf_algo_t algo = KDF_HKDF_SHA512_EXPAND;
-    algo.output_size = output_size;
+    
+    /* The output size has to be one that the algorithm can represent */
+    if (output_size == 0 || output_size > UINT8_MAX) {
+        return NULL;
+    }
+    
+    algo.output_size = (uint8_t)output_size;
     
     return wickr_kdf_meta_create(algo, NULL, info);
 }
-- 
2.43.0


From e731fc38506cba95be033441f41e6125026a486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 13/36] fix: decrypt files only with keys of the cipher they
 name

---
 src/wickrcrypto/src/openssl_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index c61116d..16f36ae 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1443,8 +1443,8 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             goto process_error;
         }
         
-        /* OpenSSL does not allow decryption of buffers greater than INT_MAX in length */
-        if (key->key_data->length != cipher_result->cipher.key_len) {
+        /* The file has to be encrypted with the cipher that the key belongs to, the header alone can't be trusted to choose it */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id || key->key_data->length != cipher_result->cipher.key_len) {
             goto process_error;
         }
         
-- 
2.43.0


From 01a16a7186643dadbf3ca592a38f952aa5d1d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 14/36] fix: never use an existing file as the temporary file

---
 src/wickrcrypto/src/openssl_file_suite.c | 25 +++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..d670f22 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -13,6 +13,7 @@
 
 #include <limits.h>
 
+#include <errno.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -21,6 +22,9 @@
 #else
 #endif
 
+#define TEMP_FILE_SUFFIX_DIGITS 3
+#define TEMP_FILE_MAX_ATTEMPTS 1000
+
 typedef struct AESFileOperation {
     char *tempPath;
     FILE *sourceHandle;
@@ -93,7 +97,7 @@ static AESFileOperation *createFileOperation(const char *source, const char *des
     }
     
     // Open the Destination file for writing
-    const size_t len = strlen(destination) + 6;
+    const size_t len = strlen(destination) + 6 + TEMP_FILE_SUFFIX_DIGITS;
     tempPath = wickr_alloc(len);
 
     if (!tempPath)
@@ -105,13 +109,20 @@ static AESFileOperation *createFileOperation(const char *source, const char *des
     if (windowsOpenFile(&destinationHandle, tempPath, L"wb") != 0 || !destinationHandle) {
         goto process_error;
     }
-#elif defined(__ANDROID__)
-    destinationHandle = fopen(tempPath, "wb");
-    if (! destinationHandle) {
-        goto process_error;
-    }
 #else
-    destinationHandle = fopen(tempPath, "wb");
+    // Never open an existing file as the temporary file, it may be the source or any other file of the user
+    for (unsigned int attempt = 1; !destinationHandle && attempt < TEMP_FILE_MAX_ATTEMPTS; attempt++) {
+        destinationHandle = fopen(tempPath, "wbx");
+        
+        if (!destinationHandle && errno != EEXIST) {
+            break;
+        }
+        
+        if (!destinationHandle) {
+            snprintf(tempPath, len, "%s.temp%u", destination, attempt);
+        }
+    }
+    
     if (! destinationHandle) {
         goto process_error;
     }
-- 
2.43.0


From c834fc1d321eebc4ebd1221cbfd8e102adf2daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 15/36] fix: check every read, write, seek and close of file
 operations

---
 src/wickrcrypto/src/openssl_file_suite.c | 15 ++++++--
 src/wickrcrypto/src/openssl_suite.c      | 44 +++++++++++++++++++-----
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index d670f22..9207f7a 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -157,19 +157,28 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+    bool retVal = true;
+    
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		/* Closing the destination writes out what is still buffered */
+		if (fclose(operation->destinationHandle)) {
+			retVal = false;
+		}
 		operation->destinationHandle = NULL;
 	}
+    
+    return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 16f36ae..8ad2bdf 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1258,7 +1258,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             return false;
         }
         
-        rewind(out_file);
+        if (fseek(out_file, 0, SEEK_SET) != 0) {
+            return false;
+        }
         
         EVP_CIPHER_CTX *ctx = NULL;
         unsigned char *cipherBuffer = NULL;
@@ -1323,6 +1325,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            /* A read error is not the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1361,13 +1368,23 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        if (fseek(out_file, 0, SEEK_SET) != 0) {
+            goto process_error;
+        }
+        
+        size_t header_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (header_written != serialized->length) {
+            goto process_error;
+        }
+        
+        /* Make sure that everything is written before reporting success */
+        if (fflush(out_file) != 0) {
+            goto process_error;
         }
         
         ret_val = true;
@@ -1493,6 +1510,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            /* A read error is not the end of the file */
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
@@ -1516,6 +1538,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
                 break;
             }
         }
+        
+        /* Make sure that everything is written before reporting success */
+        if (fflush(out_file) != 0) {
+            goto process_error;
+        }
+        
         ret_val = true;
         
     process_error:
-- 
2.43.0


From 1b94a69098f80fe3dcebda3ec193838461d3a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 16/36] fix: release the derived key when deciphering malformed
 passphrase data

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From 31a28142841bc0831141cd0fd76f51c0456d4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 17/36] fix: refuse serialized node identities that carry no
 signature

---
 src/wickrcrypto/src/identity_priv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/identity_priv.c b/src/wickrcrypto/src/identity_priv.c
index 51e0e80..5512364 100644
--- a/src/wickrcrypto/src/identity_priv.c
+++ b/src/wickrcrypto/src/identity_priv.c
@@ -140,6 +140,13 @@ wickr_identity_t *wickr_identity_create_from_proto(const Wickr__Proto__Identity
     
     wickr_identity_type type = proto_identity->type == WICKR__PROTO__IDENTITY__TYPE__IDENTITY_TYPE_NODE ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT;
     
+    /* A node identity is always signed by its root */
+    if (type == IDENTITY_TYPE_NODE && !signature) {
+        wickr_buffer_destroy(&id_buffer);
+        wickr_ec_key_destroy(&sig_key);
+        return NULL;
+    }
+    
     wickr_identity_t *identity = wickr_identity_create(type, id_buffer, sig_key, signature);
     
     if (!identity) {
-- 
2.43.0


From 4d0991bdbf372a4684369d5e5e26b34e7c411f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 18/36] fix: refuse serialized signatures longer than their
 curve allows

---
 src/wickrcrypto/src/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index 816d076..d665560 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -28,7 +28,7 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
     const wickr_ec_curve_t *curve = wickr_ec_curve_find((buffer->bytes[0] & 0xF0) >> 4);
     const wickr_digest_t *digest_mode = wickr_digest_find_with_id(buffer->bytes[0] & 0xF);
     
-    if (!curve || !digest_mode) {
+    if (!curve || !digest_mode || buffer->length > curve->signature_size) {
         return NULL;
     }
     
-- 
2.43.0


From fdfbe81e20d611d53a9039180fda5cb543f37267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:17 +0000
Subject: [PATCH 19/36] fix: release the signature of packets refused for its
 type

---
 src/wickrcrypto/src/protocol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..41e620f 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -358,6 +358,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
@@ -395,6 +396,7 @@ wickr_buffer_t *wickr_packet_serialize(const wickr_packet_t *packet)
     wickr_buffer_t *sig_data = wickr_ecdsa_result_serialize(packet->signature);
     
     if (!sig_data || sig_data->length != packet->signature->curve.signature_size) {
+        wickr_buffer_destroy(&sig_data);
         return NULL;
     }
     
-- 
2.43.0


From c2e601119c4a787728c4cecef9952726a30af9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 20/36] fix: release the user data of refused stream keys

---
 src/wickrcrypto/src/stream_key_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..3ee86d0 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -100,6 +100,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From 01aab0256148c538f04dc9faeb2402a1e0bc9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 21/36] fix: handle allocation and library failures in the
 OpenSSL suite

---
 src/wickrcrypto/src/openssl_suite.c | 96 ++++++++++++++++++++++++-----
 1 file changed, 82 insertions(+), 14 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 8ad2bdf..eedc914 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -113,13 +113,15 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
     /* Allocate a new EVP key */
     EVP_PKEY *evp_signing_key = EVP_PKEY_new();
     
-    if (!evp_signing_key) {
-        return NULL;
-    }
-    
     /* Convert the EC_KEY structure to an EVP_PKEY */
-    if (1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
+    if (!evp_signing_key || 1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
         EVP_PKEY_free(evp_signing_key);
+        
+        /* An existing key still belongs to the caller */
+        if (!existing) {
+            EC_KEY_free(key);
+        }
+        
         return NULL;
     }
     
@@ -128,7 +130,12 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
 
 static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC_KEY *key)
 {
-    size_t key_size = i2o_ECPublicKey(key, NULL);
+    int key_size = i2o_ECPublicKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
     wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + key_size);
     
     if (!pub_key_data) {
@@ -144,7 +151,7 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
     }
     
     uint8_t* bytes = pub_key_data->bytes + sizeof(uint8_t);
-    if (!i2o_ECPublicKey(key, &bytes)) {
+    if (i2o_ECPublicKey(key, &bytes) != key_size) {
         wickr_buffer_destroy(&pub_key_data);
         return NULL;
     }
@@ -154,7 +161,12 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
 
 static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
 {
-    size_t key_size = i2d_ECPrivateKey(key, NULL);
+    int key_size = i2d_ECPrivateKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
     wickr_buffer_t *pri_key_data = wickr_buffer_create_empty_zero(key_size);
     
     if (!pri_key_data) {
@@ -162,7 +174,7 @@ static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
     }
     
     uint8_t *bytes = pri_key_data->bytes;
-    if (!i2d_ECPrivateKey(key, &bytes)) {
+    if (i2d_ECPrivateKey(key, &bytes) != key_size) {
         wickr_buffer_destroy_zero(&pri_key_data);
         return NULL;
     }
@@ -221,6 +233,10 @@ static EVP_MD_CTX * __openssl_digest_ctx_create(wickr_digest_t digest_mode)
     
     EVP_MD_CTX *ctx = EVP_MD_CTX_create();
     
+    if (!ctx) {
+        return NULL;
+    }
+    
     /* Initialize a digest context using the requested digest mode */
     if (1 != EVP_DigestInit_ex(ctx, digest, NULL)) {
         EVP_MD_CTX_destroy(ctx);
@@ -250,6 +266,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -277,6 +294,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -360,6 +378,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
@@ -482,9 +504,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!cipher_result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return cipher_result;
     
 process_error:
     if (auth_tag) {
@@ -665,6 +693,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
@@ -744,13 +777,13 @@ wickr_ec_key_t *openssl_ec_rand_key(wickr_ec_curve_t curve)
     /* Generate an EC_KEY struct with the selected curve */
     EC_KEY *new_key = EC_KEY_new_by_curve_name(nid);
     
-    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
-    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
-    
     if (!new_key) {
         return NULL;
     }
     
+    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
+    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
+    
     /* Generate a random  key pair  and store it in new_key */
     if (1 != EC_KEY_generate_key(new_key)) {
         EC_KEY_free(new_key);
@@ -1068,11 +1101,15 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
 #ifdef OPENSSL_IS_AWSLC
         if (!ECDSA_SIG_set0(sig, r, s)) {
+            BN_free(r);
+            BN_free(s);
             ECDSA_SIG_free(sig);
             return NULL;
         }
 #elif OPENSSL_VERSION_NUMBER >= 0x010100000
         if (!ECDSA_SIG_set0(sig, r, s)) {
+            BN_free(r);
+            BN_free(s);
             ECDSA_SIG_free(sig);
             return NULL;
         }
@@ -1083,7 +1120,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         sig->s = s;
 #endif
         
-        size_t sig_size = i2d_ECDSA_SIG(sig, NULL);
+        int sig_size = i2d_ECDSA_SIG(sig, NULL);
+        
+        if (sig_size <= 0) {
+            ECDSA_SIG_free(sig);
+            return NULL;
+        }
         
         wickr_buffer_t *sig_data = wickr_buffer_create_empty_zero(sig_size);
         
@@ -1095,6 +1137,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         uint8_t *bytes = sig_data->bytes;
         
         if (sig_size != i2d_ECDSA_SIG(sig, &bytes)) {
+            ECDSA_SIG_free(sig);
             wickr_buffer_destroy(&sig_data);
             return NULL;
         }
@@ -1271,6 +1314,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1320,6 +1369,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         // Use a 4kb block size
         unsigned char plainBuffer[4096];
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        
+        if (!cipherBuffer) {
+            goto process_error;
+        }
+        
         int outlength = 0;
         
         for (;;) {
@@ -1454,6 +1508,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&cipher_buffer);
+            return false;
+        }
+        
         unsigned char *plainBuffer = NULL;
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
@@ -1475,6 +1534,10 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
         
+        if (!ctx) {
+            goto process_error;
+        }
+        
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
             goto process_error;
@@ -1505,6 +1568,11 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         unsigned char cipherBuffer[4096];
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
+        
+        if (!plainBuffer) {
+            goto process_error;
+        }
+        
         int outlength = 0;
         
         for (;;) {
-- 
2.43.0


From ff3e3b9ce8e04fd8a415d7d012154e7e8b7bccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 22/36] fix: remove the temporary file when the file operation
 cannot be allocated

---
 src/wickrcrypto/src/openssl_file_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 9207f7a..7b81f80 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -144,6 +144,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
-- 
2.43.0


From 1d0e76edd9ae878e3f984bf01f367ce456ca2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 23/36] fix: handle allocation failures in cipher results and
 keys

---
 src/wickrcrypto/src/cipher.c | 46 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..32314d9 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,6 +31,11 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->cipher = cipher;
     
     
@@ -55,12 +60,25 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *copy = NULL;
+    
+    /* Every part that the original has must have been copied */
+    if ((cipher_text_copy || !result->cipher_text) && (auth_tag_copy || !result->auth_tag)) {
+        copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
 {
-    if (!*result) {
+    if (!result || !*result) {
         return;
     }
     
@@ -160,7 +178,16 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&auth_tag);
+        wickr_buffer_destroy(&cipher_text);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -170,6 +197,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
@@ -241,5 +273,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
-- 
2.43.0


From 6d01cc8b87d28ca44550fd114f385ec29ad170f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 24/36] fix: handle allocation failures in EC keys and
 signatures

---
 src/wickrcrypto/src/ecdsa.c | 25 +++++++++++++++++++++++--
 src/wickrcrypto/src/eckey.c | 14 +++++++++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index d665560..187fccd 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
@@ -53,7 +58,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
@@ -75,6 +86,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (!pad_buffer && pad_count > 0) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
@@ -92,7 +107,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *copy = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..a82c425 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
@@ -40,7 +45,14 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
-- 
2.43.0


From e5c9ea29bda851a89eab17897ac7207dc90039db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 25/36] fix: handle allocation failures in storage keys

---
 src/wickrcrypto/src/storage.c      | 5 +++++
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..7b6c078 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -58,6 +58,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..c517010 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -23,6 +23,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From bafa8f474092bccae852614493e02d988d187989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 26/36] fix: a transport handshake must not drop the expected
 remote identity

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 301a6c5..0389b39 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -339,6 +339,12 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    /* A handshake without the expected remote identity would accept any other one */
+    if (ctx->remote_identity && !remote_copy) {
+        wickr_identity_chain_destroy(&local_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From ec89a7a9ae5abdff81c7bc1ae5c3dfb7c3f22555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 27/36] fix: handle allocation failures in the transport
 handshake

---
 src/wickrcrypto/src/transport_handshake.c      |  9 +++++++--
 src/wickrcrypto/src/transport_handshake_priv.c | 13 ++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 78dd5ca..0838a8a 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -350,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
@@ -488,6 +489,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
@@ -562,6 +564,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -726,7 +730,8 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
-        if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+        if (identity_chain_copy == NULL) {
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
             return NULL;
         }
         
diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..8cc7e77 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -26,13 +26,8 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->has_identity_required = true;
     seed->identity_required = needs_remote_identity;
     
-    if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
-        wickr_free(seed);
-        return NULL;
-    }
-    
-    if (!seed->id_chain) {
-        wickr_free(seed);
+    if (!seed->id_chain || !wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
@@ -132,12 +127,12 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
     }
     
     if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
     if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
-- 
2.43.0


From 932172b4e81511c0e8e78c26f201f7784ee1ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 28/36] fix: signing a transport packet again replaces its mac

---
 src/wickrcrypto/src/transport_packet.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..859d44b 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -291,11 +291,11 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
             return false;
     }
     
-    wickr_transport_packet_mac_type old_mac_type = pkt->meta.mac_type;
+    /* Sign the packet without the mac it may already carry */
+    wickr_transport_packet_t unsigned_pkt = { .meta = pkt->meta, .body = pkt->body };
+    unsigned_pkt.meta.mac_type = new_mac_type;
     
-    pkt->meta.mac_type = new_mac_type;
-    wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(pkt);
-    pkt->meta.mac_type = old_mac_type;
+    wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(&unsigned_pkt);
     
     if (!data_to_sign) {
         return false;
@@ -315,6 +315,9 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
         return false;
     }
     
+    wickr_buffer_destroy(&pkt->mac);
+    wickr_buffer_destroy(&pkt->network_buffer);
+    
     pkt->mac = signature_buffer;
     pkt->meta.mac_type = new_mac_type;
     
-- 
2.43.0


From f6a99c39726d3a32d4a7fb27718e317496dbe312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 29/36] fix: handle allocation failures in streams and
 transport root keys

---
 src/wickrcrypto/src/stream_ctx.c         | 1 +
 src/wickrcrypto/src/stream_key.c         | 2 +-
 src/wickrcrypto/src/stream_key_priv.c    | 1 +
 src/wickrcrypto/src/transport_root_key.c | 4 +++-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 99843ea..3cbe2ae 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..ab8979e 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -110,7 +110,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 3ee86d0..c29218e 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -34,6 +34,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     }
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
+        wickr_free(proto);
         wickr_buffer_destroy_zero(&key_buffer);
         return NULL;
     }
diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..56c9bb8 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -90,7 +90,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
                                                            const wickr_buffer_t *stream_id,
                                                            wickr_stream_direction direction)
 {
-    if (!root_key || !salt || !stream_id) {
+    if (!root_key || !engine || !salt || !stream_id) {
         return NULL;
     }
     
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From 7c76f905820da300d49f9a8248f28c7e9ef43262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 30/36] fix: handle allocation failures in packets and key
 exchanges

---
 src/wickrcrypto/src/array.c        |  4 ++++
 src/wickrcrypto/src/key_exchange.c |  7 ++++++-
 src/wickrcrypto/src/packet_meta.c  |  5 +++++
 src/wickrcrypto/src/protocol.c     | 26 ++++++++++++++++++++++++++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/array.c b/src/wickrcrypto/src/array.c
index 20ad7c4..85c9ad1 100644
--- a/src/wickrcrypto/src/array.c
+++ b/src/wickrcrypto/src/array.c
@@ -124,6 +124,10 @@ wickr_array_t *wickr_array_copy(const wickr_array_t *array, bool deep_copy)
     
     wickr_array_t *copy_array = wickr_array_new(array->size, array->item_type, array->item_copy_func, array->item_destroy_func);
     
+    if (!copy_array) {
+        return NULL;
+    }
+    
     for (unsigned int i = 0; i < array->size; i++) {
         void *one_item = __wickr_array_pointer_to_index(array, i);
         
diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..73a0cbf 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
@@ -202,7 +207,7 @@ wickr_key_exchange_t *wickr_key_exchange_set_find(const wickr_key_exchange_set_t
     
     for (uint32_t i = 0; i < wickr_array_get_item_count(exchange_set->exchanges); i++) {
         wickr_key_exchange_t *one_exchange = wickr_exchange_array_fetch_item(exchange_set->exchanges, i);
-        if (wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
+        if (one_exchange && wickr_buffer_is_equal(identifier, one_exchange->exchange_id, NULL)) {
             return wickr_key_exchange_copy(one_exchange);
         }
     }
diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 41e620f..06baf4e 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
@@ -493,6 +498,15 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
+    if ((source->key_exchange_set && !header_copy) ||
+        (source->enc_payload && !enc_payload_copy) ||
+        (source->key_exchange && !key_exchange_copy)) {
+        wickr_key_exchange_set_destroy(&header_copy);
+        wickr_cipher_result_destroy(&enc_payload_copy);
+        wickr_key_exchange_destroy(&key_exchange_copy);
+        return NULL;
+    }
+    
     wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
     
     if (!copy) {
@@ -552,10 +566,18 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
+    if ((result->decrypted_payload && !payload_copy) ||
+        (result->payload_key && !cipher_key_copy)) {
+        wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
+        return NULL;
+    }
+    
     wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
@@ -615,6 +637,10 @@ wickr_packet_t *wickr_packet_create_from_components(const wickr_crypto_engine_t
     
     wickr_exchange_array_t *exchange_array = wickr_exchange_array_new(recipient_count);
     
+    if (!exchange_array) {
+        return NULL;
+    }
+    
     for (int i = 0; i < recipient_count; i++) {
         
         wickr_node_t *one_node = wickr_node_array_fetch_item(recipients, i);
-- 
2.43.0


From d217e0c58801c21ffe719bb06ae8ae86c73dea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 31/36] fix: handle allocation failures in identities, nodes
 and fingerprints

---
 src/wickrcrypto/src/fingerprint.c |  4 ++++
 src/wickrcrypto/src/identity.c    |  6 ++++++
 src/wickrcrypto/src/node.c        | 18 +++++++++---------
 src/wickrcrypto/src/node_priv.c   |  1 +
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..87033b5 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -181,6 +181,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..171f9e1 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -91,6 +91,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 0bb0253..61f1d93 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -31,21 +31,21 @@ bool wickr_node_rotate_keypair(wickr_node_t *node, wickr_ephemeral_keypair_t *ne
         return false;
     }
     
-    wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
-    
-    node->status = NODE_STATUS_UNKNOWN;
-    
+    /* Keep the current key pair until the new one is available */
     if (copy) {
-        wickr_ephemeral_keypair_t *copy_keypair = wickr_ephemeral_keypair_copy(new_keypair);
-        if (!copy_keypair) {
+        new_keypair = wickr_ephemeral_keypair_copy(new_keypair);
+        if (!new_keypair) {
             return false;
         }
-        node->ephemeral_keypair = copy_keypair;
     }
-    else {
-        node->ephemeral_keypair = new_keypair;
+    
+    if (node->ephemeral_keypair != new_keypair) {
+        wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
     }
     
+    node->status = NODE_STATUS_UNKNOWN;
+    node->ephemeral_keypair = new_keypair;
+    
     return true;
 }
 
diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index db01f1f..eaaddfb 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From ceddb88f69705d8a0af0ab99408eb6b7191b629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 32/36] fix: handle allocation failures in root keys, device
 info and KDFs

---
 src/wickrcrypto/src/devinfo.c   |  2 +-
 src/wickrcrypto/src/kdf.c       | 47 ++++++++++++++++++++++++++++-----
 src/wickrcrypto/src/root_keys.c |  4 +--
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/wickrcrypto/src/devinfo.c b/src/wickrcrypto/src/devinfo.c
index 8e962bc..cbebf98 100644
--- a/src/wickrcrypto/src/devinfo.c
+++ b/src/wickrcrypto/src/devinfo.c
@@ -108,7 +108,7 @@ wickr_dev_info_t *wickr_dev_info_copy(const wickr_dev_info_t *info)
     
     wickr_buffer_t *system_salt_copy = wickr_buffer_copy(info->system_salt);
     
-    if (!system_salt_copy) {
+    if (info->system_salt && !system_salt_copy) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index a1b1ee8..ef44ef6 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -122,7 +122,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy_zero(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -164,7 +170,14 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy_zero(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -216,7 +229,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -310,7 +330,13 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
+    if (!passphrase_final) {
+        wickr_buffer_destroy(&salt_buffer);
+        return NULL;
+    }
+    
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
@@ -319,12 +345,12 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     memset(&out, 0, BCRYPT_HASH_SIZE);
     
     if (!crypt_rn((char *)passphrase_final->bytes, (char *)salt_buffer->bytes, out, BCRYPT_HASH_SIZE)) {
-        wickr_buffer_destroy(&passphrase_final);
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
     
-    wickr_buffer_destroy(&passphrase_final);
+    wickr_buffer_destroy_zero(&passphrase_final);
     
     wickr_buffer_t *hash_buffer = wickr_buffer_create((uint8_t *)out, strlen(out));
     wickr_buffer_destroy(&salt_buffer);
@@ -467,11 +493,18 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
     wickr_kdf_meta_t *result_meta = wickr_kdf_meta_copy(existing_meta);
     
     if (!result_meta) {
-        wickr_buffer_destroy(&hash_output);
+        wickr_buffer_destroy_zero(&hash_output);
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..0f4d2fb 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -48,7 +48,7 @@ wickr_root_keys_t *wickr_root_keys_generate(const wickr_crypto_engine_t *engine)
     
     wickr_ec_key_t *new_signature_root = engine->wickr_crypto_engine_ec_rand_key(engine->default_curve);
     
-    if (!new_node_storage_root) {
+    if (!new_signature_root) {
         wickr_cipher_key_destroy(&new_node_storage_root);
         wickr_cipher_key_destroy(&new_remote_storage_root);
         return NULL;
@@ -96,7 +96,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     wickr_cipher_key_t *remote_storage_key = wickr_cipher_key_from_protobytes(proto_keypair->remote_storage_root);
     
-    if (!node_storage_key) {
+    if (!remote_storage_key) {
         wickr_cipher_key_destroy(&node_storage_key);
         wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
         return NULL;
-- 
2.43.0


From 55eb0c1c21a657bcc482ba9809637a641dde34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 33/36] fix: handle allocation failures in the client context

---
 src/wickrcrypto/src/wickr_ctx.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..cbda517 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
@@ -217,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
@@ -256,7 +265,7 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_root_keys_t *root_keys_copy = wickr_root_keys_copy(root_keys);
     
-    if (!root_keys) {
+    if (!root_keys_copy) {
         wickr_ctx_destroy(&ctx);
         wickr_cipher_key_destroy(&recovery_key);
         return NULL;
@@ -397,6 +406,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
@@ -448,6 +458,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
@@ -774,6 +785,11 @@ wickr_encoder_result_t *wickr_ctx_encode_packet(const wickr_ctx_t *ctx, const wi
     
     wickr_ec_key_destroy(&rnd_exchange_key);
     
+    if (!generated_packet) {
+        wickr_cipher_key_destroy(&rnd_payload_key);
+        return NULL;
+    }
+    
     wickr_encoder_result_t *ctx_encode = wickr_encoder_result_create(rnd_payload_key, generated_packet);
     
     if (!ctx_encode) {
-- 
2.43.0


From 450164377efda5f2926efbe3bed72a10fdfaa93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 34/36] fix: erase secret keys from serialization temporaries

---
 .../include/wickrcrypto/private/buffer_priv.h | 20 ++++++
 src/wickrcrypto/src/buffer_priv.c             | 63 +++++++++++++++++++
 src/wickrcrypto/src/identity.c                |  9 +--
 src/wickrcrypto/src/root_keys.c               | 13 ++--
 src/wickrcrypto/src/storage.c                 |  5 +-
 src/wickrcrypto/src/storage_priv.c            |  5 +-
 src/wickrcrypto/src/stream_key.c              |  5 +-
 src/wickrcrypto/src/stream_key_priv.c         |  2 +-
 src/wickrcrypto/src/transport_handshake.c     |  6 +-
 .../src/transport_handshake_priv.c            |  2 +-
 src/wickrcrypto/src/transport_root_key_priv.c |  2 +-
 src/wickrcrypto/src/wickr_ctx.c               |  5 +-
 12 files changed, 113 insertions(+), 24 deletions(-)

diff --git a/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h b/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
index 6eb2e89..75734f1 100644
--- a/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
+++ b/src/wickrcrypto/include/wickrcrypto/private/buffer_priv.h
@@ -50,6 +50,26 @@ wickr_buffer_t *wickr_buffer_from_protobytes(ProtobufCBinaryData buffer);
  @return true if copy into 'proto_bin' is successful
  */
 bool wickr_buffer_to_protobytes(ProtobufCBinaryData *proto_bin, const wickr_buffer_t *buffer);
+
+/**
+ @ingroup wickr_buffer
+
+ Free protobuf binary data that was filled by 'wickr_buffer_to_protobytes' with secret bytes,
+ after overwriting it with zeros
+
+ @param proto_bin pointer to the protobuf binary data to zero and free
+ */
+void wickr_protobytes_free_zero(ProtobufCBinaryData *proto_bin);
+
+/**
+ @ingroup wickr_buffer
+
+ An allocator to unpack (and free) protocol buffers that carry secret key material with.
+ All memory it hands out is overwritten with zeros before it is released
+
+ @return the allocator
+ */
+ProtobufCAllocator *wickr_protobuf_zero_allocator(void);
     
 #ifdef __cplusplus
 }
diff --git a/src/wickrcrypto/src/buffer_priv.c b/src/wickrcrypto/src/buffer_priv.c
index b9cc9bf..25b0900 100644
--- a/src/wickrcrypto/src/buffer_priv.c
+++ b/src/wickrcrypto/src/buffer_priv.c
@@ -1,6 +1,7 @@
 
 #include "private/buffer_priv.h"
 #include "memory.h"
+#include <stdint.h>
 #include <string.h>
 
 wickr_buffer_t *wickr_buffer_from_protobytes(ProtobufCBinaryData buffer)
@@ -25,3 +26,65 @@ bool wickr_buffer_to_protobytes(ProtobufCBinaryData *proto_bin, const wickr_buff
     
     return true;
 }
+
+void wickr_protobytes_free_zero(ProtobufCBinaryData *proto_bin)
+{
+    if (!proto_bin) {
+        return;
+    }
+    
+    wickr_zero(proto_bin->data, proto_bin->len);
+    wickr_free(proto_bin->data);
+    
+    proto_bin->data = NULL;
+    proto_bin->len = 0;
+}
+
+/* Precedes each block of the zeroing allocator, and keeps what follows it suitably aligned */
+typedef union {
+    size_t size;
+    uint64_t align_int;
+    double align_double;
+    void *align_ptr;
+    uint8_t pad[16];
+} wickr_zero_block_header_t;
+
+static void *__wickr_protobuf_zero_alloc(void *allocator_data, size_t size)
+{
+    if (size > SIZE_MAX - sizeof(wickr_zero_block_header_t)) {
+        return NULL;
+    }
+    
+    wickr_zero_block_header_t *header = wickr_alloc(sizeof(wickr_zero_block_header_t) + size);
+    
+    if (!header) {
+        return NULL;
+    }
+    
+    header->size = size;
+    
+    return header + 1;
+}
+
+static void __wickr_protobuf_zero_free(void *allocator_data, void *pointer)
+{
+    if (!pointer) {
+        return;
+    }
+    
+    wickr_zero_block_header_t *header = (wickr_zero_block_header_t *)pointer - 1;
+    
+    wickr_zero(pointer, header->size);
+    wickr_free(header);
+}
+
+static ProtobufCAllocator __wickr_protobuf_zero_allocator = {
+    .alloc = __wickr_protobuf_zero_alloc,
+    .free = __wickr_protobuf_zero_free,
+    .allocator_data = NULL
+};
+
+ProtobufCAllocator *wickr_protobuf_zero_allocator(void)
+{
+    return &__wickr_protobuf_zero_allocator;
+}
diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index 171f9e1..30cf768 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -1,6 +1,7 @@
 
 #include "identity.h"
 #include "private/identity_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 
 wickr_identity_t *wickr_identity_create(wickr_identity_type type, wickr_buffer_t *identifier, wickr_ec_key_t *sig_key, wickr_ecdsa_result_t *signature)
@@ -154,14 +155,14 @@ wickr_identity_t *wickr_identity_create_from_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    Wickr__Proto__Identity *proto_identity = wickr__proto__identity__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__Identity *proto_identity = wickr__proto__identity__unpack(wickr_protobuf_zero_allocator(), buffer->length, buffer->bytes);
     
     if (!proto_identity) {
         return NULL;
     }
     
     wickr_identity_t *return_identity = wickr_identity_create_from_proto(proto_identity, engine);
-    wickr__proto__identity__free_unpacked(proto_identity, NULL);
+    wickr__proto__identity__free_unpacked(proto_identity, wickr_protobuf_zero_allocator());
     
     return return_identity;
 }
@@ -344,14 +345,14 @@ wickr_identity_chain_t *wickr_identity_chain_create_from_buffer(const wickr_buff
         return NULL;
     }
     
-    Wickr__Proto__IdentityChain *proto_identity = wickr__proto__identity_chain__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__IdentityChain *proto_identity = wickr__proto__identity_chain__unpack(wickr_protobuf_zero_allocator(), buffer->length, buffer->bytes);
     
     if (!proto_identity) {
         return NULL;
     }
     
     wickr_identity_chain_t *return_chain = wickr_identity_chain_create_from_proto(proto_identity, engine);
-    wickr__proto__identity_chain__free_unpacked(proto_identity, NULL);
+    wickr__proto__identity_chain__free_unpacked(proto_identity, wickr_protobuf_zero_allocator());
     
     return return_chain;
 }
diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 0f4d2fb..9fd3040 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -1,5 +1,6 @@
 
 #include "root_keys.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "storage.pb-c.h"
 #include "private/cipher_priv.h"
@@ -71,7 +72,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
         return NULL;
     }
     
-    Wickr__Proto__RootKeys *proto_keypair = wickr__proto__root_keys__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__RootKeys *proto_keypair = wickr__proto__root_keys__unpack(wickr_protobuf_zero_allocator(), buffer->length, buffer->bytes);
     
     if (!proto_keypair) {
         return NULL;
@@ -79,7 +80,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     if (!proto_keypair->has_node_storage_root || !proto_keypair->has_remote_storage_root ||
         proto_keypair->version > CURRENT_ROOT_KEY_VERSION) {
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, wickr_protobuf_zero_allocator());
         return NULL;
     }
     
@@ -90,7 +91,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     wickr_cipher_key_t *node_storage_key = wickr_cipher_key_from_protobytes(proto_keypair->node_storage_root);
     
     if (!node_storage_key) {
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, wickr_protobuf_zero_allocator());
         return NULL;
     }
     
@@ -98,7 +99,7 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     
     if (!remote_storage_key) {
         wickr_cipher_key_destroy(&node_storage_key);
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, wickr_protobuf_zero_allocator());
         return NULL;
     }
     
@@ -107,12 +108,12 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
     if (!node_signature_root) {
         wickr_cipher_key_destroy(&remote_storage_key);
         wickr_cipher_key_destroy(&node_storage_key);
-        wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+        wickr__proto__root_keys__free_unpacked(proto_keypair, wickr_protobuf_zero_allocator());
         return NULL;
     }
     
     wickr_root_keys_t *root_keys = wickr_root_keys_create(node_signature_root, node_storage_key, remote_storage_key);
-    wickr__proto__root_keys__free_unpacked(proto_keypair, NULL);
+    wickr__proto__root_keys__free_unpacked(proto_keypair, wickr_protobuf_zero_allocator());
     
     if (!root_keys) {
         wickr_cipher_key_destroy(&remote_storage_key);
diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 7b6c078..268fd9c 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -1,5 +1,6 @@
 
 #include "private/storage_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "storage.pb-c.h"
 #include "private/cipher_priv.h"
@@ -83,11 +84,11 @@ wickr_storage_keys_t *wickr_storage_keys_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    Wickr__Proto__StorageKeys *key_proto = wickr__proto__storage_keys__unpack(NULL, buffer->length,
+    Wickr__Proto__StorageKeys *key_proto = wickr__proto__storage_keys__unpack(wickr_protobuf_zero_allocator(), buffer->length,
                                                                               buffer->bytes);
     
     wickr_storage_keys_t *storage_keys = wickr_storage_keys_create_from_proto(key_proto);
-    wickr__proto__storage_keys__free_unpacked(key_proto, NULL);
+    wickr__proto__storage_keys__free_unpacked(key_proto, wickr_protobuf_zero_allocator());
     
     return storage_keys;
 }
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index c517010..1a9b706 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -1,6 +1,7 @@
 
 #include "private/storage_priv.h"
 #include "private/cipher_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 
 #define CURRENT_STORAGE_KEY_VERSION 1
@@ -11,8 +12,8 @@ void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *proto_keys)
         return;
     }
     
-    wickr_free(proto_keys->local_storage.data);
-    wickr_free(proto_keys->remote_storage.data);
+    wickr_protobytes_free_zero(&proto_keys->local_storage);
+    wickr_protobytes_free_zero(&proto_keys->remote_storage);
     wickr_free(proto_keys);
 }
 
diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index ab8979e..ea5e1d3 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -7,6 +7,7 @@
 //
 
 #include "private/stream_key_priv.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 
 wickr_stream_key_t *wickr_stream_key_create(wickr_cipher_key_t *cipher_key, wickr_buffer_t *evolution_key, uint32_t packets_per_evolution)
@@ -135,14 +136,14 @@ wickr_stream_key_t *wickr_stream_key_create_from_buffer(const wickr_buffer_t *bu
         return NULL;
     }
     
-    Wickr__Proto__StreamKey *proto_key = wickr__proto__stream_key__unpack(NULL, buffer->length, buffer->bytes);
+    Wickr__Proto__StreamKey *proto_key = wickr__proto__stream_key__unpack(wickr_protobuf_zero_allocator(), buffer->length, buffer->bytes);
     
     if (!proto_key) {
         return NULL;
     }
     
     wickr_stream_key_t *stream_key = wickr_stream_key_create_from_proto(proto_key);
-    wickr__proto__stream_key__free_unpacked(proto_key, NULL);
+    wickr__proto__stream_key__free_unpacked(proto_key, wickr_protobuf_zero_allocator());
     
     return stream_key;
 }
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index c29218e..622d981 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -8,7 +8,7 @@ void wickr_stream_key_proto_free(Wickr__Proto__StreamKey *proto_key)
     if (!proto_key) {
         return;
     }
-    wickr_free(proto_key->cipher_key.data);
+    wickr_protobytes_free_zero(&proto_key->cipher_key);
     wickr_free(proto_key);
 }
 
diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 0838a8a..c0ab89a 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -489,13 +489,13 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
-        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, wickr_protobuf_zero_allocator());
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
     
     handshake->root_key = wickr_transport_root_key_from_proto(response_data->root_key);
-    wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
+    wickr__proto__handshake_v1_response_data__free_unpacked(response_data, wickr_protobuf_zero_allocator());
     
     if (!handshake->root_key) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -595,7 +595,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-    wickr_buffer_destroy(&serialized_response_data);
+    wickr_buffer_destroy_zero(&serialized_response_data);
     wickr_ec_key_destroy(&ephemeral_key);
     
     if (!result) {
diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 8cc7e77..1ca50ff 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -89,7 +89,7 @@ Wickr__Proto__HandshakeV1ResponseData *wickr_proto_handshake_response_data_from_
         return NULL;
     }
     
-    return wickr__proto__handshake_v1_response_data__unpack(NULL, buffer->length, buffer->bytes);
+    return wickr__proto__handshake_v1_response_data__unpack(wickr_protobuf_zero_allocator(), buffer->length, buffer->bytes);
 }
 
 void wickr_proto_handshake_response_data_free(Wickr__Proto__HandshakeV1ResponseData *data)
diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index c9ea99b..4fc804a 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -72,6 +72,6 @@ void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *root_ke
         return;
     }
     
-    wickr_free(root_key_proto->secret.data);
+    wickr_protobytes_free_zero(&root_key_proto->secret);
     wickr_free(root_key_proto);
 }
diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index cbda517..1478111 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -1,5 +1,6 @@
 
 #include "wickr_ctx.h"
+#include "private/buffer_priv.h"
 #include "memory.h"
 #include "private/identity_priv.h"
 #include "private/storage_priv.h"
@@ -592,11 +593,11 @@ wickr_ctx_t *wickr_ctx_create_from_buffer(const wickr_crypto_engine_t engine,
         return NULL;
     }
     
-    Wickr__Proto__Ctx *ctx_proto = wickr__proto__ctx__unpack(NULL, buffer->length,
+    Wickr__Proto__Ctx *ctx_proto = wickr__proto__ctx__unpack(wickr_protobuf_zero_allocator(), buffer->length,
                                                              buffer->bytes);
     
     wickr_ctx_t *ctx = __wickr_ctx_create_from_proto(engine, dev_info, ctx_proto);
-    wickr__proto__ctx__free_unpacked(ctx_proto, NULL);
+    wickr__proto__ctx__free_unpacked(ctx_proto, wickr_protobuf_zero_allocator());
     
     return ctx;
 }
-- 
2.43.0


From 1f7d8fdd652c8cc2f701660ad0333cbd33be8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 35/36] fix: erase keys on two allocation failure paths

---
 src/wickrcrypto/src/protocol.c  | 2 +-
 src/wickrcrypto/src/wickr_ctx.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 06baf4e..c9cd536 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -73,7 +73,7 @@ static wickr_kdf_meta_t *__wickr_key_exchange_get_kdf_meta(const wickr_identity_
     wickr_kdf_meta_t *meta = wickr_kdf_meta_create(algo, psk_copy, info);
     
     if (!meta) {
-        wickr_buffer_destroy(&psk_copy);
+        wickr_buffer_destroy_zero(&psk_copy);
         wickr_buffer_destroy(&info);
     }
     
diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 1478111..b917ac9 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -49,7 +49,7 @@ static wickr_cipher_key_t *__wickr_ctx_gen_header_key(const wickr_crypto_engine_
     wickr_cipher_key_t *cipher_key = wickr_cipher_key_create(cipher, digest_result);
     
     if (!cipher_key) {
-        wickr_buffer_destroy(&digest_result);
+        wickr_buffer_destroy_zero(&digest_result);
     }
     
     return cipher_key;
-- 
2.43.0


From 4895265f6b7f40ca03ccc999e35d6c1251aabd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 36/36] fix: erase the salt when copying kdf metadata fails

---
 src/wickrcrypto/src/kdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index ef44ef6..2b9a249 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -166,7 +166,7 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
     wickr_buffer_t *info_copy = wickr_buffer_copy(source->info);
     
     if (!info_copy && source->info) {
-        wickr_buffer_destroy(&salt_copy);
+        wickr_buffer_destroy_zero(&salt_copy);
         return NULL;
     }
     
-- 
2.43.0

