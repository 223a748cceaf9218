From b13a207a7da0e835f517110ab65ffba0b3e4c26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 01/38] fix: do not wrap the offset when a frame announces a
 64-bit length that cannot fit

A frame header announcing a payload length close to 2^64 made the sum of
offset and length wrap, so that the frame was taken for complete, a huge
allocation was requested and the server crashed.
---
 src/frame.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..4f57939 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -317,7 +317,7 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
                 return NULL;
@@ -325,7 +325,8 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+        // A length that does not fit must not wrap the offset around
+        *offset += MIN(frame->applicationDataLength, SIZE_MAX-*offset);
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From 3ff2d10a8218248b465de57efa07cd8bc4ea9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 02/38] fix: frames after the first of a fragmented message are
 continuations

---
 src/frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index 4f57939..8b3cfc2 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -535,7 +535,8 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        // Only the first frame carries the opcode (RFC 6455 section 5.4)
+        frame->opcode = i == 0 ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 707c0fc136e1986e89ac0f39e4496642a2510613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 03/38] fix: bound the reason of a close frame by the message
 it comes from and by the 125 bytes of a control frame

---
 src/frame.c | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 8b3cfc2..2216420 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -35,6 +35,9 @@
 #include <spe.h>
 #endif
 
+/* Largest reason of a close frame: 125 bytes of control frame payload minus the code */
+#define MAX_CLOSE_REASON 123
+
 /**
  * Converts the unsigned 64 bit integer from host byte order to network byte
  * order.
@@ -506,18 +509,34 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     frames = *fs;
 
     if (opcode == CLOSE_FRAME) {
+        char reason[MAX_CLOSE_REASON+2];
+        size_t reason_length = 0;
+
         if ( likely(message_length >= sizeof(uint16_t)) ) {
-            memcpy(&code, msg, sizeof(uint16_t));
-            code = ntohs(code);
+            uint16_t nbo_code;
+            memcpy(&nbo_code, msg, sizeof(uint16_t));
+            code = ntohs(nbo_code);
             msg = msg + sizeof(uint16_t);
+            reason_length = MIN(message_length-sizeof(uint16_t), MAX_CLOSE_REASON+1);
         } else if ( unlikely(message_length == 1) ) {
             code = CLOSE_PROTOCOL;
-            msg = msg + 1;
         } else {
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        if ( likely(NULL != msg) ) {
+            // The message is not necessarily NUL-terminated
+            memcpy(reason, msg, reason_length);
+            reason[reason_length] = '\0';
+            msg = reason;
+        }
+
+        if ( unlikely(NULL == (frame = WSS_closing_frame(code, msg))) ) {
+            WSS_free((void **)&frames);
+            *fs = NULL;
+            return 0;
+        }
+
         frames[0] = frame;
         return 1;
     }
@@ -572,6 +591,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
 wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message) {
     wss_frame_t *frame;
     uint16_t nbo_reason;
+    size_t reason_length;
     char *reason_str = message;
 
     WSS_log_trace("Creating closing frame");
@@ -638,7 +658,16 @@ wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message) {
                 return NULL;
         }
     }
-    frame->applicationDataLength = strlen(reason_str)+sizeof(uint16_t);
+
+    // A control frame carries at most 125 bytes, do not cut a character in two
+    if ( unlikely((reason_length = strlen(reason_str)) > MAX_CLOSE_REASON) ) {
+        reason_length = MAX_CLOSE_REASON;
+        while ( reason_length > 0 && (reason_str[reason_length] & 0xC0) == 0x80 ) {
+            reason_length--;
+        }
+    }
+
+    frame->applicationDataLength = reason_length+sizeof(uint16_t);
     if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength+1))) ) {
         WSS_log_error("Unable to allocate closing frame application data");
         WSS_free_frame(frame);
@@ -646,7 +675,7 @@ wss_frame_t *WSS_closing_frame(wss_close_t reason, char *message) {
     }
     nbo_reason = htons16(reason);
     memcpy(frame->payload, &nbo_reason, sizeof(uint16_t));
-    memcpy(frame->payload+sizeof(uint16_t), reason_str, strlen(reason_str));
+    memcpy(frame->payload+sizeof(uint16_t), reason_str, reason_length);
 
     frame->payloadLength += frame->extensionDataLength;
     frame->payloadLength += frame->applicationDataLength;
-- 
2.43.0


From 5d1ca931e6df64ef1b5f430c9c0c284478d9e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 04/38] fix: building a ping frame without memory must not
 write through NULL

---
 src/frame.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frame.c b/src/frame.c
index 2216420..14193ac 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -47,6 +47,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
-- 
2.43.0


From 9540f0cb924254cfc6e7549e6c9b9fb932d41267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 05/38] fix: base64 encoding without memory must return NULL
 instead of writing through NULL

---
 src/b64.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/b64.c b/src/b64.c
index e79db74..636a018 100644
--- a/src/b64.c
+++ b/src/b64.c
@@ -39,6 +39,7 @@ b64_encode (const unsigned char *src, size_t len) {
             // part by index from the base 64 index table
             // into `enc' unsigned char array
             enc = (char *) b64_realloc(enc, size + 4);
+            if (NULL == enc) { return NULL; }
             for (i = 0; i < 4; ++i) {
                 enc[size++] = b64_table[buf[i]];
             }
@@ -64,6 +65,7 @@ b64_encode (const unsigned char *src, size_t len) {
         // perform same write to `enc` with new allocation
         for (j = 0; (j < i + 1); ++j) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = b64_table[buf[j]];
         }
 
@@ -71,12 +73,14 @@ b64_encode (const unsigned char *src, size_t len) {
         // append `=' to `enc'
         while ((i++ < 3)) {
             enc = (char *) b64_realloc(enc, size + 1);
+            if (NULL == enc) { return NULL; }
             enc[size++] = '=';
         }
     }
 
     // Make sure we have enough space to add '\0' character at end.
     enc = (char *) b64_realloc(enc, size + 1);
+    if (NULL == enc) { return NULL; }
     enc[size] = '\0';
 
     return enc;
-- 
2.43.0


From c3372c20675f93f7946bb41cc262c0814c4e9ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 06/38] fix: resizing no block to zero bytes must not read
 through NULL

---
 src/alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/alloc.c b/src/alloc.c
index 5cf785c..49c9320 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -94,7 +94,9 @@ void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize) {
 	void *buffer;
 
     if ( unlikely(newSize == 0) ) {
-        WSS_free(ptr);
+        if ( likely(ptr != NULL) ) {
+            WSS_free(ptr);
+        }
         return NULL;
     }
     
-- 
2.43.0


From 23a53d8681fa76c581f3efef39a0788a39985188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 07/38] fix: free the loaded string, not the caller's variable,
 when reading a file fails

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 1f9d14d74793c05cb50f7890faaf81f15fa6bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 08/38] fix: an array allocation whose size overflows must fail
 (rpcalloc does not check)

---
 src/alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alloc.c b/src/alloc.c
index 49c9320..a127afa 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -62,7 +62,7 @@ void *WSS_malloc(size_t size) {
 void *WSS_calloc(size_t memb, size_t size) {
 	void *buffer;
 
-    if ( unlikely(size == 0 || memb == 0) ) {
+    if ( unlikely(size == 0 || memb == 0 || memb > ((size_t) -1) / size) ) {
         return NULL;
     }
 
-- 
2.43.0


From 3ad48f0e9592b1e1f25fdecd8e51b35da635609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 09/38] fix: loading a path that has no size (a directory) must
 be an error, not an overflowing size

---
 src/str.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/str.c b/src/str.c
index 107bbdc..5b42235 100644
--- a/src/str.c
+++ b/src/str.c
@@ -1,5 +1,6 @@
 #include <errno.h> 				/* errno */
 #include <stdio.h> 				/* printf, fflush, fprintf, fopen, fclose */
+#include <limits.h>				/* LONG_MAX */
 #include <stdlib.h>				/* atoi, malloc, free, realloc, calloc */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen,
                                    strtok, strtok_r */
@@ -94,7 +95,14 @@ size_t strload(char *path, char **str) {
         return 0;
     }
 
+    // A directory can be opened and seeked in, but reports LONG_MAX as its size
     size = ftell(file);
+    if ( unlikely(size < 0 || size == LONG_MAX) ) {
+        WSS_log_error("Unable to determine the size of file");
+        fclose(file);
+        *str = NULL;
+        return 0;
+    }
 
     if ( unlikely(fseek(file, 0, SEEK_SET)) ) {
         WSS_log_error("Unable to seek back to the start of file: %s", strerror(errno));
-- 
2.43.0


From 741ebed709392549fe062707b0fea1161b021274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 10/38] fix: do not hand out a worker record of the ring buffer
 that is in use when none is free

---
 src/ringbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..abd06f5 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -195,8 +195,8 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 			break;
 	}
 
-	/* Register this worker-record. */
-	return w;
+	/* Register this worker-record, if one could be acquired. */
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From 76c7e2b2bd2d7ea7c1f88a0853a035fd1fd3c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 11/38] fix: WSS_work must not touch a session after
 disconnecting it

---
 src/worker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index e98b6ac..ccf128b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1519,6 +1519,9 @@ void WSS_work(void *args) {
     if (session->closing) {
         session->event = NONE;
         WSS_disconnect(server, session);
+
+        // The session is no longer ours to use
+        return;
     }
 
     switch (session->event) {
-- 
2.43.0


From f58697b0ba517016381b5306599afe290b3d892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 12/38] fix: only a close frame ends the connection after
 writing, also when it was written in pieces

---
 src/worker.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index ccf128b..9c3e0f1 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1352,8 +1352,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
 
             while ( likely(bytes_sent < message_length) ) {
                 // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
+                if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From 43718fa761677f70d8a625fac37c2f4fa7a54bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 13/38] fix: release the job of the session when a message
 cannot be enqueued

---
 src/message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/message.c b/src/message.c
index 6e45c1d..b764c2c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -40,6 +40,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -48,6 +50,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
     m->msg = out;
@@ -61,6 +65,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
-- 
2.43.0


From 9769350a586abc0da7699729b180815365d88cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 14/38] fix: wait for the socket of a receiver to become
 writable when a message was only written in part

---
 src/message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/message.c b/src/message.c
index b764c2c..72048e3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -98,6 +98,12 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         case IDLE:
             session->state = WRITING;
             WSS_write(server, session);
+
+            // If not everything could be written, wait for the descriptor to become writable
+            if ( unlikely(session->event == WRITE) ) {
+                WSS_poll_set_write(server, session->fd);
+            }
+
             WSS_session_jobs_dec(session);
             pthread_mutex_unlock(&session->lock);
             return;
-- 
2.43.0


From 12d24dd8a483814807399ab990dcecd2f8e5f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 15/38] fix: do not send frames to a session that is not
 handshaked

---
 src/message.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/message.c b/src/message.c
index 72048e3..8b7a11d 100644
--- a/src/message.c
+++ b/src/message.c
@@ -125,6 +125,15 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
 
     WSS_session_jobs_inc(session);
 
+    // Before the handshake is done there are no frames to be sent
+    if ( unlikely(! session->handshaked) ) {
+        WSS_log_error("Unable to send message to session that is not handshaked");
+
+        WSS_session_jobs_dec(session);
+
+        return;
+    }
+
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
     }
-- 
2.43.0


From 54bdb54268855829ce62061ccbf06180196c8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 16/38] fix: do not write to a session after its close frame
 was written

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 9c3e0f1..31167b8 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1406,6 +1406,8 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
     if (closing) {
         WSS_log_trace("Closing connection, since closing frame has been sent");
 
+        // Nothing must be written after the closing frame
+        session->state = CLOSING;
         session->closing = true;
 
         return;
-- 
2.43.0


From 2b2275292aa0f555a44df802780135bfc29dc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 17/38] fix: release the lock when the pool is already shutting
 down

The lock was kept by the second caller of threadpool_destroy, so the workers
could not go on and the first caller waited for them forever.
---
 src/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..59d346f 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -231,6 +231,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
     do {
         /* Already shutting down */
         if (pool->shutdown) {
+            pthread_mutex_unlock(&(pool->lock));
             err = threadpool_shutdown;
             break;
         }
-- 
2.43.0


From 9897e6fc5850376cc90af21af9fb5faeccca7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 18/38] fix: look for an existing session while holding the
 lock it is added under

---
 src/session.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/session.c b/src/session.c
index d3a1039..e58ffc7 100644
--- a/src/session.c
+++ b/src/session.c
@@ -69,12 +69,16 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
 
     WSS_log_trace("Adding session");
 
-    if ( unlikely(NULL != (session = WSS_session_find(fd))) ) {
+    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return NULL;
     }
 
-    if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
-        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+    // Look for the filedescriptor while holding the lock, such that two threads
+    // cannot add the same filedescriptor
+    HASH_FIND_INT(sessions, &fd, session);
+    if ( unlikely(NULL != session) ) {
+        pthread_rwlock_unlock(&lock);
         return NULL;
     }
 
-- 
2.43.0


From 9de1614b42fa1cef7d2b2c6457a14ddaf553c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 19/38] fix: do not use a session after its lock attributes
 could not be initialized

---
 src/session.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session.c b/src/session.c
index e58ffc7..1c0575d 100644
--- a/src/session.c
+++ b/src/session.c
@@ -92,7 +92,10 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
+        pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
-- 
2.43.0


From 0a1d75e3dedaaddd3b328e4ac3bbf6348e6982b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 20/38] fix: free the payload of the frames a session has kept
 when it is deleted

---
 src/session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session.c b/src/session.c
index 1c0575d..c50799f 100644
--- a/src/session.c
+++ b/src/session.c
@@ -13,6 +13,7 @@
 #include "error.h"
 #include "alloc.h"
 #include "header.h"
+#include "frame.h"
 #include "ringbuf.h"
 #include "predict.h"
 #include "ssl.h"
@@ -183,7 +184,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
-- 
2.43.0


From b45daf451bcc2d449464f924010a61404286c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 21/38] fix: do not close the subprotocol of a session whose
 request was not complete

---
 src/session.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/session.c b/src/session.c
index c50799f..617a1be 100644
--- a/src/session.c
+++ b/src/session.c
@@ -194,7 +194,9 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            if ( likely(NULL != session->header->ws_protocol) ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
-- 
2.43.0


From a6a11742b3209c48cecc9e273755de12cdd9d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:28 +0000
Subject: [PATCH 22/38] fix: keep the session lock and release the SSL
 structure when the SSL shutdown would block

---
 src/ssl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 8761990..5af6d14 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -662,11 +662,11 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The caller releases the session in any case and still needs
+                // its lock, so the shutdown cannot be continued later
+                WSS_log_trace("SSL_shutdown would block");
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +691,11 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The caller releases the session in any case and still needs
+                // its lock, so the shutdown cannot be continued later
+                WSS_log_trace("SSL_shutdown would block");
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
-- 
2.43.0


From a99ae7a242b7b5e6cbe29ff0a167aa7d57ef56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 23/38] fix: count only the bytes of a handshake response that
 are written

---
 src/worker.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 31167b8..8171028 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -87,11 +87,14 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
+                headers += sizeof(char);
                 headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
             }
-            headers += 2*sizeof(char);
+            if ( likely(j+1 != header->ws_extensions_count) ) {
+                headers += sizeof(char);
+            }
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += 2*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
-- 
2.43.0


From 7fc0864e12b55650f5b43018e4fc98b533816ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 24/38] fix: write the supported versions behind the status
 line of a not implemented response

---
 src/worker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 8171028..825415d 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -364,7 +364,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
@@ -378,7 +378,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From 0489b8588c0b5da0656836678bd4ef6ab3b51631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 25/38] fix: hash the favicon into the array instead of where
 its first bytes point

---
 src/worker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index 825415d..2ce4634 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -184,6 +184,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     struct tm tm;
     char *ico;
     char *etag;
+    char *hash;
     char *message;
     wss_message_t *msg;
     size_t length;
@@ -230,7 +231,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    hash = sha1Key;
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
-- 
2.43.0


From df0134b16475e3e89b84edae1259bcfaa2baaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 26/38] fix: answer that there is no favicon when the file is
 empty or cannot be read

---
 src/worker.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 2ce4634..0dd6e12 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -226,6 +226,10 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         setlocale(LC_ALL, savedlocale);
 
         icon = strload(config->favicon, &ico);
+        if ( unlikely(NULL == ico || icon <= 0) ) {
+            WSS_free((void **) &ico);
+            return NULL;
+        }
     } else {
         return NULL;
     }
-- 
2.43.0


From 046252c1ad81b3d04408c88140c1c392b167262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 27/38] fix: check that the message of a favicon response was
 allocated

---
 src/worker.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 0dd6e12..f64239a 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -262,13 +262,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    msg->length = length;
+
     return msg;
 }
 
-- 
2.43.0


From a804b6b608703c01f4bf58b33d81ea0308b3391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 28/38] fix: do not send the terminating null byte of HTTP
 responses

---
 src/worker.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index f64239a..34ca327 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -251,8 +251,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(etag)*sizeof(char);
     headers += strlen(modified)*sizeof(char);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -307,8 +307,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -380,8 +380,8 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
-- 
2.43.0


From 2621a617a8f1d56c1bf987b11062690490a7cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 29/38] fix: header lines without a value or without a space
 before it

---
 src/header.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..54162fe 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,6 +69,20 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Returns the value of a header line without leading and trailing whitespace.
+ * If the line has no value, the empty string is returned.
+ *
+ * @param   lineptr [char **]   "The part of the line that follows the colon"
+ * @return          [char *]    "The value of the header line"
+ */
+static inline char *header_value(char **lineptr)
+{
+    char *value = strtok_r(NULL, "", lineptr);
+
+    return trim(NULL != value ? value : *lineptr);
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
     int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
 
@@ -229,7 +243,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,20 +251,20 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -264,7 +278,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
@@ -272,10 +286,10 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                line = header_value(&lineptr);
                 line_length = strlen(line);
                 if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
@@ -286,12 +300,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 extensions_length += line_length;
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                     if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
                         header->ws_protocol = proto;
                     } else {
@@ -306,11 +320,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
-- 
2.43.0


From f569527ab0a46d15fae28d92480c135d55fb4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 30/38] fix: empty entry in the list of websocket versions

---
 src/header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index 54162fe..458cc15 100644
--- a/src/header.c
+++ b/src/header.c
@@ -84,7 +84,7 @@ static inline char *header_value(char **lineptr)
 }
 
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
-- 
2.43.0


From f3fae6ef62ea5f7844a1a0b826351b8bb5ffda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 31/38] fix: empty entry in the list of extensions

---
 src/header.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.c b/src/header.c
index 458cc15..e66e9ce 100644
--- a/src/header.c
+++ b/src/header.c
@@ -370,6 +370,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
             in_use = false;
             sep = trim(strtok_r(sep, ";", &paramptr));
 
+            // Skip empty elements of the list
+            if ( unlikely(NULL == sep) ) {
+                sep = trim(strtok_r(NULL, ",", &sepptr));
+                continue;
+            }
+
             if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
                 WSS_log_error("Unable to allocate space for extension structure");
                 return HttpStatus_InternalServerError;
-- 
2.43.0


From a055d7a037d81112e5f1e79ffa71b132d2befcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:01 +0000
Subject: [PATCH 32/38] fix: separate the extensions of several header lines

---
 src/header.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index e66e9ce..45fa191 100644
--- a/src/header.c
+++ b/src/header.c
@@ -291,13 +291,19 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
                 line = header_value(&lineptr);
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
                     return HttpStatus_InternalServerError;
                 }
 
+                // Several header lines form one comma separated list
+                if ( extensions_length > 0 ) {
+                    exts[extensions_length++] = ',';
+                }
+
                 memcpy(exts+extensions_length, line, line_length);
                 extensions_length += line_length;
+                exts[extensions_length] = '\0';
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
                 header->host = header_value(&lineptr);
-- 
2.43.0


From 63899e4dbea0b786a6a6599d0bb46886ee37a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 33/38] fix: release the list of extensions of a request that
 is refused

---
 src/header.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.c b/src/header.c
index 45fa191..349e53b 100644
--- a/src/header.c
+++ b/src/header.c
@@ -228,6 +228,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **)&exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -240,6 +241,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_version != 0) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
 
@@ -284,6 +286,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
                 header->ws_key = header_value(&lineptr);
@@ -340,6 +343,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **)&exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -353,6 +357,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **)&exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -367,6 +372,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **)&exts);
         return HttpStatus_BadRequest;
     }
 
-- 
2.43.0


From dbee1d934483e89bbeb245a15f59515ae53881d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 34/38] fix: release the names of extensions that are not
 accepted

---
 src/header.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/header.c b/src/header.c
index 349e53b..e3e8e88 100644
--- a/src/header.c
+++ b/src/header.c
@@ -402,6 +402,8 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
+                    valid = false;
+                    accepted = NULL;
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
                         if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
@@ -417,10 +419,16 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
                         header->ws_extensions_count += 1;
+                        name = NULL;
+                    } else {
+                        WSS_free((void **)&accepted);
                     }
                 }
             }
 
+            // The name is kept only if the extension was accepted
+            WSS_free((void **)&name);
+
             sep = trim(strtok_r(NULL, ",", &sepptr));
         }
         WSS_free((void **)&exts);
-- 
2.43.0


From 0611e8b4b1268fa3b260488a17a6d76157720b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 35/38] fix: keep the extensions of a request consistent when
 memory runs out

---
 src/header.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/header.c b/src/header.c
index e3e8e88..9a34731 100644
--- a/src/header.c
+++ b/src/header.c
@@ -127,6 +127,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     char *token, *name; 
     wss_subprotocol_t *proto;
     wss_extension_t *ext;
+    wss_ext_t **extensions;
     char *exts = NULL;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
@@ -390,6 +391,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
                 WSS_log_error("Unable to allocate space for extension structure");
+                WSS_free((void **)&exts);
                 return HttpStatus_InternalServerError;
             }
 
@@ -406,15 +408,27 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     accepted = NULL;
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
-                        if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
+                        if ( unlikely(NULL == (extensions = WSS_malloc((header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
                             WSS_log_error("Unable to allocate space for extension");
+                            WSS_free((void **)&accepted);
+                            WSS_free((void **)&name);
+                            WSS_free((void **)&exts);
                             return HttpStatus_InternalServerError;
                         }
 
-                        if ( unlikely(NULL == (header->ws_extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
+                        if ( unlikely(NULL == (extensions[header->ws_extensions_count] = WSS_malloc(sizeof(wss_ext_t))))) {
                             WSS_log_error("Unable to allocate space for extension structure");
+                            WSS_free((void **)&extensions);
+                            WSS_free((void **)&accepted);
+                            WSS_free((void **)&name);
+                            WSS_free((void **)&exts);
                             return HttpStatus_InternalServerError;
                         }
+                        if ( header->ws_extensions_count > 0 ) {
+                            memcpy(extensions, header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *));
+                        }
+                        WSS_free((void **)&header->ws_extensions);
+                        header->ws_extensions = extensions;
                         header->ws_extensions[header->ws_extensions_count]->ext = ext;
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
-- 
2.43.0


From 79b05ced00d46f0fdc8316d7f544780c94739722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 36/38] fix: release the read buffer of a handshake that is not
 completed

---
 src/worker.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 34ca327..ca3f36a 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -649,6 +649,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **)&buffer);
             return;
         }
 
@@ -686,11 +687,15 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
                 session->event = WRITE;
 
+                WSS_free((void **)&buffer);
+
                 return;
             // An error occured, notify client by writing back to it
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
 
+                WSS_free((void **)&buffer);
+
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
                 WSS_free_header(header);
 
@@ -707,6 +712,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free_header(header);
+                    WSS_free((void **)&buffer);
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
@@ -718,6 +725,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
                     WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
 
+                    WSS_free((void **)&buffer);
+
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
                     WSS_free_header(header);
-- 
2.43.0


From 5b51f60e866aaaa08055d26fd9a8001832e6ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 37/38] fix: do not queue a response that could not be
 allocated

---
 src/worker.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index ca3f36a..535278b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -837,7 +837,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (code != HttpStatus_SwitchingProtocols) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
+        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
             session->state = WRITING;
             session->event = READ;
             WSS_write(server, session);
@@ -848,6 +848,13 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         return;
     }
 
+    if ( unlikely(NULL == message) ) {
+        WSS_log_fatal("Unable to allocate handshake response");
+        WSS_free_header(header);
+        session->closing = true;
+        return;
+    }
+
     // Use echo protocol if none was chosen
     if (NULL == header->ws_protocol) {
         header->ws_protocol = WSS_find_subprotocol("echo");
-- 
2.43.0


From 06f60617008d20cf6581d446968c49fb8f422a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 38/38] fix: compare whole tokens of the Upgrade and Connection
 headers

---
 src/header.c | 52 ++++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/header.c b/src/header.c
index 9a34731..458e035 100644
--- a/src/header.c
+++ b/src/header.c
@@ -83,6 +83,32 @@ static inline char *header_value(char **lineptr)
     return trim(NULL != value ? value : *lineptr);
 }
 
+/**
+ * Looks for a token in a comma separated list, ignoring case.
+ *
+ * @param   list    [const char *]  "The comma separated list"
+ * @param   token   [const char *]  "The token to look for"
+ * @return          [bool]          "Whether the list contains the token"
+ */
+static bool has_token(const char *list, const char *token)
+{
+    size_t length, token_length = strlen(token);
+
+    while ( '\0' != *list ) {
+        list += strspn(list, ", \t");
+        length = strcspn(list, ",");
+
+        if ( length >= token_length && strncasecmp(list, token, token_length) == 0 &&
+             strspn(list+token_length, " \t") == length-token_length ) {
+            return true;
+        }
+
+        list += length;
+    }
+
+    return false;
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
     int version = strtol(v, (char **) NULL, 10);
 
@@ -480,8 +506,6 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * config, regex_t *re) {
     int err;
     char msg[1024];
-    char *sep;
-    char *sepptr = NULL;
     unsigned char *key = NULL;
     unsigned long key_length;
 
@@ -522,34 +546,14 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating upgrade header");
 
-    if ( unlikely(NULL == header->ws_upgrade || strlen(header->ws_upgrade) < strlen(WEBSOCKET_STRING) ||
-            strncasecmp(WEBSOCKET_STRING, header->ws_upgrade, strlen(WEBSOCKET_STRING)) != 0) || (header->ws_type <= HIXIE76 && strncasecmp(WEBSOCKET_UPPERCASE_STRING, header->ws_upgrade, strlen(WEBSOCKET_UPPERCASE_STRING)) != 0) ) {
+    if ( unlikely(NULL == header->ws_upgrade || !has_token(header->ws_upgrade, WEBSOCKET_STRING)) ) {
         WSS_log_trace("Invalid upgrade header value");
         return HttpStatus_UpgradeRequired;
     }
 
     WSS_log_trace("Validating connection header");
 
-    if ( unlikely(NULL == header->ws_connection || strlen(header->ws_connection) < strlen(UPGRADE_STRING)) ) {
-        WSS_log_trace("Invalid connection header value");
-        return HttpStatus_UpgradeRequired;
-    }
-
-    sep = trim(strtok_r(header->ws_connection, ",", &sepptr));
-    if ( unlikely(NULL == sep) ) {
-        WSS_log_trace("Invalid connection header value");
-        return HttpStatus_UpgradeRequired;
-    }
-
-    do {
-        if ( likely(strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
-            break;
-        }
-
-        sep = trim(strtok_r(NULL, ",", &sepptr));
-    } while ( likely(NULL != sep) );
-
-    if ( unlikely(sep == NULL) ) {
+    if ( unlikely(NULL == header->ws_connection || !has_token(header->ws_connection, UPGRADE_STRING)) ) {
         WSS_log_trace("Invalid connection header value");
         return HttpStatus_UpgradeRequired;
     }
-- 
2.43.0

