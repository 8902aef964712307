From a8c50d617b57bce8f6333a1d7ba2000e8c1ba517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:30 +0000
Subject: [PATCH 01/41] fix: keep the deque tail index in range when removing
 from the tail

Removing the element stored in slot 0 from the tail left an index outside of
the buffer, unless the capacity was a power of two. The next look at the tail
read out of bounds.
---
 src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index a29bb5f..7bfa903 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -44,7 +44,7 @@ void queue_dequeue_tail(queue_t *queue) {
 		return;
 
 	queue->size--;
-	queue->tail = (queue->tail - 1) % queue->capacity;
+	queue->tail = (queue->tail - 1 + queue->capacity) % queue->capacity;
 }
 
 void queue_drop(queue_t* queue) {
-- 
2.43.0


From 171e49776616e0c79ff5fb0c5a00f8d1f4fbd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:30 +0000
Subject: [PATCH 02/41] fix: refuse insertions into a full priority queue

Inserting beyond the capacity wrote outside of the heap. Return NULL instead,
as the deque already does.
---
 src/priority_queue.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/priority_queue.c b/src/priority_queue.c
index 16150f9..87cc09a 100644
--- a/src/priority_queue.c
+++ b/src/priority_queue.c
@@ -83,6 +83,9 @@ static void down(pqueue_t *queue, node_t *node) {
 }
 
 node_t* pqueue_insert(pqueue_t *queue, int key, data_t data) {
+	if (queue->size == queue->capacity) // overflow
+		return NULL;
+
 	int node_id = queue->stack[queue->capacity - queue->size - 1];
 	node_t *node = &(queue->nodes[node_id]);
 
-- 
2.43.0


From 1ab86cf6adce72eb86a590b146fe9da3eb1bb61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:30 +0000
Subject: [PATCH 03/41] fix: account for the message header when encoding a
 request

The space check ignored the 12 bytes of header, wrote the command type before
checking, and charged for skip commands that take no space. A request that
almost fitted was written past the end of its buffer, and one with skip
commands could be refused although it fitted.
---
 src/ccmd.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 82712f3..7005e08 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -105,12 +105,20 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     double x = 0;
     command_t *m_cmd_itr = message_first_cmd(m);
 
+    if (m->req_size < sizeof(message_t))
+        return -1;
+    m->req_size -= sizeof(message_t);
+
     while (ccmd_itr) {
-        m_cmd_itr->cmd = ccmd_itr->cmd;
+        // PSKIP is resolved here, it takes no space in the message
+        int cmd_size = ccmd_itr->cmd == PSKIP ? 0 : cmd_type_size(ccmd_itr->cmd);
 
-        if(m->req_size < cmd_type_size(ccmd_itr->cmd))
+        if (m->req_size < cmd_size)
             return -1;
-        m->req_size -= cmd_type_size(ccmd_itr->cmd);
+        m->req_size -= cmd_size;
+
+        if (cmd_size > 0)
+            m_cmd_itr->cmd = ccmd_itr->cmd;
 
         switch (ccmd_itr->cmd) {
             case STORE:
-- 
2.43.0


From 7606511314546a1a38e1c3daff12e49b993a1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 04/41] fix: never announce a forwarded message smaller than
 its commands

The sub-request was announced with the configured packet size even when its
commands took more than that, so the next hop cut it short. The space check
ignored the header, its failure was not handled, and the status field was
left to whatever the send buffer contained.
---
 src/dw_node.c | 14 ++++++++++++--
 src/message.c | 11 ++++++++++-
 src/message.h |  2 ++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 428de73..38108e1 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -326,7 +326,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    assert(m_dst->req_size >= fwd.pkt_size);
+    if (m_dst->req_size < fwd.pkt_size) {
+        fprintf(stderr, "No space left to forward a message of %u bytes\n", fwd.pkt_size);
+        return 0;
+    }
 
     command_t *c = cmd_next(cmd);
     while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
@@ -334,8 +337,15 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t* reply_cmd = message_copy_tail(m, m_dst, c);
+    if (reply_cmd == NULL) {
+        fprintf(stderr, "No space left to forward the commands of the request\n");
+        return 0;
+    }
     m_dst->req_id = req->req_id;
-    m_dst->req_size = fwd.pkt_size;
+    // the announced size always covers the forwarded commands
+    m_dst->req_size = message_cmds_size(m_dst);
+    if (m_dst->req_size < fwd.pkt_size)
+        m_dst->req_size = fwd.pkt_size;
 
     dw_log("Forwarding req %u to %s:%d\n", m_dst->req_id,
            inet_ntoa((struct in_addr) { fwd.fwd_host }),
diff --git a/src/message.c b/src/message.c
index 3aa3cab..916371e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -61,11 +61,20 @@ inline command_t* message_first_cmd(message_t *m) {
     return &m->cmds[0];
 }
 
+// size in bytes of the message header and commands, including EOM, without payload
+uint32_t message_cmds_size(message_t *m) {
+    command_t *itr = message_first_cmd(m);
+    while (itr->cmd != EOM)
+        itr = cmd_next(itr);
+    return (unsigned char*)cmd_next(itr) - (unsigned char*)m;
+}
+
 // copy a message, and its commands starting from cmd until the matching REPLY is found
 // m_dst->req_size should contain the available size
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     // copy message header
     m_dst->req_id = m->req_id;
+    m_dst->status = 0;
     command_t *itr = cmd;
     while (itr->cmd != EOM && itr->cmd != REPLY)
         itr = message_skip_cmds(m, itr, 1);
@@ -73,7 +82,7 @@ command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     itr = cmd_next(itr);
     int cmds_len = ((unsigned char*)itr - (unsigned char*)cmd);
     int skipped_len = ((unsigned char*)cmd - (unsigned char*)message_first_cmd(m));
-    if (m_dst->req_size < cmds_len + cmd_type_size(EOM))
+    if (m_dst->req_size < sizeof(message_t) + cmds_len + cmd_type_size(EOM))
       return NULL;
 
     memcpy(m_dst->cmds, cmd, cmds_len);
diff --git a/src/message.h b/src/message.h
index ffb523c..aee36ad 100644
--- a/src/message.h
+++ b/src/message.h
@@ -65,6 +65,8 @@ const char* get_command_name(command_type_t cmd);
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd);
 command_t* message_skip_cmds(message_t* m, command_t *cmd, int to_skip);
 
+uint32_t message_cmds_size(message_t *m);
+
 int cmd_type_size(command_type_t type);
 command_t* cmd_next(command_t *c);
 command_t* message_first_cmd(message_t *m);
-- 
2.43.0


From ac7b3fd742a962f4132e23aee53c48f479be8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 05/41] fix: queue messages right after the pending data of the
 send buffer

The offset of the pending data was scaled by the size of the header and the
data already sent was ignored, so a message queued while another one was
still being sent ended up at the wrong place.
---
 src/connection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 0e8882c..fdf9b4c 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -240,7 +240,7 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
-    message_t* m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
     return m;
 }
@@ -272,7 +272,7 @@ message_t* conn_next_message(conn_info_t *conn) {
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
-    message_t *m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t *m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     conn->target = target;
     dw_log("SEND starting, conn_id: %d, status: %s, msg_size: %d\n", conn_get_id_by_ptr(conn), conn_status_str(conn->status), m->req_size);
     if (conn->curr_send_size == 0)
-- 
2.43.0


From c5ca9adf4fbf096aedda4fa0e8b16d6cd7f8280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 06/41] fix: do not drop a connection when a send would block

A send that would block returned 0, which the callers took for a failure and
closed the connection with the data still queued. The check for a closed peer
also assigned errno, so every unexpected error looked like a closed peer.
---
 src/connection.c | 2 +-
 src/dw_client.c  | 2 +-
 src/dw_node.c    | 9 ++++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index fdf9b4c..f89d3a8 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -302,7 +302,7 @@ int conn_send(conn_info_t *conn) {
             return 0;
         } 
 
-        if (errno = EPIPE || errno == ECONNRESET) {
+        if (errno == EPIPE || errno == ECONNRESET) {
             dw_log("SEND Connection closed by remote end conn_id=%d\n", conn_get_id_by_ptr(conn));
             conn->status = CLOSE;
             return 0;
diff --git a/src/dw_client.c b/src/dw_client.c
index 09a6d1e..395e763 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -144,7 +144,7 @@ void *thread_sender(void *data) {
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
 #endif
-        if (!conn_start_send(conn, conn->target)) {
+        if (conn_start_send(conn, conn->target) < 0 || conn_get_status(conn) == CLOSE) {
             fprintf(stderr,
                     "Forcing premature termination of sender thread while "
                     "attempting to send pkt %d\n",
diff --git a/src/dw_node.c b/src/dw_node.c
index 38108e1..4cfb0c3 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -410,7 +410,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     return 1;
 }
 
-// returns 1 if reply sent correctly, 0 otherwise
+// returns the number of bytes sent so far, -1 if an error occurred
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
@@ -567,7 +567,7 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
             return 0; }
         case REPLY:
             dw_log("Handling REPLY: req_id=%d\n", m->req_id);
-            if (conn_get_status_by_id(req->conn_id) != CLOSE && !reply(req, m, cmd, infos)) {
+            if (conn_get_status_by_id(req->conn_id) != CLOSE && reply(req, m, cmd, infos) < 0) {
                 fprintf(stderr, "reply() failed, conn_id: %d\n", req->conn_id);
                 return -1;
             }
@@ -751,9 +751,12 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         dw_log("calling send_mesg()\n");
-        if (!conn_send(conn))
+        if (conn_send(conn) < 0)
             goto err;
     }
+    if (conn_get_status(conn) == CLOSE)
+        goto err;
+
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
 
     // check whether we have new or leftover messages to process
-- 
2.43.0


From e0845dae0efdc60d5228e0966ab6c603fd061c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 07/41] fix: reclaim the sent part of the send buffer

The send buffer was rewound only after having been drained completely. A
connection always having something left to send ran out of space.
---
 src/connection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index f89d3a8..8361e32 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -240,6 +240,12 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
+    // reclaim the space of what has already been sent, once it gets large
+    if (conn->curr_send_buf - conn->send_buf > BUF_SIZE / 2) {
+        memmove(conn->send_buf, conn->curr_send_buf, conn->curr_send_size);
+        conn->curr_send_buf = conn->send_buf;
+    }
+
     message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
     return m;
-- 
2.43.0


From 4fdab2e4890fc13f355d55214b9dfff109f08a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 08/41] fix: start every connection slot clean and return it on
 allocation failure

A reused slot kept the request list of its previous connection. A slot whose
buffers could not be allocated stayed marked as busy forever.
---
 src/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index 8361e32..f317d3f 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -25,6 +25,7 @@ void conn_init() {
         conns[i].send_buf = NULL;
         conns[i].sock = -1;
         conns[i].busy = 0;
+        conns[i].req_list = NULL;
     }
 }
 
@@ -76,6 +77,7 @@ req_info_t* conn_req_add(conn_info_t *conn) {
 static void conn_reset(conn_info_t *conn) {
     for (req_info_t *temp = conn->req_list; temp != NULL; temp = req_free(temp))
         ;
+    conn->req_list = NULL;
 }
 
 req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
@@ -221,6 +223,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
     conns[conn_id].serialize_request = 0;
+    conns[conn_id].req_list = NULL;
 
     return conn_id;
 
@@ -230,6 +233,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
         free(new_recv_buf);
     if (new_send_buf)
         free(new_send_buf);
+    atomic_store(&conns[conn_id].busy, 0);
 
     return -1;
 }
-- 
2.43.0


From 47ee914a15bf7da84f50b4b562b0805eb9065d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:11 +0000
Subject: [PATCH 09/41] fix: make request identifiers valid in every table
 state

A free request entry was found by looking up identifier -1, the identifiers
turned negative after 2^31 requests, and an allocation failed as soon as the
next entry was busy, even with the rest of the table free. A reused entry also
kept the timeout of its previous request.
---
 src/request.c | 18 +++++++++++++++---
 src/request.h |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/request.c b/src/request.c
index 5b61fe7..d9e7e1c 100644
--- a/src/request.c
+++ b/src/request.c
@@ -1,5 +1,6 @@
 #include "request.h"
 #include "dw_debug.h"
+#include <limits.h>
 #include <string.h>
 
 req_info_t reqs[MAX_REQS];
@@ -30,14 +31,25 @@ req_info_t* req_free(req_info_t* r) {
 }
 
 req_info_t* req_alloc() {
-    int req_id = atomic_fetch_add(&last_reqs, 1);
-    req_info_t *r = &reqs[req_id % MAX_REQS];
+    int req_id;
+    req_info_t *r = NULL;
 
-    if (r->req_id != -1)
+    // skip the entries still in use
+    for (int i = 0; i < MAX_REQS; i++) {
+        req_id = atomic_fetch_add(&last_reqs, 1) & INT_MAX; // -1 tags unused entries
+        if (reqs[req_id % MAX_REQS].req_id == -1) {
+            r = &reqs[req_id % MAX_REQS];
+            break;
+        }
+    }
+
+    if (r == NULL)
         return NULL;
 
     r->req_id = req_id;
     r->curr_cmd = NULL;
+    r->message_ptr = NULL;
+    r->timeout_node = NULL;
     r->fwd_replies_left = -1;
     r->next = NULL;
     r->prev = NULL;
diff --git a/src/request.h b/src/request.h
index a8973ee..2ee40df 100644
--- a/src/request.h
+++ b/src/request.h
@@ -35,7 +35,7 @@ static inline message_t* req_get_message(req_info_t *r) {
 }
 
 static inline req_info_t *req_get_by_id(int req_id) {
-    if (reqs[req_id % MAX_REQS].req_id != req_id)
+    if (req_id < 0 || reqs[req_id % MAX_REQS].req_id != req_id)
         return NULL;
     return &reqs[req_id % MAX_REQS];
 }
-- 
2.43.0


From 5ea54c121311e8d8e48cf467158e35ad639f9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:45 +0000
Subject: [PATCH 10/41] fix: move the current command of pending requests
 together with their message

Removing a request shifts the messages received after it, but their current
command kept pointing to the old place.
---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index f317d3f..c98dbd2 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -99,6 +99,7 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
                temp->message_ptr - req_size,
                temp->message_ptr - req_size + req_get_message(temp)->req_size);
         temp->message_ptr -= req_size;
+        temp->curr_cmd = (command_t*)((unsigned char*)temp->curr_cmd - req_size);
     }
 
     if (conn->req_list == req)
-- 
2.43.0


From 004bdd8dd0ab1c678cfb5144c4fc6209b764cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:45 +0000
Subject: [PATCH 11/41] fix: reclaim the receive buffer and keep datagrams
 separate

Messages that are not requests, as the replies received by the client, were
never removed from the receive buffer, so a session ended after receiving 16MB.
With UDP, an empty datagram was taken for a closed connection and the rest of
a truncated one was prepended to the next datagram of any peer.
---
 src/connection.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index c98dbd2..6a40c8b 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -334,11 +334,30 @@ int conn_send(conn_info_t *conn) {
 
 int conn_recv(conn_info_t *conn) {
     int sock = conn->sock;
+
+    // a datagram is never continued by the next one
+    if (conn->proto == UDP) {
+        conn->curr_recv_size += conn->curr_recv_buf - conn->curr_proc_buf;
+        conn->curr_recv_buf = conn->curr_proc_buf;
+    }
+
+    // without pending requests, reclaim the space of the messages already processed
+    if (conn->req_list == NULL && conn->curr_proc_buf > conn->recv_buf) {
+        unsigned long leftover = conn->curr_recv_buf - conn->curr_proc_buf;
+        memmove(conn->recv_buf, conn->curr_proc_buf, leftover);
+        conn->curr_proc_buf = conn->recv_buf;
+        conn->curr_recv_buf = conn->recv_buf + leftover;
+        conn->curr_recv_size = BUF_SIZE - leftover;
+    }
+
     socklen_t recvsize = sizeof(conn->target);
     size_t received = recvfrom(sock, conn->curr_recv_buf, conn->curr_recv_size, 0,
                                (struct sockaddr*)&conn->target, (socklen_t*)&recvsize);
     dw_log("RECV returned: %d\n", (int)received);
-    if (received == 0) {
+    if (received == 0 && conn->proto == UDP) {
+        dw_log("RECV ignoring empty datagram\n");
+        return 1;
+    } else if (received == 0) {
         dw_log("RECV connection closed by remote end\n");
         return 0;
     } else if (received == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
-- 
2.43.0


From d7b34ff28a0b6b710120e333dab859ce3d2c26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:45 +0000
Subject: [PATCH 12/41] fix: close the connection of a peer sending malformed
 messages

Wrong sizes, unknown commands, missing terminators and oversized replies made
the node abort or read past the end of the message. Check a message when it
is received, and close just the connection it came from. With UDP, drop the
datagram instead of closing the socket shared by all the peers.
---
 src/connection.c | 16 +++++++++++++---
 src/dw_node.c    | 30 +++++++++++++++++++++++++-----
 src/message.c    | 37 +++++++++++++++++++++++++++++++++++++
 src/message.h    |  1 +
 4 files changed, 76 insertions(+), 8 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 6a40c8b..643f6ac 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -265,15 +265,22 @@ message_t* conn_next_message(conn_info_t *conn) {
         return NULL;
     }
 
+    if (m->req_size < sizeof(message_t) || m->req_size > BUF_SIZE) {
+        fprintf(stderr, "Got message with wrong size %u, conn_id=%d\n", m->req_size, conn_get_id_by_ptr(conn));
+        // no way to find where the next message starts
+        if (conn->proto == TCP)
+            conn->status = CLOSE;
+        return NULL;
+    }
+
     if (msg_size < m->req_size) {
         dw_log("Got header but incomplete message [recv size:%lu, expected size:%d], need to recv() more...\n", msg_size, m->req_size);
         return NULL;
     }
-    assert(m->req_size >= sizeof(message_t) && m->req_size <= BUF_SIZE);
-
     dw_log("Got complete ");
 #ifdef DW_DEBUG
-    msg_log(m, "");
+    if (message_is_valid(m))
+        msg_log(m, "");
 #endif
 
     conn->curr_proc_buf += m->req_size;
@@ -335,6 +342,9 @@ int conn_send(conn_info_t *conn) {
 int conn_recv(conn_info_t *conn) {
     int sock = conn->sock;
 
+    if (conn->status == CLOSE)
+        return 0;
+
     // a datagram is never continued by the next one
     if (conn->proto == UDP) {
         conn->curr_recv_size += conn->curr_recv_buf - conn->curr_proc_buf;
diff --git a/src/dw_node.c b/src/dw_node.c
index 4cfb0c3..6560789 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -414,12 +414,19 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    assert(m_dst->req_size >= opts->resp_size);
+    uint32_t resp_size = opts->resp_size;
+    // a reply always includes its EOM
+    if (resp_size < sizeof(message_t) + cmd_type_size(EOM))
+        resp_size = sizeof(message_t) + cmd_type_size(EOM);
+    if (m_dst->req_size < resp_size) {
+        fprintf(stderr, "No space left to reply with %u bytes\n", resp_size);
+        return -1;
+    }
 
     dw_log("conn_id:%d, m_dst: %p, send_buf: %p\n", req->conn_id, m_dst, conns[req->conn_id].send_buf);
 
     m_dst->req_id = m->req_id;
-    m_dst->req_size = opts->resp_size;
+    m_dst->req_size = resp_size;
     m_dst->cmds[0].cmd = EOM;
     m_dst->status = m->status;
 
@@ -588,8 +595,8 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
             req->curr_cmd = cmd_next(cmd);
             return 0; }
         default:
-            fprintf(stderr, "Error: Unknown cmd: %d\n", m->cmds[0].cmd);
-            return 0;
+            fprintf(stderr, "Error: Unknown cmd: %d\n", cmd->cmd);
+            return -1;
         }
     }
 
@@ -611,6 +618,11 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         return 1;
 
     for (message_t *m = conn_next_message(conn); m != NULL; m = conn_next_message(conn)) {
+        if (!message_is_valid(m)) {
+            fprintf(stderr, "Got malformed message, conn_id=%d\n", conn_id);
+            return 0;
+        }
+
         // FORWARD finished
         if (message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
@@ -733,6 +745,10 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
         return;
 
     if(p_ev->events & EPOLLERR || p_ev->events & EPOLLHUP) {
+        int val;
+        socklen_t len = sizeof(val);
+        if (conn->proto == UDP) // just clear the pending error
+            getsockopt(conn->sock, SOL_SOCKET, SO_ERROR, (void*)&val, &len);
         dw_log("Connection to remote peer refused, conn_id=%d\n", conn_id);
         goto err;
     }
@@ -760,7 +776,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
 
     // check whether we have new or leftover messages to process
-    if (!obtain_messages(conn_id, epollfd, infos))
+    if (!obtain_messages(conn_id, epollfd, infos) || conn_get_status(conn) == CLOSE)
         goto err;
 
     if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
@@ -786,6 +802,10 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     return;
 
  err:
+    // a UDP socket is shared by all of its peers
+    if (conn->proto == UDP)
+        return;
+
     if (conns->proto == TCP && conn_get_status(conn) == READY) {
         infos->active_conns--;
     }
diff --git a/src/message.c b/src/message.c
index 916371e..2d59782 100644
--- a/src/message.c
+++ b/src/message.c
@@ -69,6 +69,43 @@ uint32_t message_cmds_size(message_t *m) {
     return (unsigned char*)cmd_next(itr) - (unsigned char*)m;
 }
 
+// check that the commands of a received message fit within its announced size,
+// are well formed, and that each forward has its own REPLY
+// returns 1 if the message can be processed, 0 otherwise
+int message_is_valid(message_t *m) {
+    unsigned char *end = (unsigned char*)m + m->req_size;
+    int nested_fwd = 0, prev_was_mfwd = 0;
+
+    for (command_t *itr = message_first_cmd(m); ; itr = cmd_next(itr)) {
+        long leftover = end - (unsigned char*)itr;
+        if (leftover < (long)sizeof(command_t) || leftover < cmd_type_size(itr->cmd))
+            return 0;
+
+        switch (itr->cmd) {
+        case EOM:
+            return nested_fwd == 0;
+        case MULTI_FORWARD:
+        case FORWARD:
+            if (cmd_get_opts(fwd_opts_t, itr)->proto >= PROTO_NUMBER)
+                return 0;
+            if (itr->cmd == FORWARD || !prev_was_mfwd)
+                nested_fwd++;
+            break;
+        case REPLY:
+            if (nested_fwd > 0)
+                nested_fwd--;
+            break;
+        case COMPUTE:
+        case LOAD:
+        case STORE:
+            break;
+        default:
+            return 0;
+        }
+        prev_was_mfwd = (itr->cmd == MULTI_FORWARD);
+    }
+}
+
 // copy a message, and its commands starting from cmd until the matching REPLY is found
 // m_dst->req_size should contain the available size
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
diff --git a/src/message.h b/src/message.h
index aee36ad..cbd97fc 100644
--- a/src/message.h
+++ b/src/message.h
@@ -66,6 +66,7 @@ command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd);
 command_t* message_skip_cmds(message_t* m, command_t *cmd, int to_skip);
 
 uint32_t message_cmds_size(message_t *m);
+int message_is_valid(message_t *m);
 
 int cmd_type_size(command_type_t type);
 command_t* cmd_next(command_t *c);
-- 
2.43.0


From 34ffea17ecb1ba8b3bd909fb8345a958f3ff37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:26 +0000
Subject: [PATCH 13/41] fix: complete partial sends on every connection

The request to be notified when more data can be sent was made on the socket
of the first connection instead of the right one. It was made just for the
connection being served, so the rest of a reply triggered by the storage or by
another node stayed in the buffer.
---
 src/dw_node.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 6560789..22ac613 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -261,6 +261,20 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
 void setnonblocking(int fd);
 
+// if conn_id has data left to send, ask to be notified as soon as it can be sent
+static void arm_send(int epollfd, int conn_id) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN | EPOLLOUT;
+        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
+        conn_set_status(conn, SENDING);
+    }
+}
+
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
 // remove the first (cmd_id+1) commands from cmds[], and forward the
 // rest to the next hop
@@ -358,7 +372,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
-        
+    arm_send(epollfd, fwd_conn_id);
+
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
@@ -437,10 +452,15 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     msg_log(m_dst, "REPLY ");
 #endif
 
-    conn_info_t *conn = conn_get_by_id(req->conn_id);
+    int conn_id = req->conn_id;
+    struct sockaddr_in target = req->target;
+    conn_info_t *conn = conn_get_by_id(conn_id);
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target);
+
+    int rv = conn_start_send(conn, target);
+    arm_send(infos->epollfd, conn_id);
+    return rv;
 }
 
 void compute_for(unsigned long usecs) {
@@ -779,15 +799,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (!obtain_messages(conn_id, epollfd, infos) || conn_get_status(conn) == CLOSE)
         goto err;
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conns->sock, conn_id, conns->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conns->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
+    arm_send(epollfd, conn_id);
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
         struct epoll_event ev2;
         ev2.data.u64 = i2l(SOCKET, conn_id);
-- 
2.43.0


From 4dfaa9b92e1ce5407ca7a941d63299e3d5ba7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:26 +0000
Subject: [PATCH 14/41] fix: keep the statistics and the timeouts in sync with
 the connections

The requests of a closed connection stayed counted as active and their
timeouts stayed queued. Connections were counted again after each partial
send and after an immediate connect, were not subtracted when closed while
sending, and were counted on the accepting worker instead of the serving one.
Requests without a reply were never removed.
---
 src/dw_node.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 22ac613..931532d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -573,6 +573,21 @@ void close_and_forget(int epollfd, int sock) {
     close(sock);
 }
 
+// tear down a connection with all of its pending requests
+void close_conn(int epollfd, int conn_id, conn_worker_info_t *infos) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    for (req_info_t *req = conn->req_list; req != NULL; req = req->next) {
+        remove_timeout(infos, req->req_id, epollfd);
+        infos->active_reqs--;
+    }
+    if (conn->proto == TCP && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT)
+        infos->active_conns--;
+
+    close_and_forget(epollfd, conn->sock);
+    conn_free(conn_id);
+}
+
 // returns 1 if the message has been completely executed, 0 if the message need more time, -1 if some error occured
 int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
     message_t *m = req_get_message(req);
@@ -620,6 +635,9 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         }
     }
 
+    // no REPLY requested
+    conn_req_remove(conn_get_by_id(req->conn_id), req);
+    infos->active_reqs--;
     return 1;
 }
 
@@ -780,9 +798,11 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if ((p_ev->events & EPOLLOUT) && (type == CONNECT)) {
         dw_log("calling establish_conn()\n");
+        bool connecting = (conn_get_status(conn) == CONNECTING);
         if (!establish_conn(epollfd, conn_id))
             goto err;
-        infos->active_conns++;
+        if (connecting)
+            infos->active_conns++;
         // we need the send_messages() below to still be tried afterwards
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
@@ -808,7 +828,6 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
                conn->sock, conn_id, conn->curr_send_size);
         sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, READY);
-        infos->active_conns++;
     }
 
     return;
@@ -818,11 +837,7 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     if (conn->proto == UDP)
         return;
 
-    if (conns->proto == TCP && conn_get_status(conn) == READY) {
-        infos->active_conns--;
-    }
-    close_and_forget(epollfd, conn->sock);
-    conn_free(conn_id);
+    close_conn(epollfd, conn_id, infos);
 }
 
 void* storage_worker(void* args) {
@@ -1063,11 +1078,11 @@ void* conn_worker(void* args) {
                 }
 
                 conn_set_status_by_id(conn_id, READY);
-                infos->active_conns++;
                 ev.events = EPOLLIN;
                 ev.data.u64 = i2l(SOCKET, conn_id);
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
+                conn_worker_infos[next_thread_id].active_conns++;
                 if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
                         perror("epoll_ctl() failed");
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
-- 
2.43.0


From 438979ad33cc8c2cf08343599ebd42b93649a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:26 +0000
Subject: [PATCH 15/41] fix: drop the replies a request is not waiting for

After a forward completed with part of its replies, the remaining ones kept
being counted and made the request skip further commands.
---
 src/dw_node.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 931532d..ad844ad 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -379,7 +379,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     if (req->fwd_replies_left == -1)
-        req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack;
+        req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack > 0 ? cmd_get_opts(reply_opts_t, reply_cmd)->n_ack : 1;
 
     return 1;
 }
@@ -412,7 +412,14 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 
     dw_log("Found match with conn_id %d\n", req->conn_id);
         
-    if (--(req->fwd_replies_left) <= 0) {
+    // surplus or late reply, the request is not waiting for it
+    if (req->fwd_replies_left <= 0) {
+        dw_log("Unexpected response to FORWARD, req_id:%d - Dropped\n", req_id);
+        return 1;
+    }
+
+    if (--(req->fwd_replies_left) == 0) {
+        req->fwd_replies_left = -1;
         message_t *m = req_get_message(req);
 
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
-- 
2.43.0


From b6607c0f71e6c3966e9d06ba9279af024312c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:26 +0000
Subject: [PATCH 16/41] fix: do not close a connection with forwards still
 waiting for their reply

The connection to the next hop was closed after the first reply. The replies
to any other forward sharing the connection were lost, including those to a
further forward of the same request to the same node.
---
 src/connection.c |  1 +
 src/connection.h |  1 +
 src/dw_node.c    | 10 +++++-----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 643f6ac..ef5d1d3 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -223,6 +223,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     conns[conn_id].curr_recv_size = BUF_SIZE;
     conns[conn_id].curr_send_buf = conns[conn_id].send_buf;
     conns[conn_id].curr_send_size = 0;
+    conns[conn_id].fwds_in_flight = 0;
     conns[conn_id].serialize_request = 0;
     conns[conn_id].req_list = NULL;
 
diff --git a/src/connection.h b/src/connection.h
index ef2988d..a31af2f 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -38,6 +38,7 @@ typedef struct {
     unsigned long curr_send_size; // size of leftover data to send
 
     req_info_t *req_list;
+    unsigned int fwds_in_flight;  // forwards sent on this connection and not replied yet
     unsigned int serialize_request;
     pthread_t parent_thread;
     atomic_int busy;             // 1 if conn is allocated, 0 otherwise
diff --git a/src/dw_node.c b/src/dw_node.c
index ad844ad..e8239fd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -373,6 +373,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
     arm_send(epollfd, fwd_conn_id);
+    conns[fwd_conn_id].fwds_in_flight++;
 
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
@@ -672,15 +673,14 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         if (message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
-            if (!handle_forward_reply(m->req_id, epollfd, infos)) {
-                    dw_log("handle_forward_reply() failed\n");
-                    return 0;
-            }
+            handle_forward_reply(m->req_id, epollfd, infos);
             //TODO: This causes a disconnection right after the forwad-reply concludes.
             // This should be removed ASAP, since it deteriorates the performance of subsequent forwards to the same node,
             // However keeping the connection open causes performance deterioration for all the other operations; 
             // The reason why has yet to be properly investigated
-            return 0;
+            // In the meantime, never disconnect while other forwards wait for their reply on this connection
+            if (conn->fwds_in_flight > 0 && --(conn->fwds_in_flight) == 0 && conn->proto == TCP)
+                return 0;
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
-- 
2.43.0


From 6a66a2eeb853df2344d329a7368ef36b3df9fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:52 +0000
Subject: [PATCH 17/41] fix: compute forward timeouts from the time elapsed
 just once

The time elapsed since the queue was last empty was added twice to the timeouts
inserted while others were pending, so they expired late. When two timeouts
expired together, the timer was programmed with 0 and got disarmed.
---
 src/dw_node.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index e8239fd..330d3a0 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
 #include <netdb.h>
@@ -82,7 +83,6 @@ typedef struct {
     int epollfd;
 
     pqueue_t *timeout_queue;
-    int time_elapsed;
 
     // communication with storage
     int storefd; // write
@@ -194,7 +194,7 @@ int safe_read(int fd, unsigned char *buf, size_t len) {
 void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micros) {
     data_t data = {.value = req_id};
     req_info_t *req = req_get_by_id(req_id);
-    int new_micros = micros;
+    long new_micros = micros;
 
     if (req == NULL)
         return;
@@ -202,11 +202,10 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        new_micros += infos->time_elapsed;
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
-    } else {
-        infos->time_elapsed = 0;
+        if (new_micros > INT_MAX)
+            new_micros = INT_MAX;
     }
 
     req->timeout_node = pqueue_insert(infos->timeout_queue, new_micros, data);
@@ -243,13 +242,11 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
     if (pqueue_size(infos->timeout_queue) > 0) {
         int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
-        sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        infos->time_elapsed = time_elapsed;
-        timerspec = us_to_its(next_timeout - time_elapsed);
+        // 0 would disarm the timer
+        timerspec = us_to_its(next_timeout > time_elapsed ? next_timeout - time_elapsed : 1);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
         dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
     } else {
-        infos->time_elapsed = 0;
         timerspec = us_to_its(0);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
         dw_log("TIMEOUT removed, req_id: %d, timer disarmed.\n", req_id);
-- 
2.43.0


From c545dabfb1319d1706c661f534385bec12aebf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:52 +0000
Subject: [PATCH 18/41] fix: handle the expiration of every forward timeout

An expired timeout was ignored if the identifier given by the client differed
from the one of the node, that is for all but the first requests, and for
forwards to multiple nodes. The latter also queued a timeout for each node and
forgot all but the last one. A timer re-armed while its old expiration was still
to be handled made the next timeout expire early.
---
 src/dw_node.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 330d3a0..4c84de4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -372,8 +372,9 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     arm_send(epollfd, fwd_conn_id);
     conns[fwd_conn_id].fwds_in_flight++;
 
-    if (fwd.timeout) {
-        insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
+    // a single timeout covers all the forwards of a MULTI_FORWARD
+    if (fwd.timeout && req->timeout_node == NULL) {
+        insert_timeout(infos, req->req_id, epollfd, fwd.timeout > INT_MAX ? INT_MAX : fwd.timeout);
     }
 
     if (req->fwd_replies_left == -1)
@@ -731,6 +732,11 @@ void setnonblocking(int fd) {
 }
 
 void handle_timeout(int epollfd, conn_worker_info_t *infos) {
+    // the timer may have been re-armed since when its expiration was reported
+    uint64_t val;
+    if (read(infos->timerfd, &val, sizeof(val)) < 0)
+        return;
+
     if (!pqueue_size(infos->timeout_queue))
         return;
 
@@ -745,9 +751,8 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     remove_timeout(infos, req_id, epollfd);
 
     command_t *p_cmd = req->curr_cmd;
-    // if curr_cmd is no more on MULTI_FORWARD, ignore
-    // TODO: case with 2 independent (non-nested) forwards in same req
-    if (p_cmd->cmd != FORWARD || m->req_id != req_id)
+    // if curr_cmd is no more on a forward, ignore
+    if (p_cmd->cmd != FORWARD && p_cmd->cmd != MULTI_FORWARD)
         return;
     fwd_opts_t *fwd = cmd_get_opts(fwd_opts_t, p_cmd);
     if (fwd->retries > 0) {
@@ -759,6 +764,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
         dw_log("TIMEOUT expired, failed, skipping: %d\n", fwd->on_fail_skip);
         
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
+        req->fwd_replies_left = -1;
         m->status = -1;
         process_messages(req, epollfd, infos);
     } else {
-- 
2.43.0


From 364fb39e5d585a5cf7e4bb6e94047654bcaf606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 19/41] fix: handle a forward refused by connect() as one that
 gets no reply

An immediate refusal closed the connection of the client, together with its
other requests, and left the failed connection allocated.
---
 src/dw_node.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4c84de4..f16ead4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -256,7 +256,14 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
     return req_timeout - time_elapsed;
 }
 
+// a single timeout covers all the forwards of a MULTI_FORWARD
+static void insert_fwd_timeout(conn_worker_info_t *infos, req_info_t *req, int epollfd, uint32_t timeout) {
+    if (timeout && req->timeout_node == NULL)
+        insert_timeout(infos, req->req_id, epollfd, timeout > INT_MAX ? INT_MAX : timeout);
+}
+
 void setnonblocking(int fd);
+void close_conn(int epollfd, int conn_id, conn_worker_info_t *infos);
 
 // if conn_id has data left to send, ask to be notified as soon as it can be sent
 static void arm_send(int epollfd, int conn_id) {
@@ -323,7 +330,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             if (rv == -1) {
                 if (errno != EAGAIN && errno != EINPROGRESS) {
                     dw_log("unexpected error from connect(): %s\n", strerror(errno));
-                    return 0;
+                    close_conn(epollfd, fwd_conn_id, infos);
+                    // same as a target that does not reply
+                    insert_fwd_timeout(infos, req, epollfd, fwd.timeout);
+                    return 1;
                 }
                 // normal case of asynchronous connect
                 conn_set_status_by_id(fwd_conn_id, CONNECTING);
@@ -372,10 +382,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     arm_send(epollfd, fwd_conn_id);
     conns[fwd_conn_id].fwds_in_flight++;
 
-    // a single timeout covers all the forwards of a MULTI_FORWARD
-    if (fwd.timeout && req->timeout_node == NULL) {
-        insert_timeout(infos, req->req_id, epollfd, fwd.timeout > INT_MAX ? INT_MAX : fwd.timeout);
-    }
+    insert_fwd_timeout(infos, req, epollfd, fwd.timeout);
 
     if (req->fwd_replies_left == -1)
         req->fwd_replies_left = cmd_get_opts(reply_opts_t, reply_cmd)->n_ack > 0 ? cmd_get_opts(reply_opts_t, reply_cmd)->n_ack : 1;
-- 
2.43.0


From 1a69dcc5f11b2ab920800792009267f726e86366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 20/41] fix: hand storage commands over by value

The storage worker read the command from the receive buffer of the connection,
where it could have been moved or freed in the meantime. It also looked for the
sync flag past the end of load commands, so that a load could wait for the next
periodic sync.
---
 src/dw_node.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index f16ead4..641dd49 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -124,7 +124,11 @@ typedef struct {
 } storage_worker_info_t;
 
 typedef struct {
-    command_t *cmd;
+    command_type_t cmd;
+    union {
+        store_opts_t store;
+        load_opts_t load;
+    } opts;
     int worker_id;
     int req_id;
 } storage_req_t;
@@ -631,7 +635,13 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         case STORE:
         case LOAD: {
             storage_req_t w;
-            w.cmd = cmd;
+            memset(&w, 0, sizeof(w));
+            // the message may be moved or freed before the storage worker is done
+            w.cmd = cmd->cmd;
+            if (cmd->cmd == STORE)
+                w.opts.store = *cmd_get_opts(store_opts_t, cmd);
+            else
+                w.opts.load = *cmd_get_opts(load_opts_t, cmd);
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
@@ -964,7 +974,6 @@ void* storage_worker(void* args) {
                 dw_log("storage sync...\n");
             } else if (type == STORAGE) {
                 storage_req_t w;
-                command_t *storage_cmd;
                 int worker_id;
                 int req_id;
 
@@ -974,22 +983,21 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                storage_cmd = w.cmd;
                 worker_id = w.worker_id;
                 req_id = w.req_id;
 
                 dw_log("STORAGE cmd from conn_id %d\n", req_id);
 
-                if (storage_cmd->cmd == STORE) {
-                    store(infos, infos->store_buf, cmd_get_opts(store_opts_t, storage_cmd));
-                } else if (storage_cmd->cmd == LOAD) {
-                    load(infos, infos->store_buf, cmd_get_opts(load_opts_t, storage_cmd));
+                if (w.cmd == STORE) {
+                    store(infos, infos->store_buf, &w.opts.store);
+                } else if (w.cmd == LOAD) {
+                    load(infos, infos->store_buf, &w.opts.load);
                 } else { // error
                     fprintf(stderr, "Unknown command sent to storage server - skipping");
                     continue;
                 }
 
-                if (!cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                if (w.cmd != STORE || !w.opts.store.wait_sync || infos->periodic_sync_msec <= 0) {
                     safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
                 } else {
                     data_t data = {.value=req_id};
-- 
2.43.0


From 05604213aaeba7d0e6b51ca4cea0732052b2361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 21/41] fix: ignore storage acknowledgments of requests that
 are gone

A client disconnecting while its request was waiting for the storage made the
node crash.
---
 src/dw_node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 641dd49..1157aef 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1121,7 +1121,10 @@ void* conn_worker(void* args) {
                 }
 
                 dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                process_messages(req_get_by_id(req_id_ACK), infos->epollfd, infos);
+                req_info_t *req = req_get_by_id(req_id_ACK);
+                // the connection may have been closed in the meantime
+                if (req != NULL)
+                    process_messages(req, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
-- 
2.43.0


From 7b35bbf395e071babb07a13f5e8574e9d779673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 22/41] fix: use the full 64 bit offset in storage operations

Offsets were truncated to 32 bits, and with O_DIRECT the value standing for a
sequential access was rounded to offset 0. Loads with O_DIRECT were not aligned
at all, which made them fail.
---
 src/dw_node.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 1157aef..ea25ab0 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -499,13 +499,14 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = store_opts->store_nbytes;
-    uint32_t offset = store_opts->offset;
+    uint64_t offset = store_opts->offset;
     uint8_t wait_sync = store_opts->wait_sync;
 
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
     if (storage_info->use_odirect) {
         total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
-        offset = (offset + blk_size - 1) / blk_size * blk_size;
+        if (offset != -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
     }
 
     if (offset != -1) {
@@ -551,7 +552,14 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = load_opts->load_nbytes;
-    uint32_t offset = load_opts->offset;
+    uint64_t offset = load_opts->offset;
+
+    // Round-up to the nearest multiple of blk_size when using O_DIRECT
+    if (storage_info->use_odirect) {
+        total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
+        if (offset != -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
+    }
 
     dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
     if (offset != -1) {
-- 
2.43.0


From aeed0683bc047101248e8a95c6bd42df299e1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 23/41] fix: forward over a connection of the right protocol
 and worker

A forward over UDP picked any connection of the worker, even the TCP one of the
client, and the socket opened otherwise was never waited for replies. A forward
over TCP could pick the connection of another worker, which waits for events
somewhere else.
---
 src/connection.c | 6 ++++--
 src/dw_node.c    | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index ef5d1d3..0de0221 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -117,10 +117,12 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
     for (int i = 0; i < MAX_CONNS; i++) {
         if (conns[i].sock == -1)
             continue;
-        if (proto == UDP && conns[i].parent_thread == curr_thread) {
+        if (conns[i].proto != proto || conns[i].parent_thread != curr_thread)
+            continue;
+        if (proto == UDP) {
             rv = i;
             break;
-        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr && conns[i].proto == proto) {
+        } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr) {
             rv = i;
             break;
         }
diff --git a/src/dw_node.c b/src/dw_node.c
index ea25ab0..9c9437d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -345,6 +345,11 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                 conn_set_status_by_id(fwd_conn_id, READY);
                 infos->active_conns++;
             }
+        } else {
+            struct epoll_event ev;
+            ev.events = EPOLLIN;
+            ev.data.u64 = i2l(SOCKET, fwd_conn_id);
+            sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, clientSocket, &ev));
         }
     }
 
-- 
2.43.0


From 31e36b6953d904e6c3370dea684220fdc6bce386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:34 +0000
Subject: [PATCH 24/41] fix: go on serving after a failed accept() and after
 printing statistics

A peer disconnecting before being accepted terminated the node. Printing the
statistics discarded the other events reported with the signal, including the
one-shot completion of a connect().
---
 src/dw_node.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 9c9437d..14a7456 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1099,7 +1099,11 @@ void* conn_worker(void* args) {
                 struct sockaddr_in addr;
                 socklen_t addr_size = sizeof(addr);
                 int conn_sock;
-                sys_check(conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size));
+                if ((conn_sock = accept(infos->listen_sock, (struct sockaddr *)&addr, &addr_size)) < 0) {
+                    // e.g., the peer disconnected in the meantime
+                    perror("accept() failed");
+                    continue;
+                }
 
                 dw_log("Accepted connection from: %s:%d\n",
                        inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
@@ -1167,8 +1171,6 @@ void* conn_worker(void* args) {
                 }
                 printf("[%ld.%09ld][%s] STATS total-active-conns: %d, total-active-reqs: %d\n", ts.tv_sec, ts.tv_nsec, thread_name, 
                                                                                             total_active_conns, total_active_reqs);
-
-                break;
             } else {
                 exec_request(infos->epollfd, &events[i], infos);
             }
-- 
2.43.0


From 1cba488710eaf517c92f50ee7020d32d0b9f34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:05 +0000
Subject: [PATCH 25/41] fix: do not carry the step of a core range over to the
 next ranges

In a list like 0-4:2,5-7 the step given for the first range was applied to the
second one as well.
---
 src/thread_affinity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_affinity.c b/src/thread_affinity.c
index 1e85e2a..4909c21 100644
--- a/src/thread_affinity.c
+++ b/src/thread_affinity.c
@@ -18,9 +18,9 @@ void aff_list_parse(char *str, cpu_set_t* mask, int ncpu) {
     int val;
     int max;
 
-    int step = 1;
     CPU_ZERO(mask);
     while ((tok = strsep(&str, ",")) != NULL) {
+        int step = 1;
         if (sscanf(tok, "%d-%d:%d", &min, &max, &step) >= 2) {
             if (min > max) {
                 int tmp = max;
-- 
2.43.0


From 2825c50bd5b7abc0e809c5cb6cfdf616a818fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:05 +0000
Subject: [PATCH 26/41] fix: refuse ports out of range and host names mistaken
 for a protocol

A port above 65535 was silently truncated. A host name starting with tcp or udp
lost its first three letters.
---
 src/address_utils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 59705d1..e6651b8 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -15,7 +15,7 @@
  */
 void addr_parse(char* hostport_str, struct sockaddr_in* addr) {
     char* hostname = DEFAULT_ADDR;
-    int port = atoi(DEFAULT_PORT);
+    long port = atoi(DEFAULT_PORT);
     char* port_str;
 
     check(strlen(hostport_str) > 0,
@@ -32,6 +32,7 @@ void addr_parse(char* hostport_str, struct sockaddr_in* addr) {
         char* end_ptr = NULL;
         port = strtol(port_str, &end_ptr, 10);
         check(!*end_ptr, "Port '%s' is not a numeric value!\n", port_str);
+        check(port >= 0 && port <= 65535, "Port '%s' is out of range!\n", port_str);
     }
 
     // Now hostport_str containts hostname (or ip) only
@@ -72,11 +73,11 @@ void addr_proto_parse(char* arg, char *nodehostport, proto_t *proto) {
     if (!tok) {
         int parse_proto_check = 0;
 
-        if (strncmp(arg, "udp", 3) == 0) {
+        if (strncmp(arg, "udp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = UDP;
             parse_proto_check = 1;
         }
-        if (strncmp(arg, "tcp", 3) == 0) {
+        if (strncmp(arg, "tcp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = TCP;
             parse_proto_check = 1;
         }
-- 
2.43.0


From 0ffd4926e3d3d3c173d5f23e2b2de9ab42b3275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:05 +0000
Subject: [PATCH 27/41] fix: make room for the terminator in the smallest reply

A reply of just the header is terminated by the EOM command past its end, where
the receiver finds something else.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 395e763..13417ab 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -65,7 +65,7 @@ pthread_t receiver[MAX_THREADS];
 
 #define TCPIP_HEADERS_SIZE 66
 #define MIN_SEND_SIZE (sizeof(message_t) + 2 * sizeof(command_t))
-#define MIN_REPLY_SIZE sizeof(message_t)
+#define MIN_REPLY_SIZE (sizeof(message_t) + sizeof(command_t))
 
 #define MAX_PKTS 1000000
 #define MAX_RATES 1000000
-- 
2.43.0


From 62f2ea85ae84de5600215554d1a84b6424d67029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:05 +0000
Subject: [PATCH 28/41] fix: keep the size of the replies of a forward until
 they are used

The reply of each forward referred to a variable of an option handler already
returned, so its size was undefined. The same applied to a reply giving just the
number of acknowledgments. Reply sizes read from a file lost their samples.
---
 src/dw_client.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 13417ab..4923b1d 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -610,7 +610,10 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         }
         
         // Reserve a forward reply command
-        data_t data = { .ptr=&val }; 
+        pd_spec_t *deferred_val = malloc(sizeof(pd_spec_t));
+        check(deferred_val != NULL);
+        *deferred_val = val;
+        data_t data = { .ptr=deferred_val };
         queue_enqueue(deferred_replies, i, data);
 
         break; }
@@ -621,7 +624,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         check(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE <= BUF_SIZE, "Too big send request size, maximum is %d", BUF_SIZE);
         break;
     case REPLY_CMD: {
-        pd_spec_t val;
+        pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
+        pd_spec_t val = *deferred_val;
         int nack = 1;
 
         char *tok;
@@ -638,12 +642,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
 
         // Update deferred reply
         int deferred_nack = queue_node_key(queue_tail(deferred_replies));
-        pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
-        deferred_val->val = val.val;
-        deferred_val->min = val.min;
-        deferred_val->max = val.max;
-        deferred_val->std = val.std;
-        deferred_val->prob = val.prob;
+        *deferred_val = val;
 
         if (nack == 0) // TODO: allow n_ack 0 when reply messages will be optional 
             nack = 1;
-- 
2.43.0


From 3818da8e1225bee5c4efb30d76583d25811376b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 29/41] fix: accept distributions with more fields for sizes of
 packets, replies and stores

The options to set the size of replies and stored data split distributions like
unif:min=1000,max=2000 at the comma and refused them, and the one for the size
of packets refused all those without an average. The range given for a reply was
replaced by the one of all possible sizes.
---
 src/dw_client.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 4923b1d..9a1f73f 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -511,23 +511,26 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         break; }
     case STORE_DATA: {        
         uint8_t sync = 1;
-        char* reserve;
-        char *tok = strtok_r(arg, ",", &reserve);
-        while (tok != NULL) {
+        pd_spec_t val;
+        char spec[256] = "";
+        char *tok;
+        while ((tok = strsep(&arg, ",")) != NULL) {
             if (strncmp(tok, "nosync", 6) == 0) {
                 sync = 0;
             } else if (strncmp(tok, "sync", 4) == 0) {
                 sync = 1;
             } else {
-                pd_spec_t val;
-                check(pd_parse_bytes(&val, arg), "Wrong store data size specification");
-                ccmd_add(ccmd, STORE, &val);
-                ccmd_last(ccmd)->pd_val2 = store_offset_pd;
+                // put the fields of the size specification back together
+                check(strlen(spec) + strlen(tok) + 2 <= sizeof(spec), "Too long store data size specification");
+                if (spec[0] != '\0')
+                    strcat(spec, ",");
+                strcat(spec, tok);
             }
-
-            tok = strtok_r(NULL, ",", &reserve);
         }
 
+        check(spec[0] != '\0' && pd_parse_bytes(&val, spec), "Wrong store data size specification");
+        ccmd_add(ccmd, STORE, &val);
+        ccmd_last(ccmd)->pd_val2 = store_offset_pd;
         ccmd_last(ccmd)->store.wait_sync = sync;
 
         break; }
@@ -620,6 +623,8 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
     case SEND_REQUEST_SIZE:
         check(pd_parse_bytes(&send_pkt_size_pd, arg), "Wrong send request size specification");
         
+        if (isnan(send_pkt_size_pd.val)) // e.g., unif:
+            break;
         check(send_pkt_size_pd.val >= MIN_SEND_SIZE, "Too small send request size, minimum is %lu", MIN_SEND_SIZE);
         check(send_pkt_size_pd.val + TCPIP_HEADERS_SIZE <= BUF_SIZE, "Too big send request size, maximum is %d", BUF_SIZE);
         break;
@@ -627,17 +632,26 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
         pd_spec_t* deferred_val = queue_node_data(queue_tail(deferred_replies)).ptr;
         pd_spec_t val = *deferred_val;
         int nack = 1;
+        char spec[256] = "";
 
         char *tok;
         while ((tok = strsep(&arg, ",")) != NULL) {
-            if (sscanf(tok, "nack=%d", &nack) == 1) {
+            if (sscanf(tok, "nack=%d", &nack) == 1)
                 continue;
-            } else {
-                check(pd_parse_bytes(&val, tok), "Wrong response size specification");
+            // put the fields of the size specification back together
+            check(strlen(spec) + strlen(tok) + 2 <= sizeof(spec), "Too long response size specification");
+            if (spec[0] != '\0')
+                strcat(spec, ",");
+            strcat(spec, tok);
+        }
+
+        if (spec[0] != '\0') {
+            check(pd_parse_bytes(&val, spec), "Wrong response size specification");
+            if (isnan(val.min) || val.min < MIN_REPLY_SIZE)
                 val.min = MIN_REPLY_SIZE;
+            if (isnan(val.max) || val.max > BUF_SIZE)
                 val.max = BUF_SIZE;
-                check(val.prob != FIXED || (val.val >= val.min && val.val <= val.max), "Wrong min-max range for response size");
-            }
+            check(val.prob != FIXED || (val.val >= val.min && val.val <= val.max), "Wrong min-max range for response size");
         }
 
         // Update deferred reply
-- 
2.43.0


From 27113b0b20d585f19fa777ced21486e7dfc6c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 30/41] fix: place each explicit reply where it is given

With nested forwards, just the reply of the innermost one was placed where given
on the command line. Those of the outer ones were moved to the end of the request,
after commands meant to follow them.
---
 src/dw_client.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 9a1f73f..1b9a6a2 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -55,7 +55,6 @@ struct argp_client_arguments {
     char nodehostport[MAX_HOSTPORT_STRLEN];
     pd_spec_t last_resp_size;
 } input_args;
-int nested_fwd_parsing = 0; // used in parsing phase only
 queue_t* deferred_replies; // used for parsing phase only (nack -> pd_val)
 
 #define MAX_THREADS 256
@@ -600,7 +599,6 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 ccmd_last(ccmd)->fwd.on_fail_skip = 1;
                 ccmd_last(ccmd)->fwd.proto = fwd_proto;
 
-                nested_fwd_parsing++;
                 i++;
             }
         }
@@ -664,12 +662,11 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             queue_tail(deferred_replies)->key = nack;
 
         // Use a reserved reply
-        if (nested_fwd_parsing > 0) {
+        if (queue_size(deferred_replies) > 1) {
             ccmd_add(ccmd, REPLY, queue_node_data(queue_tail(deferred_replies)).ptr);
             ccmd_last(ccmd)->resp.n_ack = queue_node_key(queue_tail(deferred_replies));
 
             queue_dequeue_tail(deferred_replies);
-            nested_fwd_parsing = 0;
         }
         break; }
     case NUM_THREADS:
@@ -748,7 +745,6 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
             queue_dequeue_tail(deferred_replies);
         } 
 
-        nested_fwd_parsing = 0;
         queue_free(deferred_replies);
         break;
     default:
-- 
2.43.0


From 815ae973c32aae89fb0d6439ac7919c1adff3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 31/41] fix: forward to the default address when just the
 protocol is given

The address was left uninitialized.
---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 1b9a6a2..c844ce1 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -574,7 +574,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 || sscanf(tok, "timeout=%d", &timeout_us) == 1)
                     continue;
             else {
-                char fwdhostport[MAX_HOSTPORT_STRLEN];
+                char fwdhostport[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT;
                 proto_t fwd_proto = TCP;
 
                 addr_proto_parse(tok, fwdhostport, &fwd_proto);
-- 
2.43.0


From fb98c368a4760c70a8dd4d2a837d2072975e1659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 32/41] fix: never send a request smaller than its commands

A request with many commands was announced and sent with the configured packet
size, even when its commands took more than that.
---
 src/dw_client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index c844ce1..9332b94 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -123,7 +123,8 @@ void *thread_sender(void *data) {
 
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
-        ccmd_dump(ccmd, m);
+        check(ccmd_dump(ccmd, m) == 1, "No space left to send a request");
+        uint32_t cmds_size = message_cmds_size(m);
 
         /* remember time of send relative to ts_start */
         struct timespec ts_send;
@@ -135,10 +136,12 @@ void *thread_sender(void *data) {
         usecs_elapsed[thread_id][idx(pkt_id)] = 0;
         /*---- Issue a request to the server ---*/
         m->req_id = pkt_id;
-        m->req_size = pd_sample(&send_pkt_size_pd);
+        // the announced size always covers the commands of the request
+        double pkt_size = pd_sample(&send_pkt_size_pd);
+        check(pkt_size <= BUF_SIZE, "Too big request size: %g", pkt_size);
+        m->req_size = pkt_size > cmds_size ? pkt_size : cmds_size;
 
         dw_log("sending %u bytes...\n", m->req_size);
-        assert(m->req_size <= BUF_SIZE);
 
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
-- 
2.43.0


From f4b7fd324c674ef0e348c5cb128d24c4ad5c3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 33/41] fix: wait for the sender before releasing what it uses

At the end of a session the connection was freed and the send times were reset
with the sender possibly still running. The times of the requests never sent were
left uninitialized.
---
 src/dw_client.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 9332b94..ecf0099 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -333,6 +333,10 @@ void *thread_receiver(void *data) {
             dw_log(
                 "Session is over (after receive of pkt %d), closing socket\n",
                 i);
+            // unblock the sender, in case of an early termination
+            shutdown(clientSocket[thread_id], SHUT_RDWR);
+            dw_log("Joining sender thread\n");
+            pthread_join(sender[thread_id], NULL);
             close(clientSocket[thread_id]);
             conn_free(thr_data.conn_id);
             if (use_per_session_output) {
@@ -355,8 +359,6 @@ void *thread_receiver(void *data) {
                 memset(&usecs_send[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
                 memset(&usecs_elapsed[thread_id][0], 0, sizeof(usecs_send[thread_id][0]) * MAX_PKTS);
             }
-            dw_log("Joining sender thread\n");
-            pthread_join(sender[thread_id], NULL);
         }
     }
 
@@ -846,8 +848,8 @@ int main(int argc, char *argv[]) {
     for (int i = 0; i < MAX_THREADS; i++) {
         clientSocket[i] = -1;
         if (i < input_args.num_threads) {
-            check(usecs_send[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
-            check(usecs_elapsed[i] = malloc(sizeof(usecs_send[0][0]) * MAX_PKTS));
+            check(usecs_send[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
+            check(usecs_elapsed[i] = calloc(MAX_PKTS, sizeof(usecs_send[0][0])));
         } else {
             usecs_send[i] = NULL;
             usecs_elapsed[i] = NULL;
-- 
2.43.0


From ebeb2ba4780a8419cf41e01179a3a1c7b0b77ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:08 +0000
Subject: [PATCH 34/41] fix: do not skip a session when losing the connection
 on its last reply

The following session was skipped and the reported identifiers were shifted by
a session. A reply with an identifier never sent was written out of bounds.
---
 src/dw_client.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index ecf0099..425d686 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -301,7 +301,7 @@ void *thread_receiver(void *data) {
         if (m == NULL) {
             printf("Error: cannot read received message\n");
             unsigned long skip_pkts =
-                pkts_per_session - ((i + 1) % pkts_per_session);
+                pkts_per_session - 1 - (i % pkts_per_session);
             printf("Fast-forwarding i by %lu pkts\n", skip_pkts);
             i += skip_pkts;
             goto skip;
@@ -311,9 +311,15 @@ void *thread_receiver(void *data) {
         unsigned pkt_id = m->req_id;
 
 #ifdef DW_DEBUG
-        msg_log(m, "received message: ");
+        if (message_is_valid(m))
+            msg_log(m, "received message: ");
 #endif
 
+        if (pkt_id < thr_data.first_pkt_id || pkt_id - thr_data.first_pkt_id >= thr_data.num_send_pkts) {
+            fprintf(stderr, "Ignoring reply to unknown request %u\n", pkt_id);
+            goto skip;
+        }
+
         if (m->status != 0) {
             dw_log("REPLY reported an error\n");
             goto skip;
-- 
2.43.0


From 78dae98ce88f21fe2053f785c59bb21b2a062e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:12 +0000
Subject: [PATCH 35/41] fix: make room for long distributions when printing the
 request template

Printing a distribution with all of its fields overflowed the buffers, and the
size and the offset of a storage command were printed from the same buffer.
---
 src/ccmd.c    | 2 +-
 src/distrib.c | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 7005e08..66531a1 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -189,7 +189,7 @@ void ccmd_log(ccmd_t* q) {
     ccmd_node_t* curr = q->head;
 
     while (curr) {
-        char opts[64] = "";
+        char opts[600] = "";
 
         switch (curr->cmd) {
             case STORE:
diff --git a/src/distrib.c b/src/distrib.c
index 2a3311f..af329e7 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -335,7 +335,11 @@ double pd_sample(pd_spec_t *p) {
 
 // stringify spec into static array and return it
 char *pd_str(pd_spec_t *p) {
-    static char s[64];
+    // two buffers, to allow for a pair of calls in the same printf()
+    static char bufs[2][256];
+    static int cur = 0;
+    cur = !cur;
+    char *s = bufs[cur];
     double scale;
     int k;
     switch (p->prob) {
-- 
2.43.0


From 8c5840354880fb4d196dfb4882f8ca84538e750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:51 +0000
Subject: [PATCH 36/41] fix: keep a multi-forward directly nested in a forward

The commands after a forward were searched past any multi-forward
following it, so a target never got the multi-forward it had to
perform. Only the other branches of the same multi-forward are skipped
now.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 14a7456..08ed421 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -362,7 +362,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t *c = cmd_next(cmd);
-    while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
+    while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
-- 
2.43.0


From a1ad780a267be7119ca2881a7c1a68a2452291a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:54 +0000
Subject: [PATCH 37/41] fix: leave room for the next message header after a
 full send buffer

---
 src/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 0de0221..61a2ace 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -206,7 +206,8 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
     unsigned char *new_send_buf = NULL;
 
     new_recv_buf = calloc(BUF_SIZE, sizeof(unsigned char));
-    new_send_buf = calloc(BUF_SIZE, sizeof(unsigned char));
+    // conn_send_message() writes the header of the next message even when the buffer is full
+    new_send_buf = calloc(BUF_SIZE + sizeof(message_t), sizeof(unsigned char));
 
     if (!new_recv_buf || !new_send_buf)
         goto continue_free;
-- 
2.43.0


From 13c4762f4327e7f95e38fcd200f24086d174310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:10 +0000
Subject: [PATCH 38/41] fix: accept the byte suffix on each value of a
 distribution

---
 src/distrib.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/distrib.c b/src/distrib.c
index af329e7..7765999 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -270,6 +270,14 @@ int pd_parse_bytes(pd_spec_t *p, char *s) {
     int l = strlen(s);
     if (l > 0 && (s[l-1] == 'b' || s[l-1] == 'B'))
         s[l-1] = 0;
+    if (strncmp(s, "file:", 5) != 0) {
+        // each of the comma-separated values may have its own suffix
+        char *d = s;
+        for (char *c = s; *c != '\0'; c++)
+            if ((c[0] != 'b' && c[0] != 'B') || c[1] != ',')
+                *d++ = *c;
+        *d = '\0';
+    }
     return pd_parse(p, s);
 }
 
-- 
2.43.0


From dc5cad7ff34eec173ecac91b1e1e17a5129554cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:10 +0000
Subject: [PATCH 39/41] fix: go on serving after a failed read or write of the
 storage

---
 src/dw_node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 08ed421..a090859 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -534,7 +534,8 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     size_t bytes = 0;
     while (stored_bytes < total_bytes) {
         bytes = (total_bytes - stored_bytes > BUF_SIZE) ? BUF_SIZE : (total_bytes - stored_bytes);
-        check(safe_write(storage_info->storage_fd, buf, bytes) != -1);
+        if (safe_write(storage_info->storage_fd, buf, bytes) == -1)
+            break; // @todo propagate error
 
         stored_bytes += bytes;
     }
@@ -584,7 +585,8 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     size_t bytes = 0;
     while (read_bytes < total_bytes) {
         bytes = (total_bytes - read_bytes > BUF_SIZE) ? BUF_SIZE : (total_bytes - read_bytes);
-        check(safe_read(storage_info->storage_fd, buf, bytes) != -1);
+        if (safe_read(storage_info->storage_fd, buf, bytes) == -1)
+            break; // @todo propagate error
         if (bytes == 0)
             break;
 
-- 
2.43.0


From b24e4eeb8451a958105d4ba3245d5269b52f095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:02 +0000
Subject: [PATCH 40/41] fix: accept every option in a script

---
 src/dw_client.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 425d686..70ae607 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -778,7 +778,7 @@ int script_parse(char *fname, struct argp_state *state) {
         if (s == NULL)
             break;
         char *tok;
-        while ((tok = strsep(&s, " -\n")) != NULL) {
+        while ((tok = strsep(&s, " \t\n")) != NULL) {
             if (strlen(tok) > 0) {
                 // comment, ignore till end of line
                 if (tok[0] == '#')
@@ -793,13 +793,15 @@ int script_parse(char *fname, struct argp_state *state) {
         }
     }
     
-    for (int i=0; i<argc-1; i++) {
+    for (int i=0; i<argc; i++) {
         // Find the option for the current input argument 
+        char *name = argv[i] + strspn(argv[i], "-");
         int j = 0;
         while (argp_client_options[j].name != 0) {
-            if (strncmp(argv[i], argp_client_options[j].name, strlen(argp_client_options[j].name)) == 0 || // (long) name compare 
-                 (argv[i][1] == '\0' && argv[i][0] == argp_client_options[j].key)) { // short name/key compare
-                argp_client_parse_opt(argp_client_options[j].key, argv[i+1], state);
+            if (strcmp(name, argp_client_options[j].name) == 0 || // (long) name compare 
+                 (name[0] != '\0' && name[1] == '\0' && name[0] == argp_client_options[j].key)) { // short name/key compare
+                check(argp_client_options[j].arg == NULL || i + 1 < argc, "Missing argument to %s", name);
+                argp_client_parse_opt(argp_client_options[j].key, argp_client_options[j].arg ? argv[i+1] : NULL, state);
 
                 if (argp_client_options[j].arg)
                     i++;
-- 
2.43.0


From ad40bf1fb233fffef4175f3fab01b12bd851e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:34 +0000
Subject: [PATCH 41/41] fix: keep the data of a session for all of its requests

---
 src/dw_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 70ae607..bb68505 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -251,8 +251,9 @@ void *thread_receiver(void *data) {
         clock_nanosleep(clk_id, TIMER_ABSTIME, &ts_sync, NULL);
     }
 
+    thread_data_t thr_data;
+
     for (int i = 0; i < num_pkts; i++) {
-        thread_data_t thr_data;
         if (i % pkts_per_session == 0) {
             struct timespec ts1, ts2;
             if (conn_times)
-- 
2.43.0

