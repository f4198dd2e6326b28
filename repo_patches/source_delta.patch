From 5a5897639f6a8aad6ee15664b60ebf7fd128f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:26 +0000
Subject: [PATCH 001/143] fix: tag description buffer overflow and name
 over-read in tag_add/tag_del

---
 src/server/tagbase.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..89a523e 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -564,12 +564,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(&tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = n;
     *((tag_type *)&tag_desc[4]) = type;
     *((dax_udint *)&tag_desc[8]) = count;
     *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
@@ -627,12 +627,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(&tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = idx;
     *((tag_type *)&tag_desc[4]) = _db[idx].type;
     *((dax_udint *)&tag_desc[8]) = _db[idx].count;
     *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
     xfree(_db[idx].name);
-- 
2.43.0


From 33ddc3c58e64ddedd7f46a7a9985ff2b5070996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 002/143] fix: refuse negative offsets and sizes, and bad
 indexes, in tag_read/tag_write/tag_mask_write

---
 src/server/tagbase.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 89a523e..b332e01 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -703,27 +703,40 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
 
+/* Returns true if size bytes at the given offset are inside of the tag's data */
+static int
+_in_bounds(tag_index idx, int offset, int size) {
+    int tag_size = tag_get_size(idx);
+
+    return offset >= 0 && size >= 0 && size <= tag_size && offset <= tag_size - size;
+}
+
+
 /* These are the low level tag reading / writing interface to the
  * database.
  *
@@ -753,7 +766,7 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(!_in_bounds(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -799,7 +812,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(!_in_bounds(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -828,15 +841,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if(!_in_bounds(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From 9a0f2c4e26af8e52b1f0e624ac0ecf5ce93417f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 003/143] fix: oversized tag read overflows the reply buffer

---
 src/server/message.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..1ba2ce3 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -542,7 +542,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > (int)sizeof(data)) {
+        result = ERR_2BIG;
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
-- 
2.43.0


From 7a94bb0953aa0cd7e2515a38d89f6f884f02ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 004/143] fix: uninitialized tag name used when a tag query
 fails

---
 src/server/message.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 1ba2ce3..2f12212 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -498,10 +498,9 @@ msg_tag_get(dax_message *msg)
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
+        buff = alloca(size);
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
-- 
2.43.0


From 7fbf8cd1dcaa453bb13687b14affc7f640321084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 005/143] fix: event delete and event option errors were
 reported as success

---
 src/server/message.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 2f12212..21e1c73 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -664,8 +664,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -695,8 +695,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
-- 
2.43.0


From 451688f59a9cbf864b20d706964de22b2e8cd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:27 +0000
Subject: [PATCH 006/143] fix: owner of a read only tag could not use masked
 writes

---
 src/server/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 21e1c73..ba6deea 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -601,7 +601,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
-- 
2.43.0


From 0c66048413bf5dafbca7eb093fa63a22e450f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:25 +0000
Subject: [PATCH 007/143] fix: messages were lost, truncated or misframed
 depending on how the stream was delivered

---
 src/server/buffer.c  | 38 +++++++++++++++++++++-----------------
 src/server/message.c |  1 -
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..5ad4ea7 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -137,7 +137,7 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
 
     node = find_buff_slot(fd);
@@ -153,7 +153,7 @@ buff_read(int fd)
 
     if(result < 0) {
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
-        return ERR_MSG_RECV;
+        return ERR_NO_SOCKET; /* There is nothing else we can do with this socket */
     } if(result == 0) { /* EOF means the other guy is closed */
         dax_log(DAX_LOG_COMM, "Received EOF on socket %d", fd);
         return ERR_NO_SOCKET;
@@ -161,17 +161,22 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
     /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+       the message and it should be in network byte order.  Handle every
+       complete message that we have and keep the rest for the next time */
+    while(node->index >= (int)MSG_HDR_SIZE) {
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* There is no way to find the start of the next message */
+            dax_log(DAX_LOG_ERROR, "Received message with bad size on socket %d", fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < (int)size) break; /* The rest has yet to come */
+        msg_dispatcher(fd, node->buffer);
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
+    if(node->index == 0) buff_free(fd);
     return 0;
 }
 
@@ -195,9 +200,9 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
- * garbage collection. */
+/* This function essentially marks all of the buffers as free, that don't hold
+ * a part of a message.  If there are more than min_buffers it'll free() the
+ * last one.  Kindof a poor boy garbage collection. */
 void
 buff_freeall(void)
 {
@@ -209,12 +214,11 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
+        if(node->index == 0) node->fd = 0;
         n++;
         /* If we are the last node, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && node->fd == 0 && n > opt_min_buffers() && last != NULL) {
             free(node);
             node = NULL;
             last->next = NULL;
diff --git a/src/server/message.c b/src/server/message.c
index ba6deea..75061ba 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -358,7 +358,6 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
-- 
2.43.0


From 60065f7753577909f52a980b2d7e926dd58c94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:25 +0000
Subject: [PATCH 008/143] fix: validate the size of a message before it is
 handled

---
 src/server/message.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 75061ba..90eec8d 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -339,6 +339,17 @@ msg_receive(void)
     return 0;
 }
 
+/* The least amount of data that each command needs to be valid */
+static const uint32_t min_size[NUM_COMMANDS + 1] = {
+    [MSG_MOD_REG] = 0,     [MSG_TAG_ADD] = 13,   [MSG_TAG_DEL] = 4,    [MSG_TAG_GET] = 2,
+    [MSG_TAG_LIST] = 0,    [MSG_TAG_READ] = 12,  [MSG_TAG_WRITE] = 8,  [MSG_TAG_MWRITE] = 8,
+    [MSG_EVNT_ADD] = 25,   [MSG_EVNT_DEL] = 8,   [MSG_EVNT_GET] = 0,   [MSG_EVNT_OPT] = 12,
+    [MSG_CDT_CREATE] = 1,  [MSG_CDT_GET] = 2,    [MSG_MAP_ADD] = 42,   [MSG_MAP_DEL] = 8,
+    [MSG_MAP_GET] = 8,     [MSG_GRP_ADD] = 2,    [MSG_GRP_DEL] = 4,    [MSG_GRP_READ] = 4,
+    [MSG_GRP_WRITE] = 4,   [MSG_GRP_MWRITE] = 0, [MSG_ATOMIC_OP] = 21, [MSG_ADD_OVRD] = 12,
+    [MSG_DEL_OVRD] = 8,    [MSG_GET_OVRD] = 12,  [MSG_SET_OVRD] = 5
+};
+
 /* This handles each message.  It extracts out the dax_message structure
  * and then calls the proper message handling function.  This message will
  * unmarshal the header but it is up to the individual wrapper function to
@@ -347,6 +358,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -356,8 +368,15 @@ msg_dispatcher(int fd, unsigned char *buff)
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
+    if(message.size < min_size[message.msg_type] || message.size > MSG_DATA_SIZE) {
+        result = ERR_MSG_BAD;
+        _message_send(fd, message.msg_type, &result, sizeof(result), ERROR);
+        return result;
+    }
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
+    /* Whatever is not in the message is zero, this terminates the strings too */
+    memset(&message.data[message.size], 0, MSG_DATA_SIZE - message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
@@ -383,6 +402,7 @@ msg_mod_register(dax_message *msg)
     dax_time starttime;
 
     if(msg->size > 0) {
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -436,6 +456,7 @@ msg_tag_add(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Add Message for '%s' from module %d, type 0x%X, count %d", &msg->data[12], msg->fd, type, count);
 
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
     if(msg->data[12] == '_') {
         idx = ERR_ILLEGAL;
     } else {
@@ -487,7 +508,9 @@ msg_tag_get(dax_message *msg)
     dax_tag tag;
     char *buff;
 
-    if(msg->data[0] == TAG_GET_INDEX) { /* Is it a string or index */
+    if(msg->data[0] == TAG_GET_INDEX && msg->size < 5) {
+        result = ERR_MSG_BAD;
+    } else if(msg->data[0] == TAG_GET_INDEX) { /* Is it a string or index */
         index = *((tag_index *)&msg->data[1]); /* cast void * -> handle_t * then indirect */
         result = tag_get_index(index, &tag); /* get the tag */
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for index 0x%X", msg->fd, index);
-- 
2.43.0


From 129d2e4cce1dcdf1d2ca46e2055b38f6c369e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 009/143] fix: growing a tag exposed uninitialized memory and
 left its override buffers short

---
 src/server/tagbase.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index b332e01..90cdfd3 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -453,7 +453,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
     void *newdata;
-    unsigned int size;
+    unsigned int size, oldsize;
     int result;
     uint8_t tag_desc[47];
 
@@ -499,9 +499,21 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         } else if(_db[n].type == type && _db[n].count < count) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
+            oldsize = tag_get_size(n);
+            if(_db[n].odata != NULL) {
+                newdata = xrealloc(_db[n].odata, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].odata = newdata;
+                bzero(&_db[n].odata[oldsize], size - oldsize);
+                newdata = xrealloc(_db[n].omask, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].omask = newdata;
+                bzero(&_db[n].omask[oldsize], size - oldsize);
+            }
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
                 _db[n].data = newdata;
+                bzero(&_db[n].data[oldsize], size - oldsize);
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-- 
2.43.0


From 7e25704089ac78cab94d693529e8b2a405428019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 010/143] fix: growing a queue tag corrupted the queue

---
 src/server/tagbase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 90cdfd3..ae314be 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -496,7 +496,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         if(_db[n].type == type && _db[n].count >= count) {
             _set_attribute(n, attr);
             return n;
-        } else if(_db[n].type == type && _db[n].count < count) {
+        } else if(_db[n].type == type && _db[n].count < count && !IS_QUEUE(type)) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
             oldsize = tag_get_size(n);
-- 
2.43.0


From 660870c28c0731fdc5327883949a8d953f72a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 011/143] fix: tag size overflow for very large tags

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index ae314be..74c34a7 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -484,6 +484,9 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(type == DAX_BOOL) {
         size = count / 8 + 1;
     } else {
+        if((uint64_t)type_size(type) * count > INT32_MAX) {
+            return ERR_2BIG;
+        }
         size = type_size(type) * count;
     }
 
-- 
2.43.0


From ec25fad64bf748de03dd557ef3b88c92de09e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 012/143] fix: tags added after the database grew had
 uninitialized attributes and mappings

---
 src/server/tagbase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 74c34a7..30898bc 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -203,6 +203,7 @@ _database_grow(void)
     if(new_index != NULL && new_db != NULL) {
         _index = new_index;
         _db = new_db;
+        bzero(&_db[_dbsize], _dbsize * sizeof(_dax_tag_db));
         _dbsize *= 2;
         return 0;
     } else {
-- 
2.43.0


From 0ff21a12f6971260b43e8f1cc49ed708b943c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 013/143] fix: virtual tag reads ignored the offset and the
 size of the data

---
 src/server/virtualtag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..d030018 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,8 +53,9 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || offset > (int)sizeof(t) || size > (int)sizeof(t) - offset) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
+    if(offset < 0 || size < 0 || offset > (int)sizeof(name) || size > (int)sizeof(name) - offset) return ERR_2BIG;
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, sizeof(name));
+    strncpy(name, tag.name, DAX_TAGNAME_SIZE);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
-- 
2.43.0


From a954ec6f457dd3f08b89e4ea2408cf040a41b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 014/143] fix: queue elements were shared or uninitialized
 after the queue grew

---
 src/server/virtualtag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index d030018..15d3616 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -96,10 +96,12 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
         q->queue = (void **)new_queue;
+        bzero(&q->queue[q->qsize], q->qsize * sizeof(void *));
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            bzero(&q->queue[0], q->qread*sizeof(void *));
         }
         q->qsize = newqsize;
     }
-- 
2.43.0


From 1716a1524714fcf0d797cf986cd75c0dd5789f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 015/143] fix: queue reads ignored the offset and size

---
 src/server/virtualtag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index 15d3616..df501ec 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -123,6 +123,8 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    /* As with writing, we only allow reading the entire tag */
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From e2ab7a5bc2946d74bc34880910c0ec1f72252239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 016/143] fix: deleting tag groups shrank the group array and
 lost other groups

---
 src/server/groups.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..0b71fd1 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -120,7 +120,6 @@ group_del(dax_module *mod, int index) {
     free(mod->tag_groups[index].members);
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
-- 
2.43.0


From a6c09f9781b5835f54f93c60436e704110556824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 017/143] fix: tag group requests with an unknown group or from
 unregistered modules crashed the server

---
 src/server/groups.c  | 19 ++++++++++++++-----
 src/server/groups.h  |  2 +-
 src/server/message.c | 14 +++++++++-----
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index 0b71fd1..60f9ad3 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -71,6 +71,14 @@ _group_add(dax_module *mod) {
 }
 
 
+/* Returns true if the given module has a tag group with this index */
+static int
+_group_exists(dax_module *mod, uint32_t index) {
+    return mod != NULL && index < mod->groups_size &&
+           (mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY);
+}
+
+
 /* This adds a tag group to the given module.  It simply determines if there
  * is space on the currently allocated array and if not allocates more space.
  * The handles array is the part of the message buffer that contains the
@@ -81,6 +89,7 @@ int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
     int index, datasize, offset;
 
+    if(mod == NULL) return ERR_NOTFOUND;
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
     if(index < 0) return index; /* Pass the error on up */
@@ -98,7 +107,7 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
         datasize += mod->tag_groups[index].members[n].size;
-        if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
+        if(mod->tag_groups[index].members[n].size > MSG_TAG_GROUP_DATA_SIZE || datasize > MSG_TAG_GROUP_DATA_SIZE) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
             return ERR_2BIG;
@@ -114,8 +123,8 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 
 /* Deletes a single tag group from the given module */
 int
-group_del(dax_module *mod, int index) {
-    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+group_del(dax_module *mod, uint32_t index) {
+    if(!_group_exists(mod, index)) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
     mod->tag_groups[index].flags = 0x00;
@@ -131,8 +140,8 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(!_group_exists(mod, index)) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
         result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
@@ -149,8 +158,8 @@ group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(!_group_exists(mod, index)) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     for(n = 0;n<group->count;n++) {
         result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
diff --git a/src/server/groups.h b/src/server/groups.h
index f70506d..8913245 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -36,7 +36,7 @@
  */
 
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
-int group_del(dax_module *mod, int index);
+int group_del(dax_module *mod, uint32_t index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
 int groups_cleanup(dax_module *mod);
diff --git a/src/server/message.c b/src/server/message.c
index 90eec8d..45e6e18 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -888,11 +888,15 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(msg->size < 2 + count * 21u) { /* Each handle takes 21 bytes */
+        id = ERR_MSG_BAD;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message from %d Returning Error %d", msg->fd, id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
@@ -911,7 +915,7 @@ msg_group_del(dax_message *msg) {
     result = group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message from %d Returning Error %d", msg->fd, result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
@@ -931,7 +935,7 @@ msg_group_read(dax_message *msg) {
     result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
@@ -951,7 +955,7 @@ msg_group_write(dax_message *msg) {
     result = group_write(mod, index, (uint8_t *)&msg->data[4]);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
-- 
2.43.0


From cc30a77f0c9bc2cac1eb1daa17c3f65b1265725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 018/143] fix: group writes bypassed write protection, mappings
 and bit boundaries

---
 src/server/groups.c  | 35 +++++++++++++++++++++++++++++------
 src/server/groups.h  |  2 +-
 src/server/message.c |  2 +-
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index 60f9ad3..2e55fb3 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -144,27 +144,50 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     group = &mod->tag_groups[index];
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = tag_read(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
         offset += group->members[n].size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* Write one member of a group.  Members that are BOOLs may share their
+ * bytes with other bits so these have to be masked */
+static int
+_group_write_member(dax_module *mod, tag_handle *h, uint8_t *buff) {
+    uint8_t mask[MSG_TAG_GROUP_DATA_SIZE];
+
+    if(is_tag_readonly(h->index) && !is_tag_owned(mod->fd, h->index)) return ERR_READONLY;
+    if(h->type != DAX_BOOL) return tag_write(mod->fd, h->index, h->byte, buff, h->size);
+    bzero(mask, h->size);
+    for(uint32_t n = h->bit; n < h->bit + h->count && n < h->size * 8; n++) {
+        mask[n / 8] |= 0x01 << (n % 8);
+    }
+    return tag_mask_write(mod->fd, h->index, h->byte, buff, mask, h->size);
+}
+
+/* loop through the array of members and write the data from
+ * buff to each of them.  size is the amount of data in buff */
 int
-group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
+group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
+    tag_handle *h;
 
     if(!_group_exists(mod, index)) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
-        if(result) return result;
         offset += group->members[n].size;
     }
+    if(offset > size) return ERR_ARG;
+    offset = 0;
+    for(n = 0;n<group->count;n++) {
+        h = &group->members[n];
+        result = _group_write_member(mod, h, &buff[offset]);
+        if(result) return result;
+        map_check(h->index, h->byte, h->size);
+        offset += h->size;
+    }
     return offset;
 }
 
diff --git a/src/server/groups.h b/src/server/groups.h
index 8913245..637b7ad 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -38,7 +38,7 @@
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
 int group_del(dax_module *mod, uint32_t index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
-int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
+int group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int groups_cleanup(dax_module *mod);
 
 #endif /* !__DAX_GROUPS_H */
diff --git a/src/server/message.c b/src/server/message.c
index 45e6e18..06ab710 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -952,7 +952,7 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    result = group_write(mod, index, (uint8_t *)&msg->data[4], msg->size - 4);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
         dax_log(DAX_LOG_MSGERR, "Group Write Message from %d Returning Error %d", msg->fd, result);
-- 
2.43.0


From 29868d97563fc15f8aea6137c9553b3430a8225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:00 +0000
Subject: [PATCH 019/143] fix: deleting the first event of a tag used freed
 memory, and deletes corrupted the module's event count

---
 src/server/events.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..d022883 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -689,22 +689,25 @@ event_del(int index, int id, dax_module *module)
         }
         _db[index].events = this->next;
         _free_event(this);
-    }
-    last = this;
-    this = this->next;
-    while(this != NULL) {
-        if(this->id == id) {
-            if(this->notify != module) {
-                dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-                return ERR_AUTH;
-            }
-            last->next = this->next;
-            _free_event(this);
-            result = 0;
-            break; /* Uggg */
-        }
+        result = 0;
+    } else {
         last = this;
         this = this->next;
+        while(this != NULL) {
+            if(this->id == id) {
+                if(this->notify != module) {
+                    dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
+                    return ERR_AUTH;
+                }
+                last->next = this->next;
+                _free_event(this);
+                result = 0;
+                break; /* Uggg */
+            }
+            last = this;
+            this = this->next;
+        }
+        if(result) return result; /* There was no such event */
     }
     /* If there are no more events on this tag then reset the attibute flag */
     if(_db[index].events == NULL) {
@@ -722,6 +725,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
@@ -757,7 +761,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +771,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next; /* event_del() frees this one */
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
-- 
2.43.0


From c6912a014120ef464023512ccb1e43ebb83445f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:00 +0000
Subject: [PATCH 020/143] fix: bit event state was too small when the bits did
 not start on a byte boundary

---
 src/server/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index d022883..eb87be6 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -499,7 +499,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_CHANGE:
             datasize = 0;
             if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
+                testsize = (event->bit + event->count - 1)/8 + 1;
             } else {
                 testsize = type_size(event->datatype) * event->count;
             }
@@ -512,7 +512,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = (event->bit + event->count - 1)/8 + 1;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
-- 
2.43.0


From 0fe6d60839172b988a62a128d8e3d0ce37d5f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:00 +0000
Subject: [PATCH 021/143] fix: deadband and comparison events overflowed or
 used 32 bits for wider types

---
 src/server/events.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index eb87be6..cced133 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -205,7 +205,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -225,6 +224,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -280,6 +280,8 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
 static inline int
 _generic_deadband(_dax_event *event, void *data1, void *data2) {
     dax_type_union diff, db;
+    dax_lint l1, l2;
+    dax_ulint u1, u2;
 
     switch(event->datatype) {
         case DAX_BYTE:
@@ -290,8 +292,8 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
         case DAX_SINT:
         case DAX_CHAR:
             db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
+            diff.dax_int = *(dax_sint *)data1 - *(dax_sint *)data2;
+            if(ABS(diff.dax_int) >= db.dax_sint) return 1;
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
@@ -301,31 +303,36 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
             else return 0;
         case DAX_INT:
             db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
+            diff.dax_dint = *(dax_int *)data1 - *(dax_int *)data2;
+            if(ABS(diff.dax_dint) >= db.dax_int) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
+            diff.dax_lint = (dax_lint)*(dax_udint *)data1 - *(dax_udint *)data2;
             if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
             else return 0;
         case DAX_DINT:
             db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
+            diff.dax_lint = (dax_lint)*(dax_dint *)data1 - *(dax_dint *)data2;
+            if(ABS(diff.dax_lint) >= db.dax_dint) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
             db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
+            u1 = *(dax_ulint *)data1;
+            u2 = *(dax_ulint *)data2;
+            diff.dax_ulint = u1 > u2 ? u1 - u2 : u2 - u1;
+            if(diff.dax_ulint >= db.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
+            l1 = *(dax_lint *)data1;
+            l2 = *(dax_lint *)data2;
+            /* The distance may not fit in a signed number */
+            diff.dax_ulint = l1 > l2 ? (dax_ulint)l1 - (dax_ulint)l2 : (dax_ulint)l2 - (dax_ulint)l1;
+            if(db.dax_lint <= 0 || diff.dax_ulint >= (dax_ulint)db.dax_lint) return 1;
             else return 0;
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
-- 
2.43.0


From 7e3065ac080dec4edff5b5d46da31d819e039b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:39 +0000
Subject: [PATCH 022/143] fix: comparison and deadband events looked at the
 wrong bytes when a write did not start at an element

---
 src/server/events.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index cced133..4ea9680 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -249,18 +249,19 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
 
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int n, inc, bit, end, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
     /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
+    bit = MAX(0, offset - (int)event->byte) / inc;
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    end = MIN((int)event->size, offset + size - (int)event->byte);
+    /* Check each element that the write has touched */
+    for(n = bit * inc; n < end; n += inc) {
         mask = 0x01<<(bit%8);
         if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
             if(!(this[bit/8] & mask)) {
@@ -352,16 +353,17 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
 static inline int
 _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
-    int n, inc, len, result;
+    int n, inc, end, result;
     uint8_t *this, *that;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    end = MIN((int)event->size, offset + size - (int)event->byte);
 
-    for(n = 0; n < len; n += inc) {
+    /* Check each element that the write has touched */
+    for(n = MAX(0, offset - (int)event->byte) / inc * inc; n < end; n += inc) {
         if(_generic_deadband(event, &this[n], &that[n])) {
             result = 1;
             memcpy(&this[n], &that[n], inc);
-- 
2.43.0


From 533ac082fd7e200bdff9a828843e1cc9fb150fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:39 +0000
Subject: [PATCH 023/143] fix: deleted events were refused for BOOL and custom
 tags, and unknown event types were accepted

---
 src/server/events.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 4ea9680..30c940f 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -451,8 +451,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -476,11 +476,13 @@ _verify_event_type(tag_type ttype, int etype)
     }
     /* At this point the only ones left are < > and deadband.  All
      * except Booleans and Custom datatypes can use these */
-    if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
-        dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
-        return -1;
-    } else {
-        return 0;
+    if(etype == EVENT_GREATER || etype == EVENT_LESS || etype == EVENT_DEADBAND) {
+        if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
+            dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
+            return -1;
+        } else {
+            return 0;
+        }
     }
     /* If we get here then we were given an unknown event type */
     dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
-- 
2.43.0


From 95952fa295fe4e94c66d0ec86f6fd0495dee0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 024/143] fix: queues of BOOL had elements without data and
 queues of custom types indexed outside of the type array

---
 src/libcommon.h      | 2 +-
 src/server/tagbase.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a70ab9b 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) (TYPE & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 30898bc..98799fd 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1472,6 +1472,7 @@ type_size(tag_type type)
         }
     } else { /* Not IS_CUSTOM() */
         size = TYPESIZE(type) / 8; /* Size in bytes */
+        if(size == 0) size = 1;
     }
     return size;
 }
-- 
2.43.0


From 07c2d432cc2293acf4a9aa22c71ce22693dfa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 025/143] fix: events with bad handles or without their data
 made the server use memory outside of the tag

---
 src/server/events.c  | 10 +++++-----
 src/server/message.c |  6 +++++-
 src/server/tagbase.c | 22 ++++++++++++++++++++++
 src/server/tagbase.h |  1 +
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 30c940f..0653a02 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -605,15 +605,15 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
-    /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
-        dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
-        return ERR_2BIG;
+    result = tag_check_handle(h);
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "The affected data in the new event is not part of the tag");
+        return result;
     }
     if(_verify_event_type(h.type, event_type)) {
         /* error log handled in verify_event_type() function */
diff --git a/src/server/message.c b/src/server/message.c
index 06ab710..9ce9c85 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -659,7 +659,11 @@ msg_evnt_add(dax_message *msg)
         h.bit = msg->data[24];
         data = (void *)&msg->data[25];
         dax_log(DAX_LOG_MSG, "Add Event Message from %d - Index = %d, Count = %d, Type = %d", msg->fd, h.index, h.count, event_type);
-        event_id = event_add(h, event_type, data, module);
+        if(event_type >= EVENT_EQUAL && event_type <= EVENT_DEADBAND && (int)msg->size - 25 < type_size(h.type)) {
+            event_id = ERR_MSG_BAD; /* These need a value to compare with */
+        } else {
+            event_id = event_add(h, event_type, data, module);
+        }
     }
 
     if(event_id < 0) { /* Send Error */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 98799fd..2593b63 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -128,6 +128,28 @@ tag_get_size(tag_index idx)
         return type_size(_db[idx].type)  * _db[idx].count;
 }
 
+/* Checks that the handle describes data that is inside of an existing tag
+ * and that the size of the handle agrees with its type and count.  Returns
+ * zero if the handle is okay and an error code otherwise */
+int
+tag_check_handle(tag_handle h)
+{
+    uint64_t size;
+
+    if(h.index < 0 || h.index >= _tagnextindex) return ERR_ARG;
+    if(_db[h.index].data == NULL) return ERR_DELETED;
+    if(_checktype(h.type) || h.count == 0) return ERR_ARG;
+    if(h.type == DAX_BOOL) {
+        if(h.bit > 7) return ERR_ARG;
+        size = ((uint64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        size = (uint64_t)type_size(h.type) * h.count;
+    }
+    if(h.size != size) return ERR_ARG;
+    if((uint64_t)h.byte + h.size > tag_get_size(h.index)) return ERR_2BIG;
+    return 0;
+}
+
 /* Determine whether or not the tag name is okay */
 static int
 _validate_name(char *name)
diff --git a/src/server/tagbase.h b/src/server/tagbase.h
index 01712ec..e274aae 100644
--- a/src/server/tagbase.h
+++ b/src/server/tagbase.h
@@ -136,6 +136,7 @@ int is_tag_virtual(tag_index idx);
 int is_tag_queue(tag_index idx);
 int is_tag_owned(int fd, tag_index idx);
 int tag_get_size(tag_index idx);
+int tag_check_handle(tag_handle h);
 
 /* Database reading and writing functions */
 int tag_read(int fd, tag_index handle, int offset, void *data, int size);
-- 
2.43.0


From 5536c3918917a77f354d4e7d23e851ecf0231c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:25 +0000
Subject: [PATCH 026/143] fix: events of queues sent memory of the server
 instead of the data

---
 src/server/events.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server/events.c b/src/server/events.c
index 0653a02..939dbbe 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -36,6 +36,7 @@ _send_event(tag_index idx, _dax_event *event)
     int result;
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
+    tag_queue *q;
 
     if(event->options & EVENT_OPT_SEND_DATA) {
         msgsize = event->size + 16; /* Calculate the total size of this message */
@@ -49,7 +50,12 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
     if(event->options & EVENT_OPT_SEND_DATA) {
-        memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
+        if(is_tag_queue(idx)) { /* The affected data is the element that was just written */
+            q = (tag_queue *)((virt_functions *)_db[idx].data)->userdata;
+            memcpy(&buff[16], q->queue[(q->qread + q->qcount - 1) % q->qsize], event->size);
+        } else {
+            memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
+        }
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
          event->eventtype, event->notify->fd);
-- 
2.43.0


From 7cc0a4174bf85a04f8d60fbbac1659cc63bf9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 027/143] fix: deleting mappings crashed without mappings, lost
 other mappings and never reset the attribute

---
 src/server/mapping.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..c32701d 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -150,26 +150,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
-- 
2.43.0


From 5dd06acd791ecb487efdc9759bc3b0f02d848e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 028/143] fix: mapping to a deleted tag used the mapping after
 it was freed

---
 src/server/mapping.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index c32701d..214a8a1 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -208,7 +208,7 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
     int srcByte;
     int srcBit;
@@ -220,7 +220,7 @@ map_check(tag_index idx, int offset, int size) {
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
-
+        next = this->next; /* The map may get deleted below */
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
@@ -267,7 +267,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
-- 
2.43.0


From 7030f25d5192a2d06e2920ccc7f45babe1974d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 029/143] fix: mappings with bad handles, or of bits that need
 more bytes in the destination, used memory outside of the tags

---
 src/server/mapping.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 214a8a1..3bf87b1 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -60,12 +60,19 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* The number of bytes that are touched in the destination of a map of bits */
+static inline int
+_mask_size(tag_handle src, tag_handle dest)
+{
+    return (dest.bit + src.count - 1) / 8 + 1;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
     _dax_datamap *new_map;
     _dax_datamap *this;
-    int bit, offset;
+    int bit, offset, result;
     uint8_t *mask;
 
     DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
@@ -90,19 +97,29 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
-        dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
-        return ERR_2BIG;
+    result = tag_check_handle(src);
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "The affected source data in the new mapping is not part of the tag");
+        return result;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
-        dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
-        return ERR_2BIG;
+    result = tag_check_handle(dest);
+    if(result) {
+        dax_log(DAX_LOG_ERROR, "The affected destination data in the new mapping is not part of the tag");
+        return result;
     }
     if( src.size > dest.size ) {
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
+    if(src.type == DAX_BOOL) {
+        if(dest.bit > 7) return ERR_ARG;
+        /* The bits may need more bytes in the destination than they do in the source */
+        if((uint64_t)dest.byte + _mask_size(src, dest) > tag_get_size(dest.index)) {
+            dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
+            return ERR_2BIG;
+        }
+    }
     /* Check for duplicates */
     this = _db[src.index].mappings;
     while(this != NULL) {
@@ -123,8 +140,8 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
+        mask = (uint8_t *)malloc(_mask_size(src, dest));
+        bzero(mask, _mask_size(src, dest));
         for(int i=0; i<src.count; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
@@ -231,12 +248,12 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(_mask_size(this->source, this->dest));
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
+                bzero(new_data, _mask_size(this->source, this->dest));
                 for(int n=0; n<this->source.count; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
@@ -252,7 +269,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, _mask_size(this->source, this->dest));
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
-- 
2.43.0


From 062002c50d33b3f22898937c4db0464e7de64878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 030/143] fix: a mapping kept writing to its destination after
 that became read only

---
 src/server/mapping.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 3bf87b1..0239b1e 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -238,7 +238,8 @@ map_check(tag_index idx, int offset, int size) {
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
         next = this->next; /* The map may get deleted below */
-        if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
+        if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte &&
+           ! is_tag_readonly(this->dest.index)) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
             if(this->mask != NULL) {
-- 
2.43.0


From bf2806ac19314d163471a508490c775e25d3792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 031/143] fix: a refused mapping or registration request
 stalled the whole server for a second

---
 src/server/message.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 9ce9c85..869b0c2 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -415,7 +415,7 @@ msg_mod_register(dax_message *msg)
             if(!mod) {
                 result = ERR_NOTFOUND;
                 _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
-                return result;
+                return 0;
             } else {
                 tag_read(-1, INDEX_STARTED, 0, &starttime, 4);
                 *((uint32_t *)&buff[0]) = (uint32_t)starttime;   /* The lower 32 bits of the servers start time is the ID */
@@ -845,7 +845,7 @@ msg_map_del(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_DEL, &result, sizeof(int), RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int msg_map_get(dax_message *msg)
@@ -860,6 +860,9 @@ int msg_map_get(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Map Get Message received index=%d, id=%d", id.index, id.id);
 
+    bzero(&src, sizeof(src));
+    bzero(&dest, sizeof(dest));
+    bzero(buff, sizeof(buff));
     result = map_get(&src, &dest, id.index, id.id);
 
     *(dax_dint *)buff = src.index;
@@ -880,7 +883,7 @@ int msg_map_get(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_GET, &buff, sizeof(tag_handle) * 2, RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int
-- 
2.43.0


From 040f5c9be2927c0aae0a631ac3de73742cc72402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:20 +0000
Subject: [PATCH 032/143] fix: atomic operations used the wrong operands, bits
 and bounds

---
 src/server/atomic.c | 85 +++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 42 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..068c074 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -37,6 +37,27 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
     dest[0] = (src[0] << bit);           /* Fix the LSB */
 }
 
+/* Returns the mask of the bits in the last byte that are above the range of the handle */
+inline static dax_byte
+_high_mask(tag_handle h) {
+    int bit = (h.bit + h.count) % 8;
+    return bit ? 0xFF << bit : 0x00;
+}
+
+/* Toggles all of the bits of the handle.  The masks are the bits in the first
+ * and the last byte that are not a part of it */
+static void
+_toggle(tag_handle h, dax_byte hmask, dax_byte lmask) {
+    dax_byte mask;
+
+    for(int n=0; n<h.size; n++) {
+        mask = 0xFF;
+        if(n == 0) mask &= ~lmask;
+        if(n == h.size-1) mask &= ~hmask;
+        ((dax_byte *)_db[h.index].data)[h.byte+n] ^= mask;
+    }
+}
+
 
 static int
 _atomic_inc(tag_handle h, void *data) {
@@ -59,7 +80,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +90,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +124,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +134,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +187,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +198,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +215,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +226,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,7 +245,7 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -239,15 +260,11 @@ _atomic_nor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +283,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +292,10 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +313,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +324,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +342,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +351,11 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -360,25 +369,17 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
     }
-    /* Make sure we are a valid tag index*/
-    if(h.index < 0 || h.index >= get_tagindex()) {
-        return ERR_ARG;
-    }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
-        return ERR_2BIG;
+    /* Make sure that the handle is inside of a tag and that we have the
+       right amount of data for it */
+    result = tag_check_handle(h);
+    if(result) {
+        return result;
     }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
        special tags.*/
     if(_db[h.index].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_SPECIAL)) {
         return ERR_READONLY;
     }
-    /* If the index is within range but the data area is a NULL pointer then the
-       tag has been deleted */
-    if(_db[h.index].data == NULL) {
-        return ERR_DELETED;
-    }
     switch(op) {
         case ATOMIC_OP_INC:
             if(h.type == DAX_BOOL) return ERR_BADTYPE;
-- 
2.43.0


From e74c3bbe55e11d12adcd3e401f00105aeb58fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:02 +0000
Subject: [PATCH 033/143] fix: overrides lost or invented overridden bits,
 ignored bounds and offsets and miscounted

---
 src/server/message.c |  6 +++-
 src/server/tagbase.c | 67 +++++++++++++++++++++++++++-----------------
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 869b0c2..97ce872 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -1062,7 +1062,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > (int)sizeof(buff) / 2) {
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 2593b63..ae3fdd0 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -628,6 +628,24 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 }
 
 
+/* Removes the override of the tag and adjusts the counters */
+static void
+_override_remove(tag_index idx)
+{
+    override_set(idx, 0);
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _db[idx].attr &= ~TAG_ATTR_OVERRIDE;
+        _ovrdinstalled--;
+        if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
+            tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+        }
+    }
+    if(_db[idx].odata != NULL) xfree(_db[idx].odata);
+    _db[idx].odata = NULL;
+    if(_db[idx].omask != NULL) xfree(_db[idx].omask);
+    _db[idx].omask = NULL;
+}
+
 /* Deletes the tag given my index.  The tags position in the _db array is not
  * moved.  The name and data fields are freed and set to NULL.  The events
  * and the mappings are also freed and removed.  The item in the index is also
@@ -657,6 +675,7 @@ tag_del(tag_index idx)
     if(_db[idx].attr & TAG_ATTR_RETAIN) {
         ret_del_tag(idx);
     }
+    _override_remove(idx);
     events_del_all(_db[idx].events);
     _db[idx].events = NULL;
     map_del_all(_db[idx].mappings);
@@ -1268,7 +1287,7 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
+    int tag_size, n;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1276,7 +1295,11 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    /* The data of a virtual tag is not ours to override */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    if(size == 0) return ERR_ARG;
+    if(!_in_bounds(idx, offset, size)) return ERR_2BIG;
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1288,12 +1311,15 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
+    }
+    /* Bits that are already overridden and not in this mask stay that way */
+    for(n=0;n<size;n++) {
+        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] |= ((uint8_t *)data)[n] & ((uint8_t *)mask)[n];
+        _db[idx].omask[n+offset] |= ((uint8_t *)mask)[n];
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
@@ -1319,30 +1345,21 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if(!_in_bounds(idx, offset, size)) return ERR_2BIG;
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-    /* Remove both of the flags that indicate we have an override installed or set */
-    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
      * tag so we'll free the memory */
-    _ovrdinstalled--;
-    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
-        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
-    }
-    xfree(_db[idx].odata);
-    _db[idx].odata = NULL;
-    xfree(_db[idx].omask);
-    _db[idx].omask = NULL;
+    _override_remove(idx);
 
     return 0;
 }
@@ -1350,18 +1367,18 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(_db[idx].omask == NULL) {
+        return ERR_GENERIC;
+    }
+    if(!_in_bounds(idx, offset, size)) return ERR_2BIG;
+    memcpy(data, &_db[idx].data[offset], size);
+    memcpy(mask, &_db[idx].omask[offset], size);
     return 0;
 }
 
-- 
2.43.0


From 2b059d80ba1f57557c9c76a72c68353efa8dd701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 034/143] fix: modules without a module tag deleted a system
 tag or wrote outside of the database

---
 src/server/module.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..46e1f8a 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -115,6 +115,7 @@ module_add(char *name, unsigned int flags)
         new->flags = flags;
 
         new->fd = 0;
+        new->tagindex = 0;
         new->event_count = 0;
         new->tag_groups = NULL;
         new->groups_size = 0;
@@ -270,14 +271,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -307,7 +308,8 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        /* Modules that don't have a tag have an index of zero here */
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From 4340b9e546370d285fd7bb91dd6a9e5908e5b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 035/143] fix: tags owned by a connection that is not
 registered outlived the connection

---
 src/server/module.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index 46e1f8a..edd5b18 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -301,13 +301,15 @@ module_unregister(int fd)
         dax_log(DAX_LOG_MAJOR,"Removing module '%s' at file descriptor %d", mod->name, fd);
         events_cleanup(mod);
         groups_cleanup(mod);
-        /* This deletes any tag that is owned by this module. */
-        tag_count = get_tagindex();
-        for(tag_index n=0;n<tag_count;n++) {
-            if(is_tag_owned(fd, n)) {
-                tag_del(n);
-            }
+    }
+    /* This deletes any tag that is owned by this connection. */
+    tag_count = get_tagindex();
+    for(tag_index n=0;n<tag_count;n++) {
+        if(is_tag_owned(fd, n)) {
+            tag_del(n);
         }
+    }
+    if(mod != NULL) {
         /* Modules that don't have a tag have an index of zero here */
         if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
-- 
2.43.0


From fb6d3c0946204a558fe1a1904769375a1d64036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 036/143] fix: a tag that is re-added as owned stayed owned by
 the connection that first created it

---
 src/server/tagbase.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index ae3fdd0..f5cf9c3 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -452,13 +452,14 @@ initialize_tagbase(void)
 }
 
 static void
-_set_attribute(tag_index idx, uint32_t attr) {
+_set_attribute(int fd, tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
         /* TODO: add tag retention */;
         ret_add_tag(idx);
         _db[idx].attr |= TAG_ATTR_RETAIN;
     } else {
+        if(attr & TAG_ATTR_OWNED) _db[idx].fd = fd;
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
             _db[idx].attr |= (TAG_ATTR_OWNED | TAG_ATTR_READONLY);
         } else if(attr & TAG_ATTR_OWNED) {
@@ -520,7 +521,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         }
         /* If the tag is identical or bigger then just return the handle */
         if(_db[n].type == type && _db[n].count >= count) {
-            _set_attribute(n, attr);
+            _set_attribute(fd, n, attr);
             return n;
         } else if(_db[n].type == type && _db[n].count < count && !IS_QUEUE(type)) {
             /* If the new count is greater than the existing count then lets
@@ -541,7 +542,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 _db[n].data = newdata;
                 bzero(&_db[n].data[oldsize], size - oldsize);
                 _db[n].count = count;
-                _set_attribute(n, attr);
+                _set_attribute(fd, n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
                 tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
                 return n;
@@ -599,7 +600,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(_db[INDEX_TAGCOUNT].data != NULL) {
         tag_write(-1, INDEX_TAGCOUNT, 0, &_tagcount, sizeof(tag_index));
     }
-    _set_attribute(n, attr);
+    _set_attribute(fd, n, attr);
 
     /* Update the '_tag_added' system tag */
     memset(&tag_desc, 0, sizeof(tag_desc));
-- 
2.43.0


From 093b29e5215de70d9b06ed98cf2cc1b30e1dfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:18 +0000
Subject: [PATCH 037/143] fix: module registration messages without a name were
 accepted

---
 src/server/message.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 97ce872..137c0c9 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -401,7 +401,10 @@ msg_mod_register(dax_message *msg)
     dax_module *mod;
     dax_time starttime;
 
-    if(msg->size > 0) {
+    if(msg->size > 0 && msg->size < MSG_HDR_SIZE) {
+        result = ERR_MSG_BAD;
+        _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
+    } else if(msg->size > 0) {
         msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
-- 
2.43.0


From 8e5a894cb4b97f5a91fde4a9ff3ed0b84f8762cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 038/143] fix: asking for an unknown or base datatype returned
 an unrelated compound datatype

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index f5cf9c3..bbd6d39 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1426,6 +1426,9 @@ serialize_datatype(tag_type type, char **str)
     cdt_member *this;
     int cdt_index;
 
+    if(!IS_CUSTOM(type)) {
+        return ERR_ARG;
+    }
     cdt_index = CDT_TO_INDEX(type);
 
     if(cdt_index < 0 || cdt_index >= _datatype_index) {
-- 
2.43.0


From 11c04c98a1230618f7493b8786bc80476d295ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 039/143] fix: malformed compound datatype definitions crashed
 the server or were accepted

---
 src/server/tagbase.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index bbd6d39..c3e07c7 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -950,6 +950,14 @@ _cdt_destroy(datatype *cdt) {
     if(cdt->name != NULL ) xfree(cdt->name);
 }
 
+/* The number of bits that a member of a compound datatype takes without alignment */
+static uint64_t
+_member_bits(tag_type type, int count)
+{
+    if(type == DAX_BOOL) return count;
+    return (uint64_t)type_size(type) * 8 * count;
+}
+
 /* Receives a definition string in the form of "Name,Type,Count" and
  * appends that member to the compound datatype passed as *cdt.  Returns
  * 0 on success and dax error code on failure */
@@ -958,8 +966,9 @@ cdt_append(datatype *cdt, char *str)
 {
     int retval, count;
     cdt_member *this, *new;
-    char *name, *typestr, *countstr, *last;
+    char *name, *typestr, *countstr, *last, *end;
     tag_type type;
+    uint64_t bits;
 
     /* Parse the description string */
     name = strtok_r(str, ",", &last);
@@ -968,7 +977,8 @@ cdt_append(datatype *cdt, char *str)
     if(typestr == NULL) return ERR_ARG;
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
-    count = strtol(countstr, NULL, 0);
+    count = strtol(countstr, &end, 0);
+    if(*end != '\0' || count <= 0 || strtok_r(NULL, ",", &last) != NULL) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -980,15 +990,18 @@ cdt_append(datatype *cdt, char *str)
         return ERR_ARG;
     }
 
-    /* Check for duplicates */
+    /* Check for duplicates and that the size (in bits) is something that we can deal with */
+    bits = _member_bits(type, count);
     this = cdt->members;
     while(this != NULL) {
         if( !strcasecmp(name, this->name) ) {
             dax_log(DAX_LOG_ERROR, "cdt_append() Duplicate name given");
             return ERR_DUPL;
         }
+        bits += _member_bits(this->type, this->count) + 7;
         this = this->next;
     }
+    if(bits > INT32_MAX) return ERR_2BIG;
 
     /* Allocate the new member */
     new = xmalloc(sizeof(cdt_member));
@@ -1048,7 +1061,12 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
+    if(name == NULL) {
+        result = ERR_ARG;
+    } else {
+        result = _validate_name(name);
+    }
+    if(result) {
         if(error != NULL) *error = result;
         free(tmp);
         return 0;
@@ -1082,6 +1100,11 @@ cdt_create(char *str, int *error) {
         }
     }
     free(tmp);
+    if(cdt.members == NULL) { /* A type without any data is no use */
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = ERR_ARG;
+        return 0;
+    }
 
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
-- 
2.43.0


From cada9bd7061b272f81ccbf389602371058fe7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:25 +0000
Subject: [PATCH 040/143] fix: redefining a compound datatype used an
 uninitialized result, and failed for equal definitions

---
 src/server/tagbase.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c3e07c7..1e87651 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1036,6 +1036,24 @@ cdt_append(datatype *cdt, char *str)
 }
 
 
+/* Returns true if the two datatypes have the same name and the same members */
+static int
+_cdt_equal(datatype *a, datatype *b)
+{
+    cdt_member *m1, *m2;
+
+    if(strcmp(a->name, b->name)) return 0;
+    m1 = a->members;
+    m2 = b->members;
+    while(m1 != NULL && m2 != NULL) {
+        if(strcmp(m1->name, m2->name) || m1->type != m2->type || m1->count != m2->count) return 0;
+        m1 = m1->next;
+        m2 = m2->next;
+    }
+    return m1 == m2;
+}
+
+
 /* Creates a compound datatype using the definition string in *str.
  * Returns the positive index of the newly created datatype if
  * sucessful or 0 on failure. If *error is not NULL any error codes
@@ -1044,7 +1062,7 @@ cdt_append(datatype *cdt, char *str)
 tag_type
 cdt_create(char *str, int *error) {
     int result;
-    char *name, *member, *last, *tmp, *serial;
+    char *name, *member, *last, *tmp;
     datatype cdt;
     datatype *new_datatype;
     tag_type type;
@@ -1071,16 +1089,10 @@ cdt_create(char *str, int *error) {
         free(tmp);
         return 0;
     }
-    if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
-            if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
-            return 0;
-        } else { /* If it's the same then just return it */
-            free(tmp);
-            return type;
-        }
+    if((type = cdt_get_type(name)) && !IS_CUSTOM(type)) {
+        if(error != NULL) *error = ERR_DUPL;
+        free(tmp);
+        return 0;
     }
     /* Initialize the new datatype */
     cdt.name = strdup(name);
@@ -1106,6 +1118,13 @@ cdt_create(char *str, int *error) {
         return 0;
     }
 
+    if(type) { /* We already have a type with this name */
+        result = _cdt_equal(&cdt, &_datatypes[CDT_TO_INDEX(type)]) ? 0 : ERR_DUPL;
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = result;
+        return result ? 0 : type; /* If it's the same then just return it */
+    }
+
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
         /* Allocate more space for the array */
-- 
2.43.0


From c6676f291a3567fb58b2e7221f254e96c8ee91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 041/143] fix: a module whose generated tag name was already in
 use shared the other module's tag

---
 src/server/module.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index edd5b18..c9b050f 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -255,16 +255,16 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
+            x = strlen(tagname);
             result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            while(result==0) { /* The generated name might already be in use as well */
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
-                    sprintf(&tagname[x], "%03d", _mod_uuid++);
+                    sprintf(&tagname[MIN(x, DAX_TAGNAME_SIZE -3)], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
-                    sprintf(&tagname[x], "%05d", _mod_uuid++);
+                    sprintf(&tagname[MIN(x, DAX_TAGNAME_SIZE -5)], "%05d", _mod_uuid++);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
+                result = tag_get_name(tagname, NULL);
             }
             result = tag_add(-1, tagname, cdt_get_type("_module"), 1, 0);
             if(result < 0) {
-- 
2.43.0


From e8d6628a63f1eb5a29c7b94482f85d1feff2c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:59 +0000
Subject: [PATCH 042/143] fix: a queue typed event handle for a tag that is not
 a queue aborted the server

---
 src/server/tagbase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 1e87651..aa5d93d 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -139,6 +139,7 @@ tag_check_handle(tag_handle h)
     if(h.index < 0 || h.index >= _tagnextindex) return ERR_ARG;
     if(_db[h.index].data == NULL) return ERR_DELETED;
     if(_checktype(h.type) || h.count == 0) return ERR_ARG;
+    if(IS_QUEUE(h.type) && !IS_QUEUE(_db[h.index].type)) return ERR_ARG;
     if(h.type == DAX_BOOL) {
         if(h.bit > 7) return ERR_ARG;
         size = ((uint64_t)h.bit + h.count - 1) / 8 + 1;
-- 
2.43.0


From 4ba11182b07121dc6793746cd7a651f393a3a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:29 +0000
Subject: [PATCH 043/143] fix: mapping between overlapping parts of one tag
 copied overlapping memory

---
 src/server/tagbase.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index aa5d93d..19e8d6a 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -881,8 +881,9 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
             result = special_tag_write(fd, idx, offset, data, size);
             if(result) return result;
         }
-        /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        /* Copy the data into the right place.  A mapping might have the source
+         * in the same tag so the areas can overlap */
+        memmove(&(_db[idx].data[offset]), data, size);
         event_check(idx, offset, size);
     }
 
-- 
2.43.0


From 21debd8a410b787506f5dcab5425e1602370dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 044/143] fix: the client lost track of the message stream
 after a short read or a timeout inside a message

---
 src/lib/libmsg.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..88e4bfd 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -68,10 +68,14 @@ _message_get(int fd, dax_message *msg) {
 
     while( index < MSG_HDR_SIZE) {
     	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+        result = read(fd, &buff[index], MSG_HDR_SIZE - index);
         if(result < 0) {
             if(errno == EWOULDBLOCK) {
+                /* Once we have started a message we have to finish it */
+                if(index > 0) continue;
                 return ERR_TIMEOUT;
+            } else if(errno == EINTR) {
+                continue;
             } else {
                 return ERR_MSG_RECV;
             }
@@ -84,14 +88,15 @@ _message_get(int fd, dax_message *msg) {
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    if(msg->size > MSG_DATA_SIZE) return ERR_MSG_BAD;
     /* Now we get the rest of the message */
     index = 0;
     while( index < msg->size) {
     	/* Read the rest of the message */
         result = read(fd, &buff[index], msg->size-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
+            if(errno == EWOULDBLOCK || errno == EINTR) {
+                continue;
             } else {
                 return ERR_MSG_RECV;
             }
-- 
2.43.0


From 1ae33ac91b067e2576c85aa955aa8475f4a42ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:46 +0000
Subject: [PATCH 045/143] fix: responses were copied without regard to the size
 of the caller's buffer

---
 src/lib/libmsg.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 88e4bfd..3541729 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -148,9 +148,9 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         pthread_mutex_unlock(&ds->msg_lock);
         return result;
     }  else if(ds->last_msg->msg_type == (command | (response ? MSG_RESPONSE : 0))) {
-        if(size) {
-            memcpy(payload, ds->last_msg->data, ds->last_msg->size);
-            *size = ds->last_msg->size;
+        if(size) { /* Never write more than the caller has room for */
+            if(ds->last_msg->size < *size) *size = ds->last_msg->size;
+            memcpy(payload, ds->last_msg->data, *size);
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -1204,6 +1204,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_ADD, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1256,6 +1257,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_DEL, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1265,7 +1267,7 @@ dax_event_del(dax_state *ds, dax_id id)
         }
     }
     pthread_mutex_unlock(&ds->lock);
-    return result;
+    return 0;
 }
 
 /*!
@@ -1311,6 +1313,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
@@ -1737,16 +1740,14 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
 
-    size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From 6d2e604c037716ce550e0c7837b81ed901d8a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:46 +0000
Subject: [PATCH 046/143] fix: the response to a request that timed out was
 taken as the response to the next request

---
 src/lib/libdax.h   |  1 +
 src/lib/libevent.c |  2 +-
 src/lib/libinit.c  |  1 +
 src/lib/libmsg.c   | 16 ++++++++++++----
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..6fda471 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -129,6 +129,7 @@ struct dax_state {
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
+    int late_msgs;           /* Number of responses that nobody waits for any more */
     void (*disconnect_callback)(int result);
 };
 
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..daabc80 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -215,7 +215,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        if(ts.tv_nsec >= 1e9) {
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..8b7e307 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -69,6 +69,7 @@ dax_init(const char *name)
         return NULL;
     }
     ds->last_msg = NULL;
+    ds->late_msgs = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 3541729..c0a976a 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -128,17 +128,19 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
+        if(timeout.tv_nsec>=1e9) {
             timeout.tv_sec++;
             timeout.tv_nsec-=1e9;
         }
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
-        if(result == ETIMEDOUT) {
+        if(result == ETIMEDOUT && ds->last_msg == NULL) {
             DF("message_recv() Timeout");
+            /* The response may still come.  It does not belong to the next request */
+            ds->late_msgs++;
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
-        assert(result == 0);
+        assert(result == 0 || result == ETIMEDOUT);
     }
     assert(ds->last_msg != NULL);
     if(ds->last_msg->msg_type == (command | MSG_ERROR)) {
@@ -341,7 +343,12 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->late_msgs > 0) { /* Nobody is waiting for this one any more */
+            ds->late_msgs--;
+            free(msg);
+        } else {
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
         pthread_cond_signal(&ds->msg_cond);
     }
@@ -371,6 +378,7 @@ _connection_thread(void *arg)
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
         init_tag_cache(ds);
+        ds->late_msgs = 0;
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
-- 
2.43.0


From bc76341815d90490df9cae5a6fbd5070b9f38cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:15 +0000
Subject: [PATCH 047/143] fix: disconnecting or losing the server left waiting
 threads hanging and the connection thread using freed memory

---
 src/lib/libdax.h   |   1 +
 src/lib/libevent.c |   4 ++
 src/lib/libinit.c  |   4 +-
 src/lib/libmsg.c   | 116 +++++++++++++++++++++++++++++++++++----------
 4 files changed, 98 insertions(+), 27 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 6fda471..bf401e7 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -117,6 +117,7 @@ struct dax_state {
     unsigned int datatype_size;
     pthread_mutex_t lock;
     pthread_t connection_thread;
+    int thread_active;     /* The connection thread has to be joined */
     pthread_barrier_t connect_barrier; /* Synchronize the connection thread */
     pthread_mutex_t event_lock, msg_lock; /* Locks for the message handling functions */
     pthread_cond_t event_cond, msg_cond; /* Condition variables for the message handling */
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index daabc80..13a855e 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -219,6 +219,10 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
+        if(ds->sfd < 0 && timeout == 0) { /* Nothing will ever come */
+            pthread_mutex_unlock(&ds->event_lock);
+            return ERR_DISCONNECTED;
+        }
         if(timeout) {
             result = pthread_cond_timedwait(&ds->event_cond, &ds->event_lock, &ts);
         } else {
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 8b7e307..4d7e35d 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -70,6 +70,7 @@ dax_init(const char *name)
     }
     ds->last_msg = NULL;
     ds->late_msgs = 0;
+    ds->thread_active = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
@@ -103,7 +104,8 @@ dax_init(const char *name)
 int
 dax_free(dax_state *ds)
 {
-    pthread_mutex_unlock(&ds->lock);
+    /* The connection thread uses all of this so it has to be gone */
+    if(ds->thread_active) dax_disconnect(ds);
     pthread_mutex_destroy(&ds->lock);
     free(ds->modulename);
     /* TODO: gotta loop through and free the udata in the events. */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c0a976a..d4a4ebc 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -50,7 +50,8 @@ _message_send(dax_state *ds, int command, void *payload, size_t size)
 
     /* TODO: We need to set some kind of timeout here.  This could block
        forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
+    /* No SIGPIPE if the server is gone, the caller gets an error instead */
+    result = send(ds->sfd, buff, size + MSG_HDR_SIZE, MSG_NOSIGNAL);
     if(result < 0) {
     /* TODO: Should we handle the case when this returns due to a signal */
         dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
@@ -125,6 +126,10 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
 
     pthread_mutex_lock(&ds->msg_lock);
     while(ds->last_msg == NULL) {
+        if(ds->sfd < 0) { /* The connection is gone, there won't be a response */
+            pthread_mutex_unlock(&ds->msg_lock);
+            return ERR_DISCONNECTED;
+        }
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
@@ -202,6 +207,7 @@ _get_connection(dax_state *ds)
         len = offsetof(struct sockaddr_un, sun_path) + strlen(addr_un.sun_path);
         if (connect(fd, (struct sockaddr *)&addr_un, len) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to local socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Local Server fd = %d", fd);
@@ -219,6 +225,7 @@ _get_connection(dax_state *ds)
 
         if (connect(fd, (struct sockaddr *)&addr_in, sizeof(addr_in)) < 0) {
             dax_log(DAX_LOG_ERROR, "Unable to connect to remote socket - %s", strerror(errno));
+            close(fd);
             return ERR_NO_SOCKET;
         } else {
             dax_log(DAX_LOG_COMM, "Connected to Network Server fd = %d", fd);
@@ -268,6 +275,11 @@ _mod_register(dax_state *ds, char *name)
     if(result) {
     	return result;
     }
+    if(msg.msg_type == (MSG_MOD_REG | MSG_ERROR)) {
+        return stom_dint(*(int32_t *)&msg.data[0]);
+    } else if(msg.msg_type != (MSG_MOD_REG | MSG_RESPONSE)) {
+        return ERR_MSG_BAD;
+    }
 
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
@@ -355,19 +367,51 @@ _read_next_message(dax_state *ds)
     return 0;
 }
 
+/* Marks the connection as closed and wakes up everybody that may be waiting
+ * for a message.  Returns the file descriptor that was used. */
+static int
+_connection_lost(dax_state *ds) {
+    int fd;
+
+    pthread_mutex_lock(&ds->msg_lock);
+    fd = ds->sfd;
+    ds->sfd = -1;
+    pthread_cond_broadcast(&ds->msg_cond);
+    pthread_mutex_unlock(&ds->msg_lock);
+    pthread_mutex_lock(&ds->event_lock);
+    pthread_cond_broadcast(&ds->event_cond);
+    pthread_mutex_unlock(&ds->event_lock);
+    return fd;
+}
+
 static void
 _connection_cleanup(dax_state *ds) {
-    ds->sfd = -1;
+    pthread_mutex_lock(&ds->lock);
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
     free_tag_cache(ds);
+    pthread_mutex_unlock(&ds->lock);
     /* TODO: Free up the event FIFO too */
 }
 
+/* Waits for the connection thread to finish */
+static void
+_connection_join(dax_state *ds) {
+    if(ds->thread_active) {
+        ds->thread_active = 0;
+        if(pthread_equal(ds->connection_thread, pthread_self())) {
+            /* We have been called from the disconnect callback */
+            pthread_detach(ds->connection_thread);
+        } else {
+            pthread_join(ds->connection_thread, NULL);
+        }
+    }
+}
+
 static void *
 _connection_thread(void *arg)
 {
-    int result;
+    int result, fd;
 
     dax_state *ds;
     ds = (dax_state *)arg;
@@ -377,24 +421,31 @@ _connection_thread(void *arg)
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
+        if(result) { /* The server does not want us or is gone already */
+            close(_connection_lost(ds));
+            ds->error_code = result;
+            pthread_barrier_wait(&ds->connect_barrier);
+            return NULL;
+        }
         init_tag_cache(ds);
         ds->late_msgs = 0;
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
-        /* dax_disconnect() will set this to zero to get us out of this loop */
-        while(ds->sfd >= 0) { /* Main connection loop */
+        /* dax_disconnect() will shut down the socket to get us out of this loop */
+        do { /* Main connection loop */
             result = _read_next_message(ds);
-            if(result == ERR_DISCONNECTED) {
-                if(ds->disconnect_callback) {
-                    ds->disconnect_callback(result);
-                }
-                break;
-                //_connection_cleanup(ds);
+        } while(result == 0 || result == ERR_TIMEOUT || result == ERR_ALLOC);
+        ds->error_code = result;
+        fd = _connection_lost(ds);
+        _connection_cleanup(ds);
+        /* If the descriptor is gone then this is the doing of dax_disconnect() */
+        if(fd >= 0) {
+            close(fd);
+            if(ds->disconnect_callback) {
+                ds->disconnect_callback(ERR_DISCONNECTED);
             }
         }
-        _connection_cleanup(ds);
-        ds->error_code = result;
         return NULL;
     } else {
         result = ds->sfd;
@@ -416,19 +467,28 @@ _connection_thread(void *arg)
 int
 dax_connect(dax_state *ds)
 {
+    int result;
+
+    _connection_join(ds); /* There may be an old one */
     /* We use this barrier to stop here until we connect to the server the
      * first time. */
     pthread_barrier_init(&ds->connect_barrier, NULL, 2);
 
-    pthread_create(&ds->connection_thread, NULL, _connection_thread, ds);
-    pthread_detach(ds->connection_thread);
+    if(pthread_create(&ds->connection_thread, NULL, _connection_thread, ds)) {
+        pthread_barrier_destroy(&ds->connect_barrier);
+        return ERR_GENERIC;
+    }
+    ds->thread_active = 1;
     pthread_barrier_wait(&ds->connect_barrier);
 
-    if(ds->error_code == 0) {
+    result = ds->error_code;
+    if(result == 0) {
         opt_lua_init_func(ds);
+    } else {
+        _connection_join(ds);
     }
 
-    return ds->error_code;
+    return result;
 }
 
 /*!
@@ -442,21 +502,25 @@ dax_connect(dax_state *ds)
 int
 dax_disconnect(dax_state *ds)
 {
-    int result = -1;
+    int result, fd;
     size_t len;
 
     pthread_mutex_lock(&ds->lock);
+    result = _message_send(ds, MSG_MOD_REG, NULL, 0);
+    if(! result ) {
+        len = 0;
+        result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
+    }
+    fd = _connection_lost(ds);
     /* Tells the connection thread to exit */
-    if(ds->sfd) {
-        result = _message_send(ds, MSG_MOD_REG, NULL, 0);
-        if(! result ) {
-            len = 0;
-            result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
-        }
-        close(ds->sfd);
-        ds->sfd = 0;
+    if(fd >= 0) {
+        shutdown(fd, SHUT_RDWR);
     }
     pthread_mutex_unlock(&ds->lock);
+    _connection_join(ds);
+    if(fd >= 0) {
+        close(fd);
+    }
     return result;
 }
 
-- 
2.43.0


From 3af7febe4e41fb6479df6caafaa0de32f16b622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:22 +0000
Subject: [PATCH 048/143] fix: tag expressions with nested, BOOL array or badly
 formed members resolved to the wrong data

---
 src/lib/libcdt.c | 59 +++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..eb38e7c 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -21,6 +21,7 @@
 #include <libdax.h>
 #include <libcommon.h>
 #include <ctype.h>
+#include <limits.h>
 
 /* This defines the starting size of the datatype array.
  * It is also the amount that the datatype array will
@@ -503,10 +504,14 @@ _get_index(char *str)
     for(i = 0; i < len && str[i] != '['; i++);
     if(i < len) {
         str[i] = '\0'; /* To end the string */
+        index = 0;
         for(k = i+1; k < len && str[k] != ']'; k++) {
             if(str[k] < '0' || str[k] > '9') return ERR_ARG;
+            if(index > (INT_MAX - 9) / 10) return ERR_2BIG;
+            index = index * 10 + (str[k] - '0');
         }
-        index = atoi(str + i + 1);
+        /* There has to be a number and nothing after the ']' */
+        if(k == i+1 || k != len-1) return ERR_ARG;
     } else {
         index = ERR_NOTFOUND;
     }
@@ -521,6 +526,7 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
 {
     char *endptr;
     int size;
+    long bit;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
        type == DAX_REAL || type == DAX_LREAL ||
@@ -528,21 +534,21 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
            return ERR_BADTYPE;
        }
     if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
+    if(bit >= size*8) {
         return ERR_2BIG;
     }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if(count > size*8 - bit) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
+    h->byte += size * index + (bit / 8);
+    h->bit = bit % 8;
     h->type = DAX_BOOL;
     h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
     h->count = count;
@@ -553,6 +559,7 @@ static int
 _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, int count)
 {
     int index, result, size;
+    unsigned int bit;
     char *name = str;
     char *nextname;
     cdt_member *this;
@@ -566,6 +573,9 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return index;
     }
 
+    if(!IS_CUSTOM(lasttype)) {
+        return ERR_ARG; /* Only these have members */
+    }
     if(dax_type_to_string(ds, lasttype) == NULL) {
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
@@ -577,19 +587,15 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
          * one we are looking for */
         if(strcmp(name, this->name)) {
             if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
+                bit = h->bit + this->count;
+                h->byte += bit / 8;
+                h->bit = bit % 8;
             } else {
                 /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
+                if(h->bit > 0) { h->byte++; }
                 h->byte += dax_get_typesize(ds, this->type) * this->count;
                 h->bit = 0;
             }
-            h->type = this->type; /* We need to keep track of the last type */
-
             this = this->next;
         } else { /* Here we have found it */
             break;
@@ -597,6 +603,12 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
 
     }
     if(this == NULL) return ERR_NOTFOUND;
+    if(index != ERR_NOTFOUND && index >= this->count) return ERR_2BIG;
+    /* Only BOOLs can start in the middle of a byte */
+    if(this->type != DAX_BOOL && h->bit > 0) {
+        h->byte++;
+        h->bit = 0;
+    }
 
     if(nextname) { /* Not the last item */
         if(isdigit(nextname[0])) {
@@ -608,23 +620,17 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         result = _parse_next_member(ds, this->type, h, nextname, count);
         if(result) return result;
         if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
             h->byte += dax_get_typesize(ds, this->type) * index;
         }
     } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
         h->type = this->type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > this->count ) return ERR_2BIG;
+            if(count > this->count - index) return ERR_2BIG;
             if(this->type == DAX_BOOL) {
-                h->byte += index / 8;
-                h->bit += index % 8;
+                bit = h->bit + index;
+                h->byte += bit / 8;
+                h->bit = bit % 8;
                 /* Two bits across the byte boundry require two bytes */
                 h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
                 h->count = count;
@@ -672,6 +678,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
     result = dax_tag_byname(ds, &tag, tagname);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
+    if(index != ERR_NOTFOUND && index >= tag.count) return ERR_2BIG;
 
     if(membername) {
         /* This is the case where the .x is a number referring to a bit */
@@ -698,7 +705,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
         h->type = tag.type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > tag.count ) return ERR_2BIG;
+            if(count > tag.count - index) return ERR_2BIG;
             if(tag.type == DAX_BOOL) {
                 h->byte = index / 8;
                 h->bit = index % 8;
@@ -750,7 +757,7 @@ int
 dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
 {
     int result;
-    if(h == NULL || ds == NULL || str == NULL) {
+    if(h == NULL || ds == NULL || str == NULL || count < 0) {
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
-- 
2.43.0


From eb6bdfc1d5306d6b60fbcf0ed1c85352e846203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 049/143] fix: the name given back for a handle did not denote
 the same data for nested and BOOL members

---
 src/lib/libcdt.c | 116 ++++++++++++++++++-----------------------------
 1 file changed, 44 insertions(+), 72 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index eb38e7c..255c617 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -883,87 +883,65 @@ struct _fqn_data {
     dax_state *ds;
     cdt_iter member;
     uint8_t done;
-    int byte_position;   /* current position within the cdt in bytes*/
-    int bit_position;    /* current position within the cdt in bits*/
-    int final_byte;      /* The final position in bytes*/
-    int final_bit;       /* The final position in bits*/
-
+    int64_t position;    /* Position that we are looking for in bits */
 };
 
 static void _fqn_callback(cdt_iter member, void *udata)
 {
-    int member_size;
     struct _fqn_data *data = (struct _fqn_data *)udata;
-
+    int64_t start, size;
 
     if(! data->done) { /* We use this to indicate whether we've found it or not */
+        start = (int64_t)member.byte * 8 + member.bit;
         if(member.type == DAX_BOOL) {
-            data->byte_position += member.count/8;
-            data->bit_position += member.count % 8;
-            if((data->byte_position * 8 + data->bit_position) > (data->final_byte * 8 + data->final_bit)) {
-                    /* We found it so stop looking and set the member to the struct */
-                    data->member = member;
-                    data->done = 1;
-                    /* Rewind back to before this call which would be the beginning position */
-                    data->byte_position -= member.count/8;
-                    data->bit_position -= member.count % 8;
-            }
-        } else { /* Not BOOL */
-            if(data->bit_position > 0) { /* If we have any bits left over from previous BOOLs */
-                data->bit_position = 0;
-                data->byte_position++;
-            }
-            member_size = member.count * dax_get_typesize(data->ds, member.type);
-            data->byte_position += member_size;
-            if(data->byte_position > data->final_byte) {
-                data->member = member;
-                data->done = 1;
-                data->byte_position -= member_size;
-            }
+            size = member.count;
+        } else {
+            size = (int64_t)member.count * dax_get_typesize(data->ds, member.type) * 8;
+        }
+        if(data->position >= start && data->position < start + size) {
+            data->member = member;
+            data->done = 1;
         }
-
     }
 }
 
-static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn_data *data)
+/* Appends the name of the member that is found at the given bit position
+ * of the type.  Returns zero on success. */
+static int _fqn_cdt_member(dax_state *ds, char *str, tag_type type, int64_t position, tag_type final)
 {
-    int i;
-    char temp[64];
-    data->done = 0;
-    dax_cdt_iter(ds, type, data, _fqn_callback);
-
-    if(data->member.count > 1) {
-        if(data->member.type == DAX_BOOL) {
-            i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-        } else {
-            i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
-            data->byte_position += i * dax_get_typesize(ds, data->member.type);
-        }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
+    int size, index = 0, len;
+    struct _fqn_data data;
+
+    data.ds = ds;
+    data.done = 0;
+    data.position = position;
+    dax_cdt_iter(ds, type, &data, _fqn_callback);
+    if(!data.done) return ERR_NOTFOUND;
+    /* Make it relative to the member that we have found */
+    position -= (int64_t)data.member.byte * 8 + data.member.bit;
+    if(data.member.type == DAX_BOOL) {
+        index = position;
     } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
+        size = dax_get_typesize(ds, data.member.type) * 8;
+        index = position / size;
+        position %= size;
+    }
+    len = strlen(str);
+    if(data.member.count > 1) {
+        snprintf(str + len, FQN_TAG_SIZE - len, ".%s[%d]", data.member.name, index);
+    } else {
+        snprintf(str + len, FQN_TAG_SIZE - len, ".%s", data.member.name);
     }
     /* see if we need to go any further */
-    if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
-        /* If the found member is custom then we have to dig some more */
-        if(IS_CUSTOM(data->member.type)) {
-            /* do it again; */
-            //data->byte_position += data->member.count * dax_get_typesize(ds, data->member.type);
-            _fqn_cdt_member(ds, str, data->member.type, data);
+    if(data.member.type != final) {
+        if(IS_CUSTOM(data.member.type)) {
+            return _fqn_cdt_member(ds, str, data.member.type, position, final);
         } else {
-            // do some other stuff
-            /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
-               if we have any bits left */
-            if(data->member.type != DAX_BOOL) {
-                i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
-            }
+            len = strlen(str);
+            snprintf(str + len, FQN_TAG_SIZE - len, ".%d", (int)position);
         }
     }
-
+    return 0;
 }
 
 /*!
@@ -1003,7 +981,7 @@ dax_fqn(dax_state *ds, tag_handle h) {
     } else {
         ts = dax_get_typesize(ds, tag.type);
         assert(ts != 0);
-        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count))) {
+        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count || h.type != tag.type))) {
             i = h.byte / ts;
             snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, i);
         } else {
@@ -1013,17 +991,11 @@ dax_fqn(dax_state *ds, tag_handle h) {
         offset = i*ts;
 
         if( IS_CUSTOM(tag.type) && h.type != tag.type) {
-            struct _fqn_data data;
-            data.ds = ds;
-            data.byte_position = offset;
-            data.bit_position = 0;
-            data.final_byte = h.byte;
-            data.final_bit = h.bit;
-
-            _fqn_cdt_member(ds, s, tag.type, &data);
+            result = _fqn_cdt_member(ds, s, tag.type, (int64_t)(h.byte - offset) * 8 + h.bit, h.type);
+            if(result) { return NULL; }
         } else if(h.type == DAX_BOOL) {
             snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
+            strncat(s, d, FQN_TAG_SIZE - strlen(s) - 1);
         }
     }
 
-- 
2.43.0


From f099921c521d26e93bf463aa4e6d0de7444fb566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 050/143] fix: writing eight BOOLs that do not start on a byte
 boundary at the end of a tag was refused

---
 src/lib/libdata.c | 24 ++++++++----------------
 src/lib/libmsg.c  | 18 ++++++------------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..6537872 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -524,12 +524,8 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* All the bytes that contain at least one of our bits */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -540,7 +536,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         bzero(mask, size);
         bzero(newdata, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
@@ -549,7 +545,7 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
@@ -618,12 +614,8 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* All the bytes that contain at least one of our bits */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -634,7 +626,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         bzero(newmask, size);
         bzero(newdata, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
@@ -643,7 +635,7 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
             if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index d4a4ebc..7b6b7e0 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -915,11 +915,8 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* All the bytes that contain at least one of our bits */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -930,7 +927,7 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
         bzero(mask, size);
         bzero(newdata, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
@@ -990,16 +987,13 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* All the bytes that contain at least one of our bits */
+        size = (handle.bit + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         bzero(mask, size);
 
-        i = handle.bit % 8;
+        i = handle.bit;
         for(n = 0; n < handle.count; n++) {
             mask[i / 8] |= (1 << (i % 8));
             i++;
-- 
2.43.0


From 2fba6a0d26005fd8ccf0c0f3b54fd2f554dfe208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 051/143] fix: dax_tag_mask() ignored the mask of BOOL handles

---
 src/lib/libdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 6537872..4c2558a 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -631,7 +631,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-- 
2.43.0


From 4a9364524a352e969e7d66dfe13fecf0c8929fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 052/143] fix: failed BOOL writes of several messages leaked
 their buffers

---
 src/lib/libdata.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 4c2558a..f6a0f64 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -548,13 +548,12 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -640,13 +639,12 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
             type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
                 rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &newdata[n], &newmask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
-- 
2.43.0


From 1ab7fbbaf4c9d359d7508a35c97f1f9931f39af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 053/143] fix: writing nested data types touched memory outside
 of the data

---
 src/lib/libdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index f6a0f64..75e9a2b 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -432,7 +432,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
-- 
2.43.0


From da4e9d07e23a2e1d80ff5c74d713dfb7bac962f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 054/143] fix: overrides too large for a message overran the
 message buffer

---
 src/lib/libmsg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 7b6b7e0..160cb03 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -935,22 +935,22 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
             mask[i / 8] |= (1 << (i % 8));
             i++;
         }
-        memcpy(&buff[12], newdata, size);
     } else {
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         for(n = 0; n < size; n++) {
             mask[n] = 0xFF;
         }
-        memcpy(&buff[12], data, size);
     }
 
-    memcpy(&buff[12 + size], mask, size);
     sendsize = size * 2 + 12;
     if(sendsize > MSG_DATA_SIZE) {
         if(newdata != NULL) free(newdata);
         free(mask);
+        return ERR_2BIG;
     }
+    memcpy(&buff[12], newdata != NULL ? newdata : data, size);
+    memcpy(&buff[12 + size], mask, size);
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -1006,11 +1006,12 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
         }
     }
 
-    memcpy(&buff[8], mask, size);
     sendsize = size + 8;
     if(sendsize > MSG_DATA_SIZE) {
         free(mask);
+        return ERR_2BIG;
     }
+    memcpy(&buff[8], mask, size);
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
@@ -1051,6 +1052,7 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
 
     sendsize = 12;
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_GET_OVRD, buff, sendsize);
     if(result) {
-- 
2.43.0


From fb17e053351e6c4dc379b166409eb207a47627ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 055/143] fix: dax_map_get() filled in the handles from
 uninitialised memory on error

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 160cb03..c3d83b7 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1632,6 +1632,7 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
-- 
2.43.0


From c55338d598895f9d4a4e4dae776cf9aa708a47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 056/143] fix: dax_tag_add() overran its buffer with long tag
 names

---
 src/lib/libmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c3d83b7..1416ad0 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -546,14 +546,14 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     int result;
     size_t size;
     dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attributes to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
-- 
2.43.0


From 2c7e1d8c4cea2e83b17587ea9f4510b53f3d1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 057/143] fix: the tag cache kept definitions that the server
 had not accepted or had deleted

---
 src/lib/libdata.c |  2 ++
 src/lib/libmsg.c  | 27 +++++++++++++--------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 75e9a2b..e60cfae 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -55,6 +55,7 @@ free_tag_cache(dax_state *ds) {
 	if(ds->cache_head != NULL) {
         _free_node(ds, ds->cache_head);
         ds->cache_head = NULL;
+        ds->cache_count = 0;
 	}
 }
 
@@ -161,6 +162,7 @@ cache_tag_add(dax_state *ds, dax_tag *tag)
 {
     tag_cnode *new;
 
+    if(ds->cache_limit <= 0) return 0; /* No cache */
     if(ds->cache_head == NULL) { /* First one */
         //--printf("adding {%d} to the beginning\n", tag->handle);
         new = malloc(sizeof(tag_cnode));
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1416ad0..b0caca1 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -545,7 +545,6 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
@@ -588,14 +587,10 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* Just in case this call modifies the tag.  We can't store the tag that
+         * we asked for because the server may have kept the existing tag, in
+         * which case the count or the attributes can be different */
+        cache_tag_del(ds, *(tag_index *)buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
@@ -626,6 +621,7 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0 || result == ERR_DELETED) cache_tag_del(ds, index);
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
@@ -657,7 +653,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
@@ -775,10 +774,10 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -830,10 +829,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -886,10 +885,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1194,10 +1193,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From ccb05dec5a0d418ebb4eb408a3f50ca090629a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:56 +0000
Subject: [PATCH 058/143] fix: a data type that was received twice got all of
 its members twice in the client

---
 src/lib/libcdt.c | 4 ++++
 src/lib/libmsg.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 255c617..b25e3d4 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -225,6 +225,9 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         }
     }
 
+    /* We may have gotten this one already */
+    if(ds->datatypes[index].name != NULL) return 0;
+
     /* At this point we should have the spot for the datatype */
     str = strtok_r(typedesc, ":", &last);
     if(str == NULL) {
@@ -232,6 +235,7 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         return ERR_ARG;
     }
     result = _insert_type(ds, index, str);
+    if(result) return result;
 
     while( (str = strtok_r(NULL, ":", &last)) ) {
         result = _add_member_to_cache(ds, index, str);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index b0caca1..0e4733c 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1501,6 +1501,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = sizeof(tag_type);
     if(name != NULL) {
+        if(strlen(name) > DAX_TAGNAME_SIZE) return ERR_2BIG;
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
-- 
2.43.0


From 9c341138be4a523dd7ea9ef3cd34ff11cf4aa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 059/143] fix: events were looked up while another thread was
 changing the list of events

---
 src/lib/libevent.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 13a855e..b3faba6 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -151,6 +151,7 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
     int n;
     uint32_t idx, eid;
+    event_db event;
 
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
@@ -158,10 +159,16 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
      * This data can be retrieved in the callback by dax_event_get_data() */
     ds->event_data = &msg->data[8];
     ds->event_data_size = msg->size-8;
+    /* Other threads can add and delete events so we need the lock to look for
+     * ours but the callback has to be called without it.  The message can also
+     * get here before dax_event_add() is done, the lock makes us wait for it. */
+    pthread_mutex_lock(&ds->lock);
     for(n = 0; n < ds->event_count; n ++) {
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
+            event = ds->events[n];
+            pthread_mutex_unlock(&ds->lock);
+            if(event.callback != NULL) {
+                event.callback(ds, event.udata);
             }
             if(id != NULL) {
                 id->id = eid;
@@ -171,6 +178,7 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
             return 0;
         }
     }
+    pthread_mutex_unlock(&ds->lock);
     ds->event_data = NULL; /* This indicates that the data is out of scope now */
     dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
     return ERR_GENERIC;
-- 
2.43.0


From 42b1fa677ca0e4ef195cf81a1c982d862a68c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 060/143] fix: using a data type that was not cached yet
 deadlocked and the list of data types was used without lock

---
 src/lib/libcdt.c  | 76 ++++++++++++++++++++++++++++++++---------------
 src/lib/libinit.c |  8 ++++-
 src/lib/libmsg.c  |  9 ++++--
 3 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index b25e3d4..c3a068b 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -81,6 +81,11 @@ _add_member_to_cache(dax_state *ds, int index, char *desc) {
         new->type = dax_string_to_type(ds, type);
         new->count = count;
         new->next = NULL;
+        if(new->name == NULL || new->type == 0) { /* We don't know that type */
+            free(new->name);
+            free(new);
+            return ERR_NOTFOUND;
+        }
         //--printf("_add_member() - name = %s type = 0x%X count = %ld\n", new->name, new->type, new->count);
         /* Add the new member to the end of the linked list */
         this = ds->datatypes[index].members;
@@ -119,6 +124,7 @@ dax_get_typesize(dax_state *ds, tag_type type)
         return ERR_ARG;
 
     if(IS_CUSTOM(type)) {
+        pthread_mutex_lock(&ds->lock);
         this = ds->datatypes[CDT_TO_INDEX(type)].members;
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
@@ -140,6 +146,7 @@ dax_get_typesize(dax_state *ds, tag_type type)
             }
             this = this->next;
         }
+        pthread_mutex_unlock(&ds->lock);
         if(pos) {
             size = (pos - 1)/8 + 1;
         } else {
@@ -180,6 +187,13 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
     }
 }
 
+static void
+_cdt_member_free(cdt_member *member) {
+    if(member->next != NULL) _cdt_member_free(member->next);
+    if(member->name != NULL) free(member->name);
+    free(member);
+}
+
 /* Adds the given type to the array cache.  'type' is the type id
  * and typedesc is the type description string that would be generated
  * by a call to serialize_datatype() in the server. */
@@ -239,7 +253,13 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
 
     while( (str = strtok_r(NULL, ":", &last)) ) {
         result = _add_member_to_cache(ds, index, str);
-        if(result) return result;
+        if(result) { /* Don't keep half of the type */
+            if(ds->datatypes[index].members != NULL) _cdt_member_free(ds->datatypes[index].members);
+            ds->datatypes[index].members = NULL;
+            free(ds->datatypes[index].name);
+            ds->datatypes[index].name = NULL;
+            return result;
+        }
     }
     //DF("add_cdt_to_cache() type = 0x%X, name = %s", type, typedesc);
     return 0;
@@ -333,13 +353,6 @@ dax_cdt_member(dax_state *ds, dax_cdt *cdt, char *name, tag_type type, unsigned
     return 0;
 }
 
-static void
-_cdt_member_free(cdt_member *member) {
-    if(member->next != NULL) _cdt_member_free(member->next);
-    if(member->name != NULL) free(member->name);
-    free(member);
-}
-
 /*!
  * Free the compound data type.  This function will only be
  * used by the module if the dax_cdt_create() function is never
@@ -369,6 +382,7 @@ tag_type
 dax_string_to_type(dax_state *ds, char *type)
 {
     int result, n;
+    tag_type found = 0;
 
     if(type == NULL) return 0;
     if(!strcasecmp(type, "BOOL"))  return DAX_BOOL;
@@ -388,28 +402,28 @@ dax_string_to_type(dax_state *ds, char *type)
     if(!strcasecmp(type, "ULINT")) return DAX_ULINT;
     if(!strcasecmp(type, "LREAL")) return DAX_LREAL;
 
+    pthread_mutex_lock(&ds->lock);
     /* See if we already have it in the cache */
-    for(n = 0; n<ds->datatype_size; n++) {
+    for(n = 0; n<ds->datatype_size && found == 0; n++) {
         if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-            return CDT_TO_TYPE(n);
+            found = CDT_TO_TYPE(n);
         }
     }
 
-    /* If not go to the server for it */
-    result = dax_cdt_get(ds, 0, type);
+    if(found == 0) {
+        /* If not go to the server for it */
+        result = dax_cdt_get(ds, 0, type);
 
-    if(result) {
-        return 0;
-    } else {
         /* Search Again - It'll be there this time */
-        for(n = 0; n < ds->datatype_size; n++) {
+        for(n = 0; result == 0 && n < ds->datatype_size && found == 0; n++) {
             if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-                return CDT_TO_TYPE(n);
+                found = CDT_TO_TYPE(n);
             }
         }
     }
+    pthread_mutex_unlock(&ds->lock);
     /* We should have found it by now.  If not return error */
-    return 0;
+    return found;
 }
 
 /*!
@@ -424,18 +438,21 @@ const char *
 dax_type_to_string(dax_state *ds, tag_type type)
 {
     int index;
+    const char *name = NULL;
 
     /* TODO: Could replace this with a call to get_cdt_pointer() */
     if(IS_CUSTOM(type)) {
         index = CDT_TO_INDEX(type);
+        pthread_mutex_lock(&ds->lock);
         if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return ds->datatypes[index].name;
+            name = ds->datatypes[index].name;
         } else {
             if(!dax_cdt_get(ds, type, NULL)) {
-                return ds->datatypes[index].name;
+                name = ds->datatypes[index].name;
             }
-            return NULL;
         }
+        pthread_mutex_unlock(&ds->lock);
+        return name;
     } else {
         switch (type) {
             case DAX_BOOL:
@@ -765,7 +782,9 @@ dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
+    pthread_mutex_lock(&ds->lock); /* We will use the list of data types */
     result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count);
+    pthread_mutex_unlock(&ds->lock);
     if(result) {
         bzero(h, sizeof(tag_handle)); /* Reset h in case of error */
     }
@@ -799,25 +818,32 @@ dax_cdt_iter(dax_state *ds, tag_type type, void *udata, void (*callback)(cdt_ite
     int index = 0;
 
     if(type == 0) { /* iterate through the custom types */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+        iter.name = result == 0 ? dt->name : NULL;
+        pthread_mutex_unlock(&ds->lock);
 
         while(result == 0 || result == ERR_INUSE) {
             if(result == 0) {
-                iter.name = dt->name;
                 iter.type = CDT_TO_TYPE(index);
                 iter.count = iter.byte = iter.bit = 0;
                 callback(iter, udata);
             }
             index++;
+            pthread_mutex_lock(&ds->lock);
             dt = get_cdt_pointer(ds, CDT_TO_TYPE(index), &result);
+            iter.name = result == 0 ? dt->name : NULL;
+            pthread_mutex_unlock(&ds->lock);
         }
     } else { /* iterate over the members */
+        pthread_mutex_lock(&ds->lock);
         dt = get_cdt_pointer(ds, type, &result);
+        this = dt != NULL ? dt->members : NULL;
+        pthread_mutex_unlock(&ds->lock);
         if(dt == NULL) {
             return result;
         }
 
-        this = dt->members;
         while(this != NULL) {
             iter.name = this->name;
             iter.type = this->type;
@@ -867,11 +893,13 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
     cdt_member *this;
     int count = 0;
 
+    pthread_mutex_lock(&ds->lock);
     dt = get_cdt_pointer(ds, type, &result);
+    this = dt != NULL ? dt->members : NULL;
+    pthread_mutex_unlock(&ds->lock);
     if(dt == NULL) {
         return result;
     }
-    this = dt->members;
     while(this != NULL) {
         count++;
         this = this->next;
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 4d7e35d..3c1ff07 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -39,6 +39,7 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t mutex_attr;
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -79,7 +80,12 @@ dax_init(const char *name)
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
     /* Initialize locks and condition variables */
-    pthread_mutex_init(&ds->lock, NULL);
+    /* The data type functions may have to ask the server for a type while
+     * the lock is already held so this one is recursive */
+    pthread_mutexattr_init(&mutex_attr);
+    pthread_mutexattr_settype(&mutex_attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->lock, &mutex_attr);
+    pthread_mutexattr_destroy(&mutex_attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 0e4733c..c8b0435 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1522,11 +1522,11 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
-    pthread_mutex_unlock(&ds->lock);
     if(result == 0) {
         type = stom_udint(*((tag_type *)buff));
         result = add_cdt_to_cache(ds, type, &(buff[4]));
     }
+    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
@@ -1847,10 +1847,13 @@ dax_group_write(dax_state *ds, tag_group_id *id, void *data) {
     u_temp = mtos_udint(id->index);
     memcpy(buff, &u_temp, 4);
 
+    pthread_mutex_lock(&ds->lock);
     result = group_write_format(ds, id, data);
-    if(result) return result;
+    if(result) {
+        pthread_mutex_unlock(&ds->lock);
+        return result;
+    }
     memcpy(&buff[4], data, id->size);
-    pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_GRP_WRITE, buff, id->size+4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From 1360674d6b11f7442f2cc54209a829c32e2d2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:55 +0000
Subject: [PATCH 061/143] fix: dax_configure() returned garbage if there is no
 configuration file to be read

---
 src/lib/libopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 526a041..4879e0b 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -552,7 +552,7 @@ int
 dax_configure(dax_state *ds, int argc, char **argv, int flags)
 {
     char *topics;
-    int result;
+    int result = 0;
 
     if(ds->modulename == NULL) {
         return ERR_NO_INIT;
-- 
2.43.0


From 736806f5fcf73602060dbe09ad2580379b10b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:32 +0000
Subject: [PATCH 062/143] fix: a tag added again was not found after another
 module had deleted it

---
 src/lib/libmsg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c8b0435..cd8efe7 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -546,6 +546,7 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     int result;
     size_t size;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
+    dax_tag old;
 
     if(count == 0) return ERR_ARG;
     if(name) {
@@ -591,6 +592,10 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
          * we asked for because the server may have kept the existing tag, in
          * which case the count or the attributes can be different */
         cache_tag_del(ds, *(tag_index *)buff);
+        /* Another module may have deleted the tag that we knew by this name */
+        while(check_cache_name(ds, name, &old) == 0) {
+            cache_tag_del(ds, old.idx);
+        }
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
-- 
2.43.0


From cf8d1e04c17cf999d83e0f007bd36d753b00ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:05 +0000
Subject: [PATCH 063/143] fix: the number of elements of a member of a compound
 data type was truncated to 32 bits

---
 src/server/tagbase.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 19e8d6a..8daefab 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -966,7 +966,8 @@ _member_bits(tag_type type, int count)
 static int
 cdt_append(datatype *cdt, char *str)
 {
-    int retval, count;
+    int retval;
+    long count;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last, *end;
     tag_type type;
@@ -980,7 +981,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, &end, 0);
-    if(*end != '\0' || count <= 0 || strtok_r(NULL, ",", &last) != NULL) return ERR_ARG;
+    if(*end != '\0' || count <= 0 || count > INT32_MAX || strtok_r(NULL, ",", &last) != NULL) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
-- 
2.43.0


From 81f156c7eb187056cb31bf7b2e4dc6fc9a0e8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:23 +0000
Subject: [PATCH 064/143] fix: dax_tag_handle() and dax_tag_add() succeeded
 with a wrong size if the data type could not be found out

---
 src/lib/libcdt.c | 4 ++++
 src/lib/libmsg.c | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c3a068b..185daab 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -657,6 +657,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, this->type);
+                if(size < 0) return size;
                 h->size = size * count;
                 h->byte += size * index;
                 h->bit = 0;
@@ -670,6 +671,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, this->type);
+                if(size < 0) return size;
                 h->bit = 0;
                 h->size = size * count;
                 h->count = count;
@@ -734,6 +736,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, tag.type);
+                if(size < 0) return size;
                 h->size = size * count;
                 h->byte = size * index;
                 h->bit = 0;
@@ -749,6 +752,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
                 h->count = count;
             } else {
                 size = dax_get_typesize(ds, tag.type);
+                if(size < 0) return size;
                 h->size = size * count;
                 h->byte = 0;
                 h->bit = 0;
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index cd8efe7..b072411 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -543,7 +543,7 @@ dax_disconnect(dax_state *ds)
 int
 dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count, uint32_t attr)
 {
-    int result;
+    int result, typesize;
     size_t size;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
     dax_tag old;
@@ -585,7 +585,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
             if(type == DAX_BOOL) {
                 h->size = (count - 1)/8 +1;
             } else {
-                h->size = count * dax_get_typesize(ds, type);
+                typesize = dax_get_typesize(ds, type);
+                if(typesize < 0) result = typesize; /* We don't know the type */
+                h->size = count * typesize;
             }
         }
         /* Just in case this call modifies the tag.  We can't store the tag that
-- 
2.43.0


From 4d1e665d0d227d73bfaef65853cf1cde12b4c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:58 +0000
Subject: [PATCH 065/143] fix: requests of other threads got in the way of
 registering a new connection

---
 src/lib/libmsg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index b072411..fadc479 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -416,6 +416,8 @@ _connection_thread(void *arg)
     dax_state *ds;
     ds = (dax_state *)arg;
 
+    /* Nobody else may use the new connection until we are registered */
+    pthread_mutex_lock(&ds->lock);
     /* This is the connection that we used for all the functional
      * request / response messages. */
     ds->sfd = _get_connection(ds);
@@ -424,11 +426,13 @@ _connection_thread(void *arg)
         if(result) { /* The server does not want us or is gone already */
             close(_connection_lost(ds));
             ds->error_code = result;
+            pthread_mutex_unlock(&ds->lock);
             pthread_barrier_wait(&ds->connect_barrier);
             return NULL;
         }
         init_tag_cache(ds);
         ds->late_msgs = 0;
+        pthread_mutex_unlock(&ds->lock);
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
@@ -450,6 +454,7 @@ _connection_thread(void *arg)
     } else {
         result = ds->sfd;
         ds->error_code = result;
+        pthread_mutex_unlock(&ds->lock);
         pthread_barrier_wait(&ds->connect_barrier);
     }
     return NULL;
-- 
2.43.0


From 8c3491d05986df1e34e58ed660f8213bd9f5bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 066/143] fix: times before 1970 were not converted to text
 correctly and the text could be written past the buffer

---
 src/lib/libfunc.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 43e1db6..6cfaa8b 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -46,8 +46,8 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
 {
     int ms;
     long int sec;
-    struct tm *tm;
-    char tstr[16];
+    struct tm *tm, tmbuff;
+    char tstr[64];
 
     if(val==NULL) return ERR_EMPTY;
     switch (type) {
@@ -91,11 +91,14 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_TIME:
             ms = ((dax_lint *)val)[index] % 1000;
-            sprintf(tstr, ".%03d", ms);
             sec = ((dax_lint *)val)[index] / 1000;
-            tm = gmtime(&sec);
-            strftime(buff, size, "%FT%T", tm);
-            strncat(buff, tstr, size);
+            if(ms < 0) { /* Before 1970, the milliseconds still count up */
+                ms += 1000;
+                sec--;
+            }
+            tm = gmtime_r(&sec, &tmbuff);
+            strftime(tstr, sizeof(tstr), "%FT%T", tm);
+            snprintf(buff, size, "%s.%03d", tstr, ms);
             break;
         case DAX_LINT:
             snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
-- 
2.43.0


From f658255fa697de5cbd255f3654d691704e20c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 067/143] fix: the text of a floating point value could be too
 short to get the same value back

---
 src/lib/libfunc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 6cfaa8b..30730c6 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -83,7 +83,11 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             snprintf(buff, size, "%d", ((dax_dint *)val)[index]);
             break;
         case DAX_REAL:
-            snprintf(buff, size, "%.8g", ((dax_real *)val)[index]);
+            snprintf(tstr, sizeof(tstr), "%.8g", ((dax_real *)val)[index]);
+            if(strtof(tstr, NULL) != ((dax_real *)val)[index]) { /* These need one more digit */
+                snprintf(tstr, sizeof(tstr), "%.9g", ((dax_real *)val)[index]);
+            }
+            snprintf(buff, size, "%s", tstr);
             break;
         case DAX_LWORD:
         case DAX_ULINT:
@@ -104,7 +108,11 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
             break;
         case DAX_LREAL:
-            snprintf(buff, size, "%.16g", ((dax_lreal *)val)[index]);
+            snprintf(tstr, sizeof(tstr), "%.16g", ((dax_lreal *)val)[index]);
+            if(strtod(tstr, NULL) != ((dax_lreal *)val)[index]) { /* These need one more digit */
+                snprintf(tstr, sizeof(tstr), "%.17g", ((dax_lreal *)val)[index]);
+            }
+            snprintf(buff, size, "%s", tstr);
             break;
     }
     // TODO: return errors if needed
-- 
2.43.0


From 7f20259f6e054a35184fe1fcf3f67951dfe493d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 068/143] fix: dax_string_to_val() read past the end of an
 empty string

---
 src/lib/libfunc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 30730c6..1ad3416 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -172,7 +172,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             if(mask) ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_CHAR:
-            if(instr[1] == 0) { /* One character */
+            if(instr[0] == 0 || instr[1] == 0) { /* One character, the empty string is a zero */
                 ((dax_char *)buff)[index] = instr[0];
                 if(mask) ((dax_sint *)mask)[index] = 0xFF;
                 break;
-- 
2.43.0


From a8cfa471407920e80ead871cf5e3971e6612a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 069/143] fix: numbers far out of range were clamped to the
 wrong end or not written through the mask

---
 src/lib/libfunc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 1ad3416..9fd3290 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -193,7 +193,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_WORD:
         case DAX_UINT:
-            temp =  strtoul(instr, NULL, 0);
+            temp =  strtol(instr, NULL, 0);
             if(temp < DAX_UINT_MIN) {
                 ((dax_uint *)buff)[index] = DAX_UINT_MIN;
                 retval = ERR_UNDERFLOW;
@@ -255,8 +255,9 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            if(instr[0]=='-') {
+            if(strtoll(instr, NULL, 0) < 0) {
                 ((dax_ulint *)buff)[index] = 0x0000000000000000;
+                if(mask) ((dax_ulint *)mask)[index] = DAX_64_ONES;
                 retval = ERR_UNDERFLOW;
                 break;
             }
@@ -272,7 +273,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             ((dax_lint *)buff)[index] = (dax_lint)strtoll(instr, NULL, 0);
             if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
             if(errno == ERANGE) {
-                if(instr[0]=='-') {
+                if(((dax_lint *)buff)[index] < 0) {
                     retval = ERR_UNDERFLOW;
                 } else {
                     retval = ERR_OVERFLOW;
@@ -288,7 +289,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
                 ((dax_lint *)buff)[index] = (dax_lint)strtoll(instr, NULL, 0);
                 if(mask) ((dax_lint *)mask)[index] = DAX_64_ONES;
                 if(errno == ERANGE) {
-                    if(instr[0]=='-') {
+                    if(((dax_lint *)buff)[index] < 0) {
                         retval = ERR_UNDERFLOW;
                     } else {
                         retval = ERR_OVERFLOW;
-- 
2.43.0


From a76848f9144afd65a82702335f804e21c77c4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 070/143] fix: the Modbus slave did not check the quantity and
 the length of a request and could write past its buffers

---
 src/modules/modbus/mbserver.c |  2 +-
 src/modules/modbus/mbslave.c  |  2 +-
 src/modules/modbus/modbus.c   | 70 ++++++++++++++++++++++++++---------
 src/modules/modbus/modbus.h   | 13 +++++--
 4 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..f4160b4 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -147,7 +147,7 @@ _mb_read(mb_port *port, int fd)
                 port->in_callback(port, cc->buff, cc->buffindex);
             }
 
-            result = create_response(port, &(cc->buff[6]), MB_BUFF_SIZE - 6);
+            result = create_response(port, &(cc->buff[6]), cc->buffindex - 6, MB_BUFF_SIZE - 6);
             if(result > 0) { /* We have a response */
                 msgsize = result;
                 COPYWORD(&(cc->buff[4]), &msgsize);
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..b175345 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -82,7 +82,7 @@ _mb_read(mb_port *port, int fd)
         /* Check the checksum here. */
         result = crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            result = create_response(port, buff, buffindex - 2, MB_BUFF_SIZE - 2);
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..66476f9 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -755,6 +755,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
 {
     int n, bit, word, buffbit, buffbyte;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150];
 
@@ -762,20 +763,25 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->coil_idx;
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->disc_idx;
         regsize = port->nodes[nodeid]->disc_size;
     }
 
-    if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+    if(count < 1 || count > MB_MAX_READ_BITS) {
+        return _create_exception(buff, ME_BAD_VALUE);
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
+        return MB_ERR_OVERFLOW;
+    }
+    slave_read_database(idx, mbreg, index, count, reg);
     buff[2] = (count - 1)/8+1;
+    bzero(&buff[3], buff[2]); /* The unused bits of the last byte are zero */
 
     bit = 0;
     word = 0;
@@ -805,6 +811,7 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
 {
     int n;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150]; /* This is where we will store the data */
 
@@ -812,19 +819,23 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->hold_idx;
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->input_idx;
         regsize = port->nodes[nodeid]->input_size;
     }
 
-    if((count * 2) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+    if(count < 1 || count > MB_MAX_READ_WORDS) {
+        return _create_exception(buff, ME_BAD_VALUE);
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if((count * 2) > (size - 3)) { /* Make sure we have enough room */
+        return MB_ERR_OVERFLOW;
+    }
+    slave_read_database(idx, mbreg, index, count, reg);
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
         COPYWORD(&buff[3+(n*2)], &reg[n]);
@@ -867,22 +878,24 @@ _check_function_code_exception(mb_port *port, int nodeid, uint8_t function) {
 /* Creates a generic slave response.  buff should point to a buffer that
  * looks like an RTU request without the checksum.  This function will generate
  * an RTU response message, and write that back into buff.  size is the total
- * size that we can write into buff.  Returns positive number of bytes written, zero
- * if no bytes written and negative error code if there is a problem. */
+ * size that we can write into buff and length is the size of the request.  Returns
+ * positive number of bytes written, zero if no bytes written and negative error code
+ * if there is a problem. */
 int
-create_response(mb_port *port, unsigned char *buff, int size)
+create_response(mb_port *port, unsigned char *buff, int length, int size)
 {
     uint8_t node, function;
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
-    int8_t result, retval;
+    int8_t result = 0, retval = 0;
     lua_State *L;
 
+    if(length < 2) return 0; /* There is no function code */
     node = buff[0]; /* Node Number */
     function = buff[1]; /* Modbus Function Code */
 
-    if(port->nodes[node] == NULL) { /* No configuration for this node */
+    if(node >= MB_MAX_SLAVE_NODES || port->nodes[node] == NULL) { /* No configuration for this node */
         if(port->nodes[0] != NULL) { /* We use node 0 as the default */
             node = 0;
         } else {
@@ -890,6 +903,13 @@ create_response(mb_port *port, unsigned char *buff, int size)
         }
     }
 
+    if(_check_function_code_exception(port, node, function)) {
+        return _create_exception(buff, ME_WRONG_FUNCTION);
+    }
+    if(length < 6) { /* All of the requests that we understand have at least this much */
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
+
     if(port->nodes[node]->read_callback != LUA_REFNIL) {
         if(function == 1 || function == 2 || function == 3 || function == 4)  {
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
@@ -915,9 +935,6 @@ create_response(mb_port *port, unsigned char *buff, int size)
     if(result) {
         return _create_exception(buff, result);
     }
-    if(_check_function_code_exception(port, node, function)) {
-        return _create_exception(buff, ME_WRONG_FUNCTION);
-    }
 
     switch(function) {
         case 1: /* Read Coils */
@@ -931,6 +948,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
         case 5: /* Write Single Coil */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&value, (uint16_t *)&buff[4]); /* Value */
+            if(value != 0x0000 && value != 0xFF00) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if(index >= port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
@@ -953,13 +973,23 @@ create_response(mb_port *port, unsigned char *buff, int size)
             retval = 6;
             break;
         case 8:
-            return size / 2;
+            COPYWORD(&value, (uint16_t *)&buff[2]); /* Sub function */
+            if(value != 0) { /* We only do the loopback */
+                return _create_exception(buff, ME_WRONG_FUNCTION);
+            }
+            return length;
         case 15: /* Write Multiple Coils */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+            if(count < 1 || count > MB_MAX_WRITE_BITS) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if((index + count) > port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(length < 7 || buff[6] != (count - 1)/8+1 || length < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             word = 0;
             bit = 0;
             for(n = 0; n < count; n++) {
@@ -977,9 +1007,15 @@ create_response(mb_port *port, unsigned char *buff, int size)
         case 16: /* Write Multiple Registers */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+            if(count < 1 || count > MB_MAX_WRITE_WORDS) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if((index + count) > port->nodes[node]->hold_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(length < 7 || buff[6] != count * 2 || length < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 588e2c1..57eed1f 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -97,6 +97,7 @@
 #define ME_WRONG_FUNCTION 1
 #define ME_BAD_ADDRESS    2
 #define ME_WRONG_DEVICE   3
+#define ME_BAD_VALUE      3
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
 
@@ -137,6 +138,12 @@
 
 #define MB_FRAME_LEN 1024
 
+/* Largest number of items in one request, from the Modbus specification */
+#define MB_MAX_READ_BITS   2000
+#define MB_MAX_READ_WORDS  125
+#define MB_MAX_WRITE_BITS  1968
+#define MB_MAX_WRITE_WORDS 123
+
 #ifndef MAX_RETRIES
 #  define MAX_RETRIES 100
 #endif
@@ -147,8 +154,8 @@
 
 /* Number of slave nodes allocated */
 #define MB_MAX_SLAVE_NODES 248
-/* Maximum size of the receive buffer */
-#define MB_BUFF_SIZE 256
+/* Maximum size of the receive buffer. The MBAP header and the largest PDU with its unit id */
+#define MB_BUFF_SIZE 260
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
@@ -336,7 +343,7 @@ int server_loop(mb_port *port);
 int slave_loop(mb_port *port);
 
 /* Protocol Functions - defined in modbus.c */
-int create_response(mb_port * port, unsigned char *buff, int size);
+int create_response(mb_port * port, unsigned char *buff, int length, int size);
 
 /* Utility Functions - defined in modutil.c */
 uint16_t crc16(unsigned char *msg, unsigned short length);
-- 
2.43.0


From d6d13144f1721a89ce26bcb705199add0c8bf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 071/143] fix: requests behind an ignored or another request
 were lost and a bad client stopped the Modbus server

---
 src/modules/modbus/mbserver.c | 80 +++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f4160b4..375cf04 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -94,9 +94,18 @@ _clear_buffers(mb_port *port)
 static int
 _del_connection(mb_port *port, int fd)
 {
+    struct client_buffer **link, *this;
 
     close(fd);
     _del_fd(port, fd);
+    for(link = &port->buff_head; *link != NULL; link = &(*link)->next) {
+        if((*link)->fd == fd) {
+            this = *link;
+            *link = this->next;
+            free(this);
+            break;
+        }
+    }
     return 0;
 }
 
@@ -119,47 +128,55 @@ static int
 _mb_read(mb_port *port, int fd)
 {
     int result, size;
-    unsigned char buff[100];
+    unsigned char buff[MB_BUFF_SIZE];
     struct client_buffer *cc;
     uint16_t msgsize;
 
-    size = 100;
-    result = read(fd, buff, size);
+    cc = _get_buff_ptr(port, fd);
+    assert(cc != NULL); /* If we get this far cc should exist in the port */
+
+    size = MB_BUFF_SIZE - cc->buffindex;
+    result = read(fd, &(cc->buff[cc->buffindex]), size);
     if(result < 0) {
         return MB_ERR_RECV_FAIL;
     } if(result == 0) { /* EOF means the other guy is closed */
         return MB_ERR_NO_SOCKET;
     }
 
-    cc = _get_buff_ptr(port, fd);
-    assert(cc != NULL); /* If we get this far cc should exist in the port */
-
-    /* Check that we haven't received too big of a message */
-    if((result + cc->buffindex) > MB_BUFF_SIZE) {
-        return MB_ERR_OVERFLOW;
-    }
-    memcpy(&(cc->buff[cc->buffindex]), buff, result); /* Copy the new data to the buffer */
     cc->buffindex += result;
-    if(cc->buffindex > 5) {
+    /* There may be more than one request in the buffer */
+    while(cc->buffindex > 5) {
         COPYWORD(&msgsize, (uint16_t *)&cc->buff[4]); /* Get the Modbus Message size */
-        if(cc->buffindex >= (msgsize + 6)) {
-            if(port->in_callback) {
-                port->in_callback(port, cc->buff, cc->buffindex);
-            }
-
-            result = create_response(port, &(cc->buff[6]), cc->buffindex - 6, MB_BUFF_SIZE - 6);
-            if(result > 0) { /* We have a response */
-                msgsize = result;
-                COPYWORD(&(cc->buff[4]), &msgsize);
-                if(port->out_callback) {
-                    port->out_callback(port, cc->buff, result + 6);
-                }
-                write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
-                dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
-                return result;
+        /* Check that this is not too big of a message */
+        if(msgsize > MB_BUFF_SIZE - 6) {
+            return MB_ERR_OVERFLOW;
+        }
+        size = msgsize + 6;
+        if(cc->buffindex < size) break; /* The rest will follow */
+        /* Some clients forget to count the quantity and the byte count */
+        if(cc->buffindex > 12 && (cc->buff[7] == 15 || cc->buff[7] == 16) && size < cc->buff[12] + 13) {
+            size = cc->buff[12] + 13;
+            if(size > cc->buffindex) size = cc->buffindex;
+        }
+        if(port->in_callback) {
+            port->in_callback(port, cc->buff, size);
+        }
+        memcpy(buff, cc->buff, size);
+        /* What is left is the beginning of the next request */
+        cc->buffindex -= size;
+        memmove(cc->buff, &(cc->buff[size]), cc->buffindex);
+
+        result = create_response(port, &(buff[6]), size - 6, MB_BUFF_SIZE - 6);
+        if(result > 0) { /* We have a response */
+            msgsize = result;
+            COPYWORD(&(buff[4]), &msgsize);
+            if(port->out_callback) {
+                port->out_callback(port, buff, result + 6);
             }
+            write(cc->fd, buff, result + 6);
+        } else if(result < 0) {
+            dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
+            return result;
         }
     }
     return 0;
@@ -251,8 +268,9 @@ _receive(mb_port *port)
                     if(result == MB_ERR_NO_SOCKET) { /* This is the end of file */
                         dax_log(DAX_LOG_MAJOR, "Disconnected socket on fd %d", n);
                         _del_connection(port, n);
-                    } else if(result < 0) {
-                        return result; /* Pass the error up */
+                    } else if(result < 0) { /* This client only, the others are fine */
+                        dax_log(DAX_LOG_ERROR, "Closing socket on fd %d because of error %d", n, result);
+                        _del_connection(port, n);
                     }
                 }
             }
-- 
2.43.0


From 451155d03a20155d3dc52b92a3b8d8f85d868f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 072/143] fix: the Modbus slave answered with garbage or
 success if it could not get to the tag

---
 src/modules/modbus/database.c |  8 +++++---
 src/modules/modbus/database.h |  4 ++--
 src/modules/modbus/modbus.c   | 24 ++++++++++++++++++------
 src/modules/modbus/modbus.h   |  1 +
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/modules/modbus/database.c b/src/modules/modbus/database.c
index 93f72be..67636b4 100644
--- a/src/modules/modbus/database.c
+++ b/src/modules/modbus/database.c
@@ -22,7 +22,7 @@
 extern dax_state *ds;
 
 
-void
+int
 slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data)
 {
     int result;
@@ -70,10 +70,11 @@ slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *da
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
 
-void
+int
 slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data) {
     int result;
     tag_handle h;
@@ -117,7 +118,8 @@ slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *dat
     }
     result = dax_read_tag(ds, h, data);
     if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
+        dax_log(DAX_LOG_ERROR, "Unable to read tag data from server\n");
     }
+    return result;
 }
 
diff --git a/src/modules/modbus/database.h b/src/modules/modbus/database.h
index 2734c8a..c47f78f 100644
--- a/src/modules/modbus/database.h
+++ b/src/modules/modbus/database.h
@@ -26,7 +26,7 @@
 #include <modopt.h>
 #include <modbus.h>
 
-void slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
-void slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
 
 #endif
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 66476f9..36ef4c1 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -779,7 +779,9 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
-    slave_read_database(idx, mbreg, index, count, reg);
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAILURE);
+    }
     buff[2] = (count - 1)/8+1;
     bzero(&buff[3], buff[2]); /* The unused bits of the last byte are zero */
 
@@ -835,7 +837,9 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     if((count * 2) > (size - 3)) { /* Make sure we have enough room */
         return MB_ERR_OVERFLOW;
     }
-    slave_read_database(idx, mbreg, index, count, reg);
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAILURE);
+    }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
         COPYWORD(&buff[3+(n*2)], &reg[n]);
@@ -959,7 +963,9 @@ create_response(mb_port *port, unsigned char *buff, int length, int size)
             } else {
                 data[0] = 0x00;
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         case 6: /* Write Single Register */
@@ -969,7 +975,9 @@ create_response(mb_port *port, unsigned char *buff, int length, int size)
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
             data[0] = value;
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         case 8:
@@ -1001,7 +1009,9 @@ create_response(mb_port *port, unsigned char *buff, int length, int size)
                 bit++;
                 if(bit == 16) { bit = 0; word++; }
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         case 16: /* Write Multiple Registers */
@@ -1019,7 +1029,9 @@ create_response(mb_port *port, unsigned char *buff, int length, int size)
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         default:
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 57eed1f..e17ef91 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -98,6 +98,7 @@
 #define ME_BAD_ADDRESS    2
 #define ME_WRONG_DEVICE   3
 #define ME_BAD_VALUE      3
+#define ME_DEVICE_FAILURE 4
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
 
-- 
2.43.0


From fc74876ac57032f12ac2116084182066856c83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 073/143] fix: the Modbus master sent wrong single registers,
 RTU coil writes and requests that are too long

---
 src/modules/modbus/mbcmds.c | 17 +++++++++++++----
 src/modules/modbus/modbus.c | 16 +++++++---------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index 04bb0ec..cb529ff 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -116,12 +116,20 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
             return MB_ERR_FUNCTION;
     }
     cmd->m_register = reg;
-    if(function == 1 || function == 2 || function == 15) {
-        if(length < 1 || length > 2000) {
+    if(function == 1 || function == 2) {
+        if(length < 1 || length > MB_MAX_READ_BITS) {
             return MB_ERR_BAD_ARG;
         }
-    } else if(function == 3 || function == 4 || function == 16) {
-        if(length < 1 || length > 125) {
+    } else if(function == 3 || function == 4) {
+        if(length < 1 || length > MB_MAX_READ_WORDS) {
+            return MB_ERR_BAD_ARG;
+        }
+    } else if(function == 15) {
+        if(length < 1 || length > MB_MAX_WRITE_BITS) {
+            return MB_ERR_BAD_ARG;
+        }
+    } else if(function == 16) {
+        if(length < 1 || length > MB_MAX_WRITE_WORDS) {
             return MB_ERR_BAD_ARG;
         }
     }
@@ -152,6 +160,7 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
     if(newdata == NULL) {
         return MB_ERR_ALLOC;
     } else {
+        bzero(newdata, newsize); /* This may be sent if the tag is smaller */
         cmd->data = newdata;
         cmd->datasize = newsize;
     }
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 36ef4c1..2902db2 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -227,8 +227,8 @@ master_loop(mb_port *mp)
 static int
 sendRTUrequest(mb_port *mp, mb_cmd *cmd)
 {
-    uint8_t buff[MB_FRAME_LEN], length;
-    uint16_t crc, temp;
+    uint8_t buff[MB_FRAME_LEN];
+    uint16_t crc, temp, length;
 
     /* build the request message */
     buff[0]=cmd->node;
@@ -259,7 +259,7 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
             }
             break;
         case 6:
-            temp = *cmd->data;
+            temp = *(uint16_t *)cmd->data;
             /* If the command is contiunous go, if conditional then
              check the last checksum against the current datatable[] */
             if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
@@ -286,12 +286,11 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[2], &cmd->m_register);
                 COPYWORD(&buff[4], &cmd->length);
                 buff[6] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[7]);
-                for(int n = 0; n < buff[7]; n++) {
+                for(int n = 0; n < buff[6]; n++) {
                     buff[7+n] = cmd->data[n];
                 }
                 cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + buff[7];
+                length = 7 + buff[6];
                 break;
             } else {
                 return 0;
@@ -427,7 +426,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 if(temp) buff[10] = 0xff;
                 else     buff[10] = 0x00;
-                buff[5] = 0x00;
+                buff[11] = 0x00;
                 cmd->firstrun = 1;
                 cmd->lastcrc = temp;
                 length = 6;
@@ -437,7 +436,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
             }
             break;
         case 6: /* Write single Holding Register */
-            temp = *cmd->data;
+            temp = *(uint16_t *)cmd->data;
             /* If the command is continuous go, if conditional then
              check the last checksum against the current datatable[] */
             if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
@@ -464,7 +463,6 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 COPYWORD(&buff[10], &cmd->length);
                 buff[12] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[12]);
                 for(int n = 0; n < buff[12]; n++) {
                     buff[13+n] = cmd->data[n];
                 }
-- 
2.43.0


From 099d5f2dc1cee81402264034cf06a9a2810f8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 074/143] fix: the Modbus master believed every response and
 wrote past its buffers

---
 src/modules/modbus/modbus.c | 55 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 2902db2..5da9927 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -353,9 +353,9 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
 
     while(1) {
         usleep(mp->frame * 1000);
-        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN);
+        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN - buffptr);
         if(result > 0) { /* Get some data */
-            buffptr += result; // TODO: WE NEED A BOUNDS CHECK HERE.  Seg Fault Commin'
+            buffptr += result;
         } else { /* Message is finished, good or bad */
             if(buffptr > 0) { /* Is there any data in buffer? */
 
@@ -365,8 +365,8 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
                 /* Check the checksum here. */
                 result = crc16check(buff, buffptr);
 
-                if(!result) return -1;
-                else return buffptr;
+                if(!result || buffptr < 4) return -1;
+                else return buffptr - 2; /* Nobody needs the checksum any more */
 
             } else { /* No data in the buffer */
                 gettimeofday(&thistime,NULL);
@@ -556,29 +556,50 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
  * like an RTU message so the ASCII & TCP response functions should translate
  * the their responses into RTUish messages
  */
-/* TODO: There is all kinds of buffer overflow potential here.  It should all be checked */
+/* Returns zero on success, the code of the exception that the node has sent or a
+ * negative number if this is not a valid response to this command */
 static int
-handleresponse(uint8_t *buff, mb_cmd *cmd)
+handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
 {
-    int n;
+    int n, size;
 
-    cmd->responses++;
-    if(buff[1] >= 0x80)
+    if(length < 3 || buff[0] != cmd->node)
+        return -ME_WRONG_DEVICE;
+    if(buff[1] == (cmd->function | ME_EXCEPTION)) {
+        if(length != 3 || buff[2] == 0) return -ME_WRONG_FUNCTION;
+        cmd->responses++;
         return buff[2];
-    if(buff[0] != cmd->node)
-        return ME_WRONG_DEVICE;
+    }
     if(buff[1] != cmd->function)
-        return ME_WRONG_FUNCTION;
+        return -ME_WRONG_FUNCTION;
+    /* Make sure that it is exactly what we have asked for */
+    switch(cmd->function) {
+        case 1:
+        case 2:
+            size = (cmd->length - 1) / 8 + 1;
+            break;
+        case 3:
+        case 4:
+            size = cmd->length * 2;
+            break;
+        default:
+            size = 0;
+            break;
+    }
+    if(size > 0 && (size > cmd->datasize || buff[2] != size || length != size + 3))
+        return -ME_BAD_ADDRESS;
+    if(size == 0 && length != 6)
+        return -ME_BAD_ADDRESS;
+    cmd->responses++;
     /* If we get this far the message should be good */
     switch (cmd->function) {
         case 1:
         case 2:
-            memcpy(cmd->data, &buff[3], buff[2]);
+            memcpy(cmd->data, &buff[3], size);
             break;
         case 3:
         case 4:
-            /* TODO: There may be times when we get more data than cmd->length but how to deal with that? */
-            for(n = 0; n < (buff[2] / 2); n++) {
+            for(n = 0; n < cmd->length; n++) {
                 COPYWORD(&((uint16_t *)cmd->data)[n], &buff[(n * 2) + 3]);
             }
             break;
@@ -709,10 +730,12 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         }
 
         if(msglen > 0) {
-            result = handleresponse(buff, mc); /* Returns 0 on success + on failure */
+            result = handleresponse(buff, msglen, mc); /* Returns 0 on success + on failure */
             if(result > 0) {
                 mc->exceptions++;
                 mc->lasterror = result | ME_EXCEPTION;
+            } else if(result < 0) { /* Not a response to our request */
+                mc->lasterror = 0 - result;
             } else { /* Everything is good */
                 mc->lasterror = 0;
                 /* Send the data to the tag server */
-- 
2.43.0


From 7f6e345d6b1731d87718511e250d80210820591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 075/143] fix: the Modbus client mixed up responses and never
 opened a lost connection again

---
 src/modules/modbus/mbports.c |  20 ++++++
 src/modules/modbus/modbus.c  | 114 +++++++++++++++++++++++------------
 src/modules/modbus/modbus.h  |   2 +
 3 files changed, 99 insertions(+), 37 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index ca38732..b9ac4fc 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -58,6 +58,8 @@ initport(mb_port *p)
     p->connection_size = MB_INIT_CONNECTION_SIZE;
     p->connection_count = 0;
     p->persist = 1;
+    p->scanning = 0;
+    p->tid = 0;
     pthread_mutex_init(&p->send_lock, NULL);
 };
 
@@ -178,11 +180,13 @@ openIPport(mb_port *mp, struct in_addr address, uint16_t port)
     result = connect(fd, (struct sockaddr *)&addr, sizeof(addr));
 
     if(result == -1) {
+        close(fd);
         return -1;
     }
     result = fcntl(fd, F_SETFL, O_NONBLOCK);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to set socket to non blocking");
+        close(fd);
         return -1 ;
     }
     return fd;
@@ -445,6 +449,22 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
 }
 
 
+/* Closes a connection and removes it from the pool of the port.  The
+ * next command for the same address will open a new one */
+void
+mb_del_connection(mb_port *mp, int fd) {
+    int n;
+
+    for(n=0;n<mp->connection_count;n++) {
+        if(mp->connections[n].fd == fd) {
+            mp->connections[n].addr.s_addr = 0x0000;
+            mp->connections[n].port = 0;
+            mp->connections[n].fd = 0;
+        }
+    }
+    close(fd);
+}
+
 /* Adds a new command to the linked list of commands on port p
    This is the master port threads list of commands that it sends
    while running.  If all commands are to be asynchronous then this
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 5da9927..fd70db0 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -392,8 +392,6 @@ getASCIIresponse(uint8_t *buff, mb_port *mp)
     return 0;
 }
 
-static uint16_t _req_tid;
-
 /* This function formulates and sends the Modbus TCP client request */
 static int
 sendTCPrequest(mb_port *mp, mb_cmd *cmd)
@@ -403,8 +401,9 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 
     /* build the request message */
     /* MBAP Header minus the length.  We'll set it later */
-    buff[0] = _req_tid>>8;  /* Transaction ID */
-    buff[1] = _req_tid++;   /* Transaction ID */
+    mp->tid++;
+    buff[0] = mp->tid>>8;  /* Transaction ID */
+    buff[1] = mp->tid;     /* Transaction ID */
     buff[2] = 0x00;  /* Protocol ID */
     buff[3] = 0x00;  /* Protocol ID */
     /* Modbus RTU PDU */
@@ -507,46 +506,70 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 }
 
 /*
- * This function immediately tries to read data from the file handle.
+ * This function waits for the response to the last request.  It may come in
+ * pieces and there may be a late response to an earlier request in front of it.
 
  * Returns 0 on timeout
+ * Returns -1 if there is something wrong with the connection
  * Returns the length of the message on success
  */
 static int
 getTCPresponse(uint8_t *buff, mb_port *mp)
 {
-    uint8_t tempbuff[MB_FRAME_LEN];
-    struct timeval timeout;
-    int result;
-    fd_set readfs, errfs;
-
-
-    timeout.tv_usec = (mp->timeout % 1000) * 1000;
-    timeout.tv_sec = mp->timeout / 1000;
-    FD_ZERO(&readfs);
-    FD_SET(mp->fd, &readfs);
-    FD_ZERO(&errfs);
-    FD_SET(mp->fd, &errfs);
-    result = select(mp->fd+1, &readfs, NULL, &errfs, &timeout);
-    if(FD_ISSET(mp->fd, &readfs)) {
-        /* TODO Can we really assume that we'll get the whole thing in one read() */
-        result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
-    }
-    if(result > 0) { /* Is there any data in buffer? */
-        if(mp->in_callback) {
-            mp->in_callback(mp, tempbuff, result);
+    uint8_t tempbuff[MB_BUFF_SIZE];
+    struct timeval timeout, start, now;
+    int result, size, index = 0;
+    unsigned long long elapsed;
+    fd_set readfs;
+
+    gettimeofday(&start, NULL);
+    while(1) {
+        /* Is there a whole message in the buffer? */
+        if(index >= 6) {
+            size = ((tempbuff[4] << 8) | tempbuff[5]) + 6;
+            if(tempbuff[2] != 0 || tempbuff[3] != 0 || size < 8 || size > MB_BUFF_SIZE) {
+                return -1; /* We can't know where the next one starts */
+            }
+            if(index >= size) {
+                if(mp->in_callback) {
+                    mp->in_callback(mp, tempbuff, size);
+                }
+                if(((tempbuff[0] << 8) | tempbuff[1]) == mp->tid) {
+                    /* We have to convert the TCP message to it's RTU equivalent,
+                     * because that is what the calling function is expecting. */
+                    memcpy(buff, &tempbuff[6], size - 6);
+                    return size - 6;
+                }
+                /* This one belongs to a request that we have given up on */
+                index -= size;
+                memmove(tempbuff, &tempbuff[size], index);
+                continue;
+            }
+        }
+        gettimeofday(&now, NULL);
+        elapsed = timediff(start, now);
+        if(elapsed >= mp->timeout) return 0;
+        timeout.tv_usec = ((mp->timeout - elapsed) % 1000) * 1000;
+        timeout.tv_sec = (mp->timeout - elapsed) / 1000;
+        FD_ZERO(&readfs);
+        FD_SET(mp->fd, &readfs);
+        result = select(mp->fd+1, &readfs, NULL, NULL, &timeout);
+        if(result < 0) {
+            if(errno == EINTR) continue;
+            return -1;
+        }
+        if(result > 0) {
+            result = read(mp->fd, &tempbuff[index], MB_BUFF_SIZE - index);
+            if(result == 0) return -1; /* The other end is gone */
+            if(result < 0) {
+                if(errno == EAGAIN || errno == EINTR) continue;
+                return -1;
+            }
+            index += result;
         }
-        /* We have to convert the TCP message to it's RTU equivalent,
-         * because that is what the calling function is expecting. */
-        result -= 6;
-        memcpy(buff, &tempbuff[6], result);
     }
-    return result;
 }
 
-
-
-
 /*!
  * This function takes the message buffer and the current command and
  * determines what to do with the message.  It may write data to the
@@ -666,6 +689,15 @@ _send_read_data(mb_cmd *mc) {
 }
 
 
+/* Closes the connection after a command if the port is configured that way */
+static void
+_release_connection(mb_port *mp)
+{
+    if(mp->protocol == MB_TCP && mp->fd >= 0 && !mp->scanning && !mp->persist) {
+        mb_del_connection(mp, mp->fd);
+    }
+}
+
 /*!
  * External function to send a Modbus commaond (mc) to port (mp).  The function
  * sets some function pointers to the functions that handle the port protocol and
@@ -718,14 +750,22 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         result = sendrequest(mp, mc);
         if(result > 0) {
             msglen = getresponse(buff, mp);
+            if(msglen < 0 && mp->protocol == MB_TCP) { /* This connection is useless now */
+                mb_del_connection(mp, mp->fd);
+                mp->fd = -1;
+                mc->timeouts++;
+                mc->lasterror = ME_TIMEOUT;
+                break;
+            }
         } else if(result == 0) {
             /* Should be 0 when a conditional command simply doesn't run */
-            if(!mp->scanning && !mp->persist) close(mp->fd);
+            _release_connection(mp);
             pthread_mutex_unlock(&mp->send_lock);
             return result;
         } else {
-            if(!mp->scanning && !mp->persist) close(mp->fd);
+            if(mp->protocol == MB_TCP) mb_del_connection(mp, mp->fd);
             pthread_mutex_unlock(&mp->send_lock);
+            mc->lasterror = ME_TIMEOUT;
             return -1;
         }
 
@@ -743,7 +783,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
                     result = _send_read_data(mc);
                 }
             }
-            if(!mp->scanning && !mp->persist) close(mp->fd);
+            _release_connection(mp);
             pthread_mutex_unlock(&mp->send_lock);
             return msglen; /* We got some kind of message so no sense in retrying */
         } else if(msglen == 0) {
@@ -757,7 +797,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     } while(try++ <= mp->retries);
     /* After all the retries get out with error */
     /* TODO: Should set error code?? */
-    if(!mp->scanning && !mp->persist) close(mp->fd);
+    _release_connection(mp);
     pthread_mutex_unlock(&mp->send_lock);
     return 0 - mc->lasterror;
 }
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index e17ef91..4597bad 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -275,6 +275,7 @@ typedef struct mb_port {
     tcp_connection *connections;  /* Network connection pool */
     int connection_size;
     int connection_count;
+    uint16_t tid;                 /* Transaction ID of the last TCP request */
     uint8_t persist;              /* If true the port(s) stay open */
     uint8_t scanning;             /* A flag to tell us if we are currently scanning the port */
 
@@ -313,6 +314,7 @@ int mb_set_maxfailures(mb_port *port, int maxfailures, int inhibit);
 int mb_open_port(mb_port *port);
 int mb_close_port(mb_port *port);
 int mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port);
+void mb_del_connection(mb_port *mp, int fd);
 /* Set callback functions that are called any time data is read or written over the port */
 void mb_set_msgout_callback(mb_port *, void (*outfunc)(mb_port *,uint8_t *,unsigned int));
 void mb_set_msgin_callback(mb_port *, void (*infunc)(mb_port *,uint8_t *,unsigned int));
-- 
2.43.0


From 2829c1752a151c972a16a9574b7d2b79d5156235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 076/143] fix: the Modbus master sent old data if it could not
 read the tag and read more of the tag than it has room for

---
 src/modules/modbus/modbus.c | 77 +++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index fd70db0..f75c89b 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -637,58 +637,60 @@ handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
     return 0;
 }
 
-/* This function is called before a write command request is sent.  It's purpose
- * is to read the data from the tagserver and put it in the command buffer.  First
- * it checks to see if we have already retrieved our handle from the
- * tag server.  If not then we attempt to retrieve it.  Then we make sure that
- * the sizes of the tag and the command buffer are the same and adjust if necessary.
- * If the handles has been retrieved then we simply read the data from the
- * tagserver and put it in the command data buffer so that it can be sent. */
+/* Retrieves the handle of the tag of the command from the tag server if we don't
+ * have it yet.  If the data of the command is smaller than the tag then the handle
+ * is adjusted so that only as much as we have room for will be transferred. */
 static int
-_get_write_data(mb_cmd *mc) {
+_get_data_handle(mb_cmd *mc) {
     int result;
+    uint32_t items;
+    tag_handle h;
 
     if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
+        result = dax_tag_handle(ds, &h, mc->data_tag, mc->tagcount);
         if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
+        if(h.type == DAX_BOOL) {
+            items = mc->datasize * 8;
+        } else {
+            items = mc->datasize / (h.size / h.count);
+        }
+        if(items == 0) return ERR_2BIG;
+        if(h.count > items) {
+            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data will be truncated");
+            if(h.type == DAX_BOOL) {
+                h.size = (h.bit + items - 1) / 8 + 1;
+            } else {
+                h.size = h.size / h.count * items;
+            }
+            h.count = items;
         }
+        mc->data_h = h;
     }
-    /* If we get here we assume that we now have a valid tag handle */
+    return 0;
+}
+
+/* This function is called before a write command request is sent.  It's purpose
+ * is to read the data from the tagserver and put it in the command buffer. */
+static int
+_get_write_data(mb_cmd *mc) {
+    int result;
+
+    result = _get_data_handle(mc);
+    if(result) return result;
     return dax_read_tag(ds, mc->data_h, mc->data);
 }
 
 /* This function is called after a command response has been received.  It's purpose
- * is to put the data into the tagserver.  It first checks to see if we have already
- * retrieved our handle from the tag server.  If not then we attempt to retrieve it.
- * Then we make sure that the sizes of the tag and the command buffer are the same
- * and adjust if necessary. If the handles has been retrieved then we simply write
- * the data from the command data buffer to the tagserver. */
+ * is to put the data into the tagserver. */
 static int
 _send_read_data(mb_cmd *mc) {
     int result;
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data will be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
-        }
-    }
-    /* If we get here we assume that we now have a valid tag handle */
+    result = _get_data_handle(mc);
+    if(result) return result;
     return dax_write_tag(ds, mc->data_h, mc->data);
 }
 
-
 /* Closes the connection after a command if the port is configured that way */
 static void
 _release_connection(mb_port *mp)
@@ -745,6 +747,13 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
+        if(result) { /* We don't know what to send */
+            dax_log(DAX_LOG_ERROR, "Unable to read the data for the command from the tag server");
+            mc->lasterror = ME_DEVICE_FAILURE;
+            _release_connection(mp);
+            pthread_mutex_unlock(&mp->send_lock);
+            return MB_ERR_GENERIC;
+        }
     }
     do { /* retry loop */
         result = sendrequest(mp, mc);
-- 
2.43.0


From c5ec44aeaefe677b3c302346c27cc0d632fb9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:44 +0000
Subject: [PATCH 077/143] fix: asynchronous Modbus commands could write past
 their buffers

---
 src/modules/modbus/modbus.c  | 29 +++++++++++++++++++++++++++++
 src/modules/modbus/modmain.c |  1 +
 2 files changed, 30 insertions(+)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index f75c89b..932e779 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -700,6 +700,30 @@ _release_connection(mb_port *mp)
     }
 }
 
+/* Makes sure that we have room for the data of this command */
+static int
+_is_command_valid(mb_cmd *mc)
+{
+    switch(mc->function) {
+        case 1:
+        case 2:
+            return mc->length > 0 && mc->length <= MB_MAX_READ_BITS && (mc->length-1)/8+1 <= mc->datasize;
+        case 3:
+        case 4:
+            return mc->length > 0 && mc->length <= MB_MAX_READ_WORDS && mc->length*2 <= mc->datasize;
+        case 5:
+            return mc->datasize >= 1;
+        case 6:
+            return mc->datasize >= 2;
+        case 15:
+            return mc->length > 0 && mc->length <= MB_MAX_WRITE_BITS && (mc->length-1)/8+1 <= mc->datasize;
+        case 16:
+            return mc->length > 0 && mc->length <= MB_MAX_WRITE_WORDS && mc->length*2 <= mc->datasize;
+        default:
+            return 0;
+    }
+}
+
 /*!
  * External function to send a Modbus commaond (mc) to port (mp).  The function
  * sets some function pointers to the functions that handle the port protocol and
@@ -718,6 +742,11 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
     if(!mc->enable) return 0; /* If we are not enabled we don't send */
+    /* The asynchronous commands are not checked by anybody else */
+    if(!_is_command_valid(mc)) {
+        mc->lasterror = ME_BAD_VALUE;
+        return MB_ERR_BAD_ARG;
+    }
   /* This sets up the function pointers so we don't have to constantly check
    *  which protocol we are using for communication.  From this point on the
    *  code is generic for RTU or ASCII */
diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 8ca98fb..5f80ce3 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -168,6 +168,7 @@ _add_async_command_tag(mb_port *port) {
             dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
             /* Allocate the data area to hold the whole data part of the command */
             port->cmd->data = malloc(port->cmd->data_h.size);
+            port->cmd->datasize = port->cmd->data_h.size;
             if(port->cmd->data == NULL) {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate data for command");
                 mb_destroy_cmd(port->cmd);
-- 
2.43.0


From db6f949da9a5957e5fbc43b3ac55d9c57bbd3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:26 +0000
Subject: [PATCH 078/143] fix: Modbus ports mixed up each other's protocols and
 TCP responses lost their beginning

---
 src/modules/modbus/modbus.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 932e779..2abceb7 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -524,13 +524,13 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
 
     gettimeofday(&start, NULL);
     while(1) {
-        /* Is there a whole message in the buffer? */
+        size = 6; /* Until we have it we need the part that tells us the size */
         if(index >= 6) {
             size = ((tempbuff[4] << 8) | tempbuff[5]) + 6;
             if(tempbuff[2] != 0 || tempbuff[3] != 0 || size < 8 || size > MB_BUFF_SIZE) {
                 return -1; /* We can't know where the next one starts */
             }
-            if(index >= size) {
+            if(index == size) { /* We have the whole message */
                 if(mp->in_callback) {
                     mp->in_callback(mp, tempbuff, size);
                 }
@@ -541,8 +541,7 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
                     return size - 6;
                 }
                 /* This one belongs to a request that we have given up on */
-                index -= size;
-                memmove(tempbuff, &tempbuff[size], index);
+                index = 0;
                 continue;
             }
         }
@@ -559,7 +558,8 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
             return -1;
         }
         if(result > 0) {
-            result = read(mp->fd, &tempbuff[index], MB_BUFF_SIZE - index);
+            /* What follows this message has to stay where it is for the next time */
+            result = read(mp->fd, &tempbuff[index], size - index);
             if(result == 0) return -1; /* The other end is gone */
             if(result < 0) {
                 if(errno == EAGAIN || errno == EINTR) continue;
@@ -738,8 +738,8 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     uint8_t buff[MB_FRAME_LEN]; /* Modbus Frame buffer */
     int try = 1;
     int result, msglen;
-    static int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
-    static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
+    int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
+    int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
     if(!mc->enable) return 0; /* If we are not enabled we don't send */
     /* The asynchronous commands are not checked by anybody else */
-- 
2.43.0


From 8f9492833068606f8a578b66577d1be3fb5fcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 079/143] fix: the Modbus master read bits past the end of its
 buffer

---
 src/modules/modbus/mbcmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index cb529ff..0e4bf13 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -156,11 +156,12 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
             newsize = 2;
             break;
     }
-    newdata = realloc(cmd->data, newsize);
+    /* Bits that don't start at the beginning of a byte need one more to be read */
+    newdata = realloc(cmd->data, newsize + 1);
     if(newdata == NULL) {
         return MB_ERR_ALLOC;
     } else {
-        bzero(newdata, newsize); /* This may be sent if the tag is smaller */
+        bzero(newdata, newsize + 1); /* This may be sent if the tag is smaller */
         cmd->data = newdata;
         cmd->datasize = newsize;
     }
-- 
2.43.0


From e37d967ced31ba5194d9319bb61a2385c3ce2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 080/143] fix: asynchronous Modbus commands overwrote the rest
 of the data area and read past their buffer

---
 src/modules/modbus/modmain.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 5f80ce3..388c01a 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -104,7 +104,7 @@ static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
     uint8_t buff[port->command_h.size];
-    int result;
+    int result, count;
 
     result = dax_read_tag(_ds, port->command_h, buff);
     if(result) {
@@ -116,6 +116,25 @@ _async_command_callback(dax_state *_ds, void *ud) {
         port->cmd->function = buff[10];
         port->cmd->m_register = *(dax_uint *)&buff[11];
         port->cmd->length = *(dax_uint *)&buff[13];
+        /* Only the registers that belong to this command are transferred */
+        switch(port->cmd->function) {
+            case 1:
+            case 2:
+            case 15:
+                count = (port->cmd->length + 15) / 16;
+                break;
+            case 5:
+            case 6:
+                count = 1;
+                break;
+            default:
+                count = port->cmd->length;
+                break;
+        }
+        if(count < 1 || count > MOD_DATA_REG_COUNT) count = MOD_DATA_REG_COUNT;
+        port->cmd->data_h.count = count;
+        port->cmd->data_h.size = count * 2;
+        bzero(port->cmd->data, port->cmd->datasize);
         result = mb_send_command(port, port->cmd);
         buff[0] = 0;
         *(dax_int *)&buff[1] = port->cmd->lasterror;
@@ -160,6 +179,8 @@ _add_async_command_tag(mb_port *port) {
         dax_log(DAX_LOG_ERROR, "Unable to add tag %s", ctag);
     } else {
         port->command_h.size -= MOD_DATA_REG_COUNT*2; /* shrink handle to not include the data */
+        port->command_h.type = DAX_BYTE; /* It's not the whole data type any more */
+        port->command_h.count = port->command_h.size;
         port->cmd = mb_new_cmd(NULL); /* Allocate a command for the port */
         if(port->cmd == NULL) {
             dax_log(DAX_LOG_ERROR, "Unable to allocate command to send");
-- 
2.43.0


From 7202fc56025134d16eceb67280afe853785ca729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:09 +0000
Subject: [PATCH 081/143] fix: module options follow the precedence and
 definitions they document

---
 src/lib/libopt.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 4879e0b..7d42f7d 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -177,7 +177,7 @@ _check_attr(dax_state *ds, char *name, char *longopt, char shortopt)
         if( (longopt != NULL) && (this->longopt != NULL) && (!strcmp(this->longopt, longopt))) {
             return ERR_DUPL;
         }
-        if(this->shortopt == shortopt) {
+        if(shortopt != '\0' && this->shortopt == shortopt) {
             return ERR_DUPL;
         }
         this = this->next;
@@ -191,11 +191,11 @@ dax_add_attribute(dax_state *ds, char *name, char *longopt, char shortopt, int f
     optattr *newattr;
     int result;
 
+    if(name == NULL) return ERR_ARG;
     /* Check for bad symbols */
     if( (result = _check_attr(ds, name, longopt, shortopt)) ) {
         return result;
     }
-    if(name == NULL) return ERR_ARG;
 
     newattr = malloc(sizeof(optattr));
     if(newattr == NULL) {
@@ -239,6 +239,7 @@ dax_attr_callback(dax_state *ds, char *name, int (*attr_callback)(char *name, ch
             this->callback = attr_callback;
             return 0;
         }
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -254,10 +255,11 @@ static int
 _set_attr(optattr *attr, char *value) {
     /* Set the value and call the callback function if there is one */
     if( !(attr->flags & CFG_NO_VALUE) ) {
-        if(attr->flags & (CFG_ARG_OPTIONAL | CFG_ARG_REQUIRED)) {
+        if(attr->value != NULL) free(attr->value);
+        if(value != NULL && (attr->flags & (CFG_ARG_OPTIONAL | CFG_ARG_REQUIRED))) {
             attr->value = strdup(value);
         } else {
-            attr->value = "Yes";
+            attr->value = strdup("Yes");
         }
     }
     if(attr->callback) {
@@ -333,13 +335,16 @@ _parse_commandline(dax_state *ds, int argc, char **argv) {
         }
         this = this->next;
     }
+    shortopts[o_index] = '\0';
+    bzero(&options[attr_index], sizeof(struct option)); /* This marks the end */
+    optind = 0; /* Start over, somebody may have used getopt before us */
     ch = 0;
     while(ch != -1) {
         ch = getopt_long(argc, (char * const *)argv, shortopts, options, &index);
         if(ch > 0) {
             this = ds->attr_head;
             while(this != NULL) {
-                if(this->shortopt == ch) {
+                if(this->shortopt == ch && (this->flags & CFG_CMDLINE)) {
                     _set_attr(this, optarg);
                     break;
                 }
@@ -348,7 +353,7 @@ _parse_commandline(dax_state *ds, int argc, char **argv) {
         } else if(ch == 0) {
             this = ds->attr_head;
             while(this != NULL) {
-                if(!strcasecmp(this->longopt, options[index].name)) {
+                if(this->longopt != NULL && !strcmp(this->longopt, options[index].name)) {
                     _set_attr(this, optarg);
                     break;
                 }
@@ -387,7 +392,7 @@ _get_lua_globals(dax_state *ds) {
         }
         if(s) {
             /* We only set the value if it has not already been set */
-            if(this->value == NULL) {
+            if(this->value == NULL && (this->flags & CFG_MODCONF)) {
                 _set_attr(this, (char *)s);
             }
         }
@@ -462,6 +467,9 @@ _mod_config_file(dax_state *ds) {
         } else {
             return ERR_ALLOC;
         }
+    } else {
+        cfile = strdup(cfile); /* The original still belongs to the attribute */
+        if(cfile == NULL) return ERR_ALLOC;
     }
     luaopen_base(ds->L);
 
@@ -614,16 +622,18 @@ int
 dax_set_attr(dax_state *ds, char *name, char *value)
 {
     optattr *this;
+    char *newvalue = NULL;
 
     this = ds->attr_head;
     while(this != NULL) {
         if(!strcmp(this->name, name)) {
-            if(this->value != NULL) free(this->value);
-            if(value == NULL) {
-                this->value = strdup(this->defvalue);
-            } else {
-                this->value = strdup(value);
+            if(value == NULL) value = this->defvalue;
+            if(value != NULL) {
+                newvalue = strdup(value);
+                if(newvalue == NULL) return ERR_ALLOC;
             }
+            if(this->value != NULL) free(this->value);
+            this->value = newvalue;
             return 0;
         }
         this = this->next;
-- 
2.43.0


From 19b7de75c6fa5d0ea38424d561290314af445ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:09 +0000
Subject: [PATCH 082/143] fix: server options given explicitly win over the
 configuration file

---
 src/server/options.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/server/options.c b/src/server/options.c
index 6672b0b..9a6933b 100644
--- a/src/server/options.c
+++ b/src/server/options.c
@@ -37,6 +37,8 @@ static struct in_addr _serverip;
 static unsigned int _serverport;
 static char *_mod_tag_exclude;
 static int _min_buffers;
+static int _have_serverip; /* 0.0.0.0 and 0 are values like any other */
+static int _have_serverport;
 
 
 /* Initialize the configuration to NULL or 0 for cleanliness */
@@ -46,6 +48,8 @@ static void initconfig(void) {
     _socketname = NULL;
     _serverip.s_addr = 0;
     _serverport = 0;
+    _have_serverip = 0;
+    _have_serverport = 0;
     _mod_tag_exclude = NULL;
 }
 
@@ -56,8 +60,8 @@ setdefaults(void)
 {
     if(!_min_buffers) _min_buffers = DEFAULT_MIN_BUFFERS;
     if(!_socketname) _socketname = strdup("/tmp/opendax");
-    if(!_serverport) _serverport = DEFAULT_PORT;
-    if(!_serverip.s_addr) inet_aton("0.0.0.0", &_serverip);
+    if(!_have_serverport) _serverport = DEFAULT_PORT;
+    if(!_have_serverip) inet_aton("0.0.0.0", &_serverip);
 }
 
 /* This function parses the command line options and sets
@@ -65,7 +69,7 @@ setdefaults(void)
 static void
 parsecommandline(int argc, const char *argv[])
 {
-    char c;
+    int c;
 
     static struct option options[] = {
         {"configfile", required_argument, 0, 'C'},
@@ -80,7 +84,7 @@ parsecommandline(int argc, const char *argv[])
     };
 
 /* Get the command line arguments */
-    while ((c = getopt_long (argc, (char * const *)argv, "C:K:S:I:P:X:Vv", options, NULL)) != -1) {
+    while ((c = getopt_long (argc, (char * const *)argv, "C:T:S:I:P:X:Vv", options, NULL)) != -1) {
         switch (c) {
         case 'C':
             _configfile = strdup(optarg);
@@ -94,10 +98,13 @@ parsecommandline(int argc, const char *argv[])
         case 'I':
             if(! inet_aton(optarg, &_serverip)) {
                 dax_log(DAX_LOG_ERROR, "Unknown IP address %s", optarg);
+            } else {
+                _have_serverip = 1;
             }
             break;
         case 'P':
             _serverport = strtol(optarg, NULL, 0);
+            _have_serverport = 1;
             break;
         case 'X':
             _mod_tag_exclude=strdup(optarg);
@@ -173,17 +180,20 @@ readconfigfile(void)
     lua_pop(L, 1);
 
     lua_getglobal(L, "serverport");
-    if(_serverport == 0) { /* Make sure we didn't get anything on the commandline */
+    if(!_have_serverport && lua_isnumber(L, -1)) { /* Make sure we didn't get anything on the commandline */
         _serverport = (int)lua_tonumber(L, -1);
+        _have_serverport = 1;
     }
     lua_pop(L, 1);
 
     lua_getglobal(L, "serverip");
-    if(_serverip.s_addr == 0) {
+    if(!_have_serverip) {
         c = (char *)lua_tostring(L, -1);
         if(c) {
             if(! inet_aton(c, &_serverip)) {
                 dax_log(DAX_LOG_ERROR, "Unknown IP address %s", c);
+            } else {
+                _have_serverip = 1;
             }
         }
     }
-- 
2.43.0


From 4eaff32cef5bd585e063bdaebf97e1280c617df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:28 +0000
Subject: [PATCH 083/143] fix: master lost track of processes, signalled its
 own group and ran children with its own group id

---
 src/master/process.c | 93 ++++++++++++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index 0ee7746..7c8349c 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -26,13 +26,11 @@
 #include <unistd.h>
 #include <signal.h>
 
-/* This array is the dead process list.
-   TODO: This should be improved to allow it to grow when needed.
-*/
-#ifndef DPQ_SIZE
-  #define DPQ_SIZE 10
-#endif
-static dead_process _dpq[DPQ_SIZE];
+/* This array is the dead process list.  It has one slot for each process
+   in the list.  It's allocated when the process is added because it is filled
+   from the signal handler and we can't be allocating memory there. */
+static dead_process *_dpq = NULL;
+static int _dpq_size = 0;
 static dax_process *_process_list = NULL;
 
 #ifdef HAVE_PROCDIR
@@ -105,10 +103,9 @@ _arglist_tok(char *path, char *str)
             arr[index++] = strdup(token); /* TODO: ERROR CHECK THIS */
             token = strtok_r(NULL, " ", &save);
         }
-        arr[index] = NULL;
-
         free(temp);
     }
+    arr[index] = NULL;
     return arr;
 }
 
@@ -116,9 +113,18 @@ dax_process *
 process_add(char *name, char *path, char *arglist, unsigned int flags)
 {
     dax_process *new, *this;
+    dead_process *newq;
     dax_log(DAX_LOG_DEBUG,"Adding process %s to configuration",name);
 
-    new = malloc(sizeof(dax_process));
+    /* Every process that we have could die before the next scan so
+       make sure there is a place in the queue for each of them */
+    newq = realloc(_dpq, (_dpq_size + 1) * sizeof(dead_process));
+    if(newq == NULL) return NULL;
+    _dpq = newq;
+    memset(&_dpq[_dpq_size], 0, sizeof(dead_process));
+    _dpq_size++;
+
+    new = calloc(1, sizeof(dax_process));
     if(new) {
         new->fd = 0;
         new->efd = 0;
@@ -228,9 +234,10 @@ process_start_all(void)
             while(result) {
                 timeout = rem;
                 result = nanosleep(&timeout, &rem);
-                if(errno == EFAULT)
+                if(result && errno != EINTR) {
                     dax_log(DAX_LOG_FATAL, "Serious problem with nanosleep in function process_start_all()");
-                assert(errno != EINVAL);
+                    break;
+                }
             }
         }
         this = this->next;
@@ -247,13 +254,8 @@ _set_user_group(dax_process *proc)
     uid = geteuid();
     gid = getegid();
 
-    if(proc->uid >= 0 && proc->uid != uid) {
-        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
-        result = setuid(proc->uid);
-        if(result) {
-            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
-        }
-    }
+    /* The group has to be first.  We may not be allowed to change it once
+     * we are no longer root */
     if(proc->gid >= 0 && proc->gid != gid) {
         dax_log(DAX_LOG_MINOR, "Changing group id to %d process %s", proc->gid, proc->name);
         result = setgid(proc->gid);
@@ -261,6 +263,13 @@ _set_user_group(dax_process *proc)
             dax_log(DAX_LOG_ERROR, "Unable to set gid %d - %s", proc->gid, strerror(errno));
         }
     }
+    if(proc->uid >= 0 && proc->uid != uid) {
+        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
+        result = setuid(proc->uid);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+        }
+    }
 }
 
 /* This function is used to start a module */
@@ -291,6 +300,10 @@ process_start(dax_process *proc)
             }
         } else { /* Error on the fork */
             dax_log(DAX_LOG_ERROR, "process_start fork failed - %s - %s", proc->path, strerror(errno));
+            /* It's as dead as one that started and quit right away */
+            gettimeofday(&proc->starttime, NULL);
+            proc->deadtime = proc->starttime;
+            proc->state = PSTATE_DEAD;
         }
     } else {
         return 0;
@@ -329,6 +342,8 @@ _cleanup_process(pid_t pid, int status)
         proc->pid = 0;
         proc->last_etime = 0;
         proc->last_ptime = 0;
+        proc->pcpu = 0.0;
+        proc->rss = 0;
         proc->exit_status = status;
         proc->state = PSTATE_DEAD;
         gettimeofday(&proc->deadtime, NULL);
@@ -349,7 +364,8 @@ _process_get_cpu_stat(dax_process *proc)
     FILE *f;
     char filename[128];
     char line[1024];
-    int pid, result;
+    char *stat;
+    int result;
     unsigned long utime, stime, ptime, etime, times[4];
     long rss;
 
@@ -359,10 +375,15 @@ _process_get_cpu_stat(dax_process *proc)
         dax_log(DAX_LOG_ERROR, "Unable to open file %s", filename);
         return errno;
     }
-    result = fscanf(f, "%d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &pid, &utime, &stime, &rss);
-    if(result < 4) return -1;
-    ptime = utime + stime;
+    stat = fgets(line, 1024, f);
     fclose(f);
+    if(stat == NULL) return -1;
+    /* The command name is in parentheses and may contain anything */
+    stat = strrchr(line, ')');
+    if(stat == NULL) return -1;
+    result = sscanf(stat + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &utime, &stime, &rss);
+    if(result < 3) return -1;
+    ptime = utime + stime;
     /* Now read and parse the cpu stat file */
     f = fopen("/proc/stat", "r");
     if(f == NULL) {
@@ -429,7 +450,7 @@ process_scan(void)
     static unsigned int count;
 
     /* Check the dead module queue for pid's that need cleaning */
-    for(n = 0; n < DPQ_SIZE; n++) {
+    for(n = 0; n < _dpq_size; n++) {
         if(_dpq[n].pid != 0) {
             _cleanup_process(_dpq[n].pid, _dpq[n].status);
             _dpq[n].pid = 0;
@@ -457,14 +478,18 @@ process_scan(void)
             /* approximately every minute we'll get cpu stats and deal with
              * the processes that misbehave.  We add the pid so that we don't
              * do every process in the same scan */
-            if((count + this->pid) % 64 == 0) {
+            if(this->pid > 0 && (count + this->pid) % 64 == 0) {
                 /* If we come back around and have been condemned then we
                  * need to kill it the hard way.*/
                 if(this->state == PSTATE_CONDEMNED) {
                     dax_log(DAX_LOG_MODULE, "Killing process %s [%d]", this->name, this->pid);
                     kill(this->pid, SIGKILL);
                 }
-                _process_get_cpu_stat(this);
+                if(_process_get_cpu_stat(this)) {
+                    /* Don't judge it by how it used to behave */
+                    this->pcpu = 0.0;
+                    this->rss = 0;
+                }
                 if(this->cpu > 0.0 && this->pcpu > this->cpu) {
                     dax_log(DAX_LOG_MODULE, "Process %s [%d] has exceeded CPU usage of %f",
                             this->name, this->pid, this->cpu);
@@ -498,19 +523,20 @@ process_stop(dax_process *proc)
     return 0;
 }
 
-/* Adds the dead module to the first blank spot in the list.  If the list
-   is overflowed then it'll just overwrite the last one.
-   TODO: If more than DMQ_SIZE modules dies all at once this will cause
-         problems.  Should be fixed. */
+/* Adds the dead module to the first blank spot in the list.  There is a spot
+   for each of our processes.  If there isn't a spot then it's a child that
+   we didn't start and we can ignore it. */
 void
 process_dpq_add(pid_t pid, int status)
 {
     int n = 0;
-    while(_dpq[n].pid != 0 && n < DPQ_SIZE) {
+    while(n < _dpq_size && _dpq[n].pid != 0) {
         n++;
     }
-    _dpq[n].pid = pid;
-    _dpq[n].status = status;
+    if(n < _dpq_size) {
+        _dpq[n].status = status;
+        _dpq[n].pid = pid;
+    }
 }
 
 void
@@ -525,6 +551,7 @@ _print_process_list(void)
         printf("Process %s\n", this->name);
         printf("  path    = %s\n", this->path);
         args = this->arglist;
+        n = 0;
         while(args[n] != NULL) {
             printf("  arg[%d]    = %s\n", n, args[n]);
             n++;
-- 
2.43.0


From a451764297bd6167d5d7fd7f3c721e6819f99c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:28 +0000
Subject: [PATCH 084/143] fix: master configuration kept dangling strings and
 ignored the log topics option

---
 src/master/mstr_config.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index e135581..19e104a 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -48,7 +48,7 @@ setdefaults(void)
 static void
 parsecommandline(int argc, const char *argv[])
 {
-    char c;
+    int c;
 
     static struct option options[] = {
         {"config", required_argument, 0, 'C'},
@@ -61,7 +61,7 @@ parsecommandline(int argc, const char *argv[])
     };
 
 /* Get the command line arguments */
-    while ((c = getopt_long (argc, (char * const *)argv, "C:p:VvD",options, NULL)) != -1) {
+    while ((c = getopt_long (argc, (char * const *)argv, "C:T:p:VvD",options, NULL)) != -1) {
         switch (c) {
         case 'C':
             _configfile = strdup(optarg);
@@ -176,11 +176,15 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     proc = process_add(name, path, arglist, flags);
+    if(proc == NULL) {
+        dax_log(DAX_LOG_ERROR, "Unable to add process %s", name);
+        return 0;
+    }
 
     /* for some reason not doing this strdup() would cause the username
      * 'opendax' to be read as 'openda'???*/
     lua_getfield(L, -1, "user");
-    if(! lua_isnil(L, -1)) {
+    if(lua_isstring(L, -1)) {
         proc->user = strdup((char *)lua_tostring(L, -1));
     } else {
         proc->user = "opendax";
@@ -188,7 +192,7 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "group");
-    if(! lua_isnil(L, -1)) {
+    if(lua_isstring(L, -1)) {
         proc->group = strdup((char *)lua_tostring(L, -1));
     } else {
         proc->group = "opendax";
@@ -212,7 +216,9 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "env");
-    proc->env = (char *)lua_tostring(L, -1);
+    if(lua_isstring(L, -1)) {
+        proc->env = strdup(lua_tostring(L, -1));
+    }
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "delay");
-- 
2.43.0


From 397bd5eba657b9ea69ae178a56fbcbb32614742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:15 +0000
Subject: [PATCH 085/143] fix: retained tags survive repeated restarts, growth
 and deletion

---
 src/server/retain.c  | 80 ++++++++++++++++++++++++++------------------
 src/server/tagbase.c | 12 +++++--
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..e8d3cfd 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -79,7 +79,7 @@ _create_tags(void) {
 
 
     // CREATE ALL THE DATATYPES FIRST
-    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data FROM tags;", -1, &stmt, NULL);
+    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data,id FROM tags ORDER BY id;", -1, &stmt, NULL);
     if(result != SQLITE_OK) {
         /* Most errors are because we have a new file */
         dax_log(DAX_LOG_ERROR, "Unable to compile SQL statement to create tags");
@@ -98,7 +98,12 @@ _create_tags(void) {
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            if(size > 0) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
+            /* It's still a retained tag and this is where it's stored */
+            _db[tag_index].ret_file_pointer = sqlite3_column_int(stmt, 4);
+            tag_set_attribute(tag_index, TAG_ATTR_RETAIN);
         }
     }
     if(result != SQLITE_DONE) {
@@ -136,7 +141,6 @@ _create_database_tables(void) {
 static int
 _init(char *filename) {
     int result;
-    char *errmsg;
 
     dax_log(DAX_LOG_DEBUG, "Setting up SQLite Tag Retention - %s", filename);
     result = sqlite3_open(filename, &_sql);
@@ -150,14 +154,6 @@ _init(char *filename) {
        These may fail if the file doesn't exist but that's okay */
     result = _create_types(); /* Creates the types that are stored in the data base */
     result = _create_tags(); /* Creates the tags that are in the data base */
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'tags' - %s", errmsg);
-    }
-    result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS types;", NULL, 0, &errmsg);
-    if(result != SQLITE_OK) {
-        DF("unable to drop table 'types' - %s", errmsg);
-    }
     result = _create_database_tables();
     result = sqlite3_prepare_v2(_sql, "UPDATE tags SET data = ?1 WHERE id = ?2;", -1, &update_stmt, NULL);
     if(result) {
@@ -180,15 +176,14 @@ _add_type(tag_type type) {
     cdt_member *next;
     char *type_str;
     sqlite3_stmt *stmt;
-    int index;
     int result;
-    char query[256];
 
+    if(_sql == NULL) return ERR_FILE_CLOSED;
     dt = cdt_get_entry(type);
-    index = CDT_TO_INDEX(type);
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_ARG;
     }
     /* Loop through all the members and recursively add any
        compound data types that we find */
@@ -200,49 +195,54 @@ _add_type(tag_type type) {
         next = next->next;
     }
     /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
-    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = serialize_datatype(type, &type_str);
+    if(result < 0) return result;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
-
-    result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
+    /* The type might already be there because of another tag.  The ids have to stay in
+       the order that the types were added so that the members can be created first */
+    result = sqlite3_prepare_v2(_sql, "INSERT OR IGNORE INTO main.types(name,definition) VALUES (?1,?2);", -1, &stmt , NULL);
     if(result != SQLITE_OK) {
-        dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        dax_log(DAX_LOG_ERROR, "Unable to create type in retention ");
+        xfree(type_str);
         return result;
     }
-    sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
+    sqlite3_bind_text(stmt, 1, dt->name, -1, NULL);
+    sqlite3_bind_text(stmt, 2, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    xfree(type_str);
     if(result != SQLITE_DONE) {
-        dax_log(DAX_LOG_ERROR, "Problem inserting tag");
+        dax_log(DAX_LOG_ERROR, "Problem inserting type");
         return -1;
     }
-    sqlite3_finalize(stmt);
 
     return 0;
 }
 
+/* Adds the tag to the retention database.  If it's already there then
+   the definition and the value are replaced. */
 int
 ret_add_tag(int index) {
     sqlite3_stmt *stmt;
     int id;
     int result;
-    char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Adding Retained Tag at index %d", index);
-    /* TODO: Implement retaining custom data type tags */
+    if(_sql == NULL) return ERR_FILE_CLOSED;
     if(IS_CUSTOM(_db[index].type)) {
         _add_type(_db[index].type);
     }
-    if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
-                         _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
-
-    result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
+    result = sqlite3_prepare_v2(_sql, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES (?1,?2,?3,?4);", -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    sqlite3_bind_text(stmt, 1, _db[index].name, -1, NULL);
+    sqlite3_bind_text(stmt, 2, cdt_get_name(_db[index].type), -1, NULL);
+    sqlite3_bind_int(stmt, 3, _db[index].count);
+    sqlite3_bind_blob(stmt, 4, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
         id = sqlite3_last_insert_rowid(_sql);
@@ -251,15 +251,28 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
     return 0;
 }
 
 int
 ret_del_tag(int index) {
+    sqlite3_stmt *stmt;
+    int result;
 
     dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
-
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_prepare_v2(_sql, "DELETE FROM main.tags WHERE id = ?1;", -1, &stmt , NULL);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Unable to delete tag from retention");
+        return result;
+    }
+    sqlite3_bind_int(stmt, 1, _db[index].ret_file_pointer);
+    result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    if(result != SQLITE_DONE) {
+        dax_log(DAX_LOG_ERROR, "Problem deleting tag from retention");
+        return -1;
+    }
     return 0;
 }
 
@@ -267,7 +280,8 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 8daefab..360f595 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -456,9 +456,11 @@ static void
 _set_attribute(int fd, tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
-        /* TODO: add tag retention */;
-        ret_add_tag(idx);
-        _db[idx].attr |= TAG_ATTR_RETAIN;
+        /* The data of a queue is not something that we can store */
+        if(!IS_QUEUE(_db[idx].type)) {
+            ret_add_tag(idx);
+            _db[idx].attr |= TAG_ATTR_RETAIN;
+        }
     } else {
         if(attr & TAG_ATTR_OWNED) _db[idx].fd = fd;
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
@@ -544,6 +546,10 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 bzero(&_db[n].data[oldsize], size - oldsize);
                 _db[n].count = count;
                 _set_attribute(fd, n, attr);
+                /* If it was already retained then it has to be stored with its new size */
+                if((_db[n].attr & TAG_ATTR_RETAIN) && !(attr & TAG_ATTR_RETAIN)) {
+                    ret_add_tag(n);
+                }
                 /* Since it changed we update this tag so the write event will trigger */
                 tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
                 return n;
-- 
2.43.0


From 51db423df74b677dc954b57bebcda4fc4be8b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 086/143] fix: Lua lost the fraction of REAL values and the
 precision of 64 bit integers

---
 src/lib/lua/libdaxlua.c | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..5fa63b8 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -64,11 +64,11 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, *((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
@@ -213,6 +213,27 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 
 /* Here begin the tag writing functions.  */
 
+/* Retrieves the integer at the top of the stack without losing any of the 64 bits.
+ * The fractional part of numbers that are not integers is dropped */
+static inline lua_Integer
+_get_integer(lua_State *L)
+{
+    lua_Integer x;
+    lua_Number num;
+    int isint;
+
+    x = lua_tointegerx(L, -1, &isint);
+    if(!isint) {
+        num = lua_tonumber(L, -1);
+        if(num >= -9223372036854775808.0 && num < 9223372036854775808.0) {
+            x = (lua_Integer)num;
+        } else if(num >= 9223372036854775808.0 && num < 18446744073709551616.0) {
+            x = (lua_Integer)(uint64_t)num;
+        }
+    }
+    return x;
+}
+
 /* Takes the Lua value at the top of the stack, converts it and places it
  * in the proper place in data.  The mask is set as well.  */
 static inline void
@@ -223,33 +244,32 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
     assert(mask != NULL);
     switch (type) {
         case DAX_BYTE:
-            x = lua_tointeger(L, -1) % 256;
+            x = _get_integer(L) % 256;
             ((dax_byte *)data)[index] = x;
             ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_SINT:
         case DAX_CHAR:
-            x = lua_tointeger(L, -1) % 256;
+            x = _get_integer(L) % 256;
             ((dax_sint *)data)[index] = x;
             ((dax_sint *)mask)[index] = 0xFF;
             break;
         case DAX_WORD:
         case DAX_UINT:
-            ((dax_uint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_uint *)data)[index] = _get_integer(L);
             ((dax_uint *)mask)[index] = 0xFFFF;
             break;
         case DAX_INT:
-            ((dax_int *)data)[index] = lua_tonumber(L, -1);
+            ((dax_int *)data)[index] = _get_integer(L);
             ((dax_int *)mask)[index] = 0xFFFF;
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
-            ((dax_udint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_udint *)data)[index] = _get_integer(L);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_DINT:
-            ((dax_dint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_dint *)data)[index] = _get_integer(L);
             ((dax_dint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_REAL:
@@ -258,11 +278,12 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_ulint *)data)[index] = _get_integer(L);
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
+        case DAX_TIME:
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_lint *)data)[index] = _get_integer(L);
             ((dax_lint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LREAL:
-- 
2.43.0


From 430b9797beb74a4da8967c4bc2ba548529a6a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:42 +0000
Subject: [PATCH 087/143] fix: Lua string writes overran BOOL arrays and wrote
 uninitialised memory

---
 src/lib/lua/libdaxlua.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5fa63b8..1cff16f 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -304,7 +304,8 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
     const char *s;
 
     if(tag.count > 1) { /* The tag is an array */
-        if(lua_type(L, -1) == LUA_TSTRING) {
+        if(lua_type(L, -1) == LUA_TSTRING && tag.type != DAX_BOOL && TYPESIZE(tag.type) == 8) {
+            bzero(data, tag.count);
             s = lua_tolstring(L, -1, &len);
             memcpy(data, s, tag.count<len ? tag.count : len);
             memset(mask, 0xFF, tag.count); /* Change it all */
-- 
2.43.0


From 449829f3bf3be255bc44ade4736fd501d0178cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 088/143] fix: badly shaped Lua structures corrupted the Lua
 stack

---
 src/lib/lua/libdaxlua.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 1cff16f..80f537f 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -366,12 +366,15 @@ _write_callback(cdt_iter member, void *udata)
     unsigned char *mask = ((struct iter_udata *)udata)->mask;
     int offset, n, result = 0;
 
+    /* Once we have an error the message is at the top of the stack */
+    if(((struct iter_udata *)udata)->error) return;
+
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
         newdata.error = 0;
         lua_pushstring(L, member.name);
         lua_rawget(L, -2);
-        if(member.count > 1) {
+        if(member.count > 1 && ! lua_isnil(L, -1)) {
             for(n = 0;n < member.count; n++) {
                 offset = member.byte + (n * dax_get_typesize(ds, member.type));
                 newdata.data = (char *)data + offset;
@@ -391,11 +394,11 @@ _write_callback(cdt_iter member, void *udata)
                     }
                     dax_cdt_iter(ds, member.type, &newdata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(newdata.error) {
                     ((struct iter_udata *)udata)->error = newdata.error;
                     return;
                 }
+                lua_pop(L, 1);
             }
         } else {
             newdata.data = (char *)data + member.byte;
@@ -420,11 +423,12 @@ _write_callback(cdt_iter member, void *udata)
         if(! lua_isnil(L, -1)) {
             result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
         }
+        if(result) {
+            ((struct iter_udata *)udata)->error = result;
+            return;
+        }
         lua_pop(L, 1);
     }
-    if(result) {
-        ((struct iter_udata *)udata)->error = result;
-    }
 }
 
 /* Main function that takes the tag on the top of the given Lua stack
@@ -465,10 +469,10 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
                     }
                     dax_cdt_iter(ds, h.type, &udata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(udata.error) {
                     return udata.error;
                 }
+                lua_pop(L, 1);
             }
         } else { /* Only one CDT */
             udata.data = data;
-- 
2.43.0


From c6e4b6e6ca1153f7bb3bcd246fa472d0565d6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 089/143] fix: Lua tag_del deleted an arbitrary tag when the
 name did not exist, atomic_op leaked and log used the text as a format

---
 src/lib/lua/libdaxlua.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 80f537f..1076407 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -887,8 +887,9 @@ _tag_del(lua_State *L) {
     } else {
         result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
     }
-
-    result = dax_tag_del(ds, tag.idx);
+    if(result == 0) {
+        result = dax_tag_del(ds, tag.idx);
+    }
     if(result) {
         luaL_error(L, "Unable to delete tag");
     } else {
@@ -1188,6 +1189,8 @@ _atomic_op(lua_State *L) {
         lua_error(L); /* The error message should already be on top of the stack */
     }
     result = dax_atomic_op(ds, *hp, data, operation);
+    free(data);
+    free(mask);
     if(result) {
         luaL_error(L, "atomic_op returned %d", result);
     }
@@ -1513,7 +1516,7 @@ _log(lua_State *L) {
     if(result) {
         str = lua_tostring(L, 2);
         if(str!= NULL) {
-            dax_log(log_topics, str);
+            dax_log(log_topics, "%s", str);
         } else {
             luaL_error(L, "Problem with string passed to log()");
         }
-- 
2.43.0


From 153b94c1d2ce39651d593f942af966d6fec66e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 090/143] fix: a mapping could change bits outside of its
 destination range

---
 src/server/mapping.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 0239b1e..45fdb5f 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -67,6 +67,13 @@ _mask_size(tag_handle src, tag_handle dest)
     return (dest.bit + src.count - 1) / 8 + 1;
 }
 
+/* The number of bits that a handle represents */
+static inline uint64_t
+_handle_bits(tag_handle h)
+{
+    return h.type == DAX_BOOL ? h.count : (uint64_t)h.size * 8;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
@@ -108,10 +115,16 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "The affected destination data in the new mapping is not part of the tag");
         return result;
     }
-    if( src.size > dest.size ) {
+    /* The mapping may not change anything that is not a part of the destination */
+    if( _handle_bits(src) > _handle_bits(dest) ) {
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
+    /* Only bits can be moved to a place that is not at the start of a byte */
+    if(src.type != DAX_BOOL && dest.type == DAX_BOOL && dest.bit != 0) {
+        dax_log(DAX_LOG_ERROR, "Destination bits of the new mapping are not at the start of a byte");
+        return ERR_ARG;
+    }
     if(src.type == DAX_BOOL) {
         if(dest.bit > 7) return ERR_ARG;
         /* The bits may need more bytes in the destination than they do in the source */
-- 
2.43.0


From 27741fa8ddb8491424f8b454c9dada057a9fd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 091/143] fix: daxlua: the script queue loses its entries when
 it is filled from the start of the array, and a script queued before a worker
 waits is not run

---
 src/modules/daxlua/threads.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 715852b..1bd7679 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -41,7 +41,7 @@ static pthread_attr_t attr;
 
 static script_t **script_queue;
 static int q_first, q_last;
-static int q_full, q_empty;
+static int q_full, q_empty = 1;
 static int q_exit;
 
 
@@ -71,9 +71,9 @@ _q_push(script_t *script) {
     //DF("pushing %s, q_first = %d, q_last = %d",script->name, q_first, q_last);
     script_queue[q_last] = script;
     q_last++;
+    if(q_last >= queue_size) q_last = 0;
     if(q_last == q_first) q_full = 1;
     q_empty = 0;
-    if(q_last >= queue_size) q_last = 0;
     return 0;
 }
 
@@ -224,8 +224,10 @@ __queue_thread(void *num) {
 
     pthread_mutex_lock(&q_lock);
     while(1) {
+        while(q_empty && ! q_exit) {
+            pthread_cond_wait(&q_cond, &q_lock);
+        }
         if(q_exit) break;
-        pthread_cond_wait(&q_cond, &q_lock);
 
         while(! q_empty) {
             script = _q_pop(); // Get the job off of the queue <<sorta>>
-- 
2.43.0


From 7076542cfc4d5960343aa45c3cdaf50988223abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 092/143] fix: daxlua: a queued script runs once more after it
 failed or disabled itself

---
 src/modules/daxlua/scripts.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 3d98026..43880fb 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -231,6 +231,8 @@ void
 run_script(script_t *s) {
     struct timespec start;
 
+    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
+
     /* this is to avoid a race condition where another script could set the
        enabled flag while the script was running and then the script would
        disable itself afterward. */
@@ -242,8 +244,10 @@ run_script(script_t *s) {
         }
         s->command = 0x00;
     }
-    /* In this case do nothing */
+    /* In this case do nothing.  This has to be decided while we hold the lock
+       because the script may fail or disable itself while we wait for it */
     if(s->failed || s->enabled == 0 || runsignal == 0) {
+        pthread_mutex_unlock(&s->lock);
         return;
     }
 
@@ -252,7 +256,6 @@ run_script(script_t *s) {
     /* This is the time that we are running the script now in mSec since system startup */
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
-    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     if(s->script_trigger && s->script_trigger->new_data) {
         daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->buff);
         lua_setglobal(s->L, "_trigger_data");
-- 
2.43.0


From 6eda7a54c225ea7d9a3b7a8ee874996353464902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 093/143] fix: daxlua: one global tag that cannot be written
 keeps the others from being written, and errors pile up on the Lua stack

---
 src/modules/daxlua/scripts.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 43880fb..a67f304 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -208,6 +208,7 @@ static inline int
 _send_globals(script_t *s)
 {
     global_t *this;
+    int result = 0;
 
     this = s->globals;
 
@@ -217,14 +218,15 @@ _send_globals(script_t *s)
             lua_getglobal(s->L, this->name);
 
             if(send_tag(s->L, this->handle)) {
-                return -1;
+                dax_log(DAX_LOG_ERROR, "Unable to write global tag %s for script %s", this->tagname, s->name);
+                result = -1;
             }
             lua_pop(s->L, 1);
         }
 
         this = this->next;
     }
-    return 0;
+    return result;
 }
 
 void
@@ -273,6 +275,7 @@ run_script(script_t *s) {
         /* Run the script that is on the top of the stack */
         if( lua_pcall(s->L, 0, 0, 0) ) {
             dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
+            lua_pop(s->L, 1); /* Take the error message off of the stack */
             if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
         }
         s->running = 0;
-- 
2.43.0


From cdea7343a5bf32dc7dc6233e78a444fa9562fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 094/143] fix: daxlua: get_script_name() reads outside of the
 script array for negative numbers

---
 src/modules/daxlua/scripts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index a67f304..994f60e 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -396,7 +396,7 @@ _get_script_name(lua_State *L) {
     int idx, result;
 
     idx = lua_tointegerx(L, 1, &result);
-    if(result && idx < scriptcount) {
+    if(result && idx >= 0 && idx < scriptcount) {
         lua_pushstring(L, scripts[idx].name);
     } else {
         lua_pushnil(L);
-- 
2.43.0


From 254d80c811605ed1efec14965f0deba33e5a8815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 095/143] fix: daxlua: the script array overflows with more
 than 16 scripts

---
 src/modules/daxlua/scripts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 994f60e..43a0e7f 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -52,6 +52,7 @@ get_new_script(void)
         ns = realloc(scripts, sizeof(script_t) * (scripts_size + NUM_SCRIPTS));
         if(ns != NULL) {
             scripts = ns;
+            scripts_size += NUM_SCRIPTS;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional scripts");
             return NULL;
-- 
2.43.0


From 16050740ad721b4ff0e2eba4ecf696a7f0cc1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 096/143] fix: daxlua: deadlock at startup when the script
 queue is full

---
 src/modules/daxlua/threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 1bd7679..5f57c8b 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -280,6 +280,7 @@ _run_queue_scripts(void) {
                 pthread_mutex_unlock(&q_lock);
                 n++;
             } else { /* If the queue is full */
+                pthread_mutex_unlock(&q_lock);
                 usleep(50000);
             }
         } else { /* Not an event script */
-- 
2.43.0


From ee99e10b157a4734da09d40b91aff845bdbbcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 097/143] fix: daxlua: the time that the scripts take is added
 to the interval of their thread instead of subtracted

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 5f57c8b..580bc70 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -140,7 +140,7 @@ _interval_thread(void* thread_def) {
         }
         clock_gettime(CLOCK_MONOTONIC, &end);
 
-        sleep_time = (t->interval * 1000) - ((end.tv_sec - start.tv_sec) * 1e6) + ((end.tv_nsec - start.tv_nsec) / 1e3);
+        sleep_time = ((long long)t->interval * 1000) - ((long long)(end.tv_sec - start.tv_sec) * 1000000) - ((end.tv_nsec - start.tv_nsec) / 1000);
         if(sleep_time < 0) {
             t->overruns++;
             *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE+ sizeof(dax_udint)*2) = t->overruns;
-- 
2.43.0


From 2349370592a2865fbc73f4e46ace814d4be44416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 098/143] fix: daxlua: the status tag of a script undoes the
 script's disable_self(), and never shows that it was disabled by a command

---
 src/modules/daxlua/daxlua.h  |  1 +
 src/modules/daxlua/scripts.c | 46 +++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index e6d63bf..b7cb4f4 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -75,6 +75,7 @@ typedef struct Script_t {
     pthread_mutex_t lock;
     tag_handle handle;
     unsigned char enabled;
+    unsigned char tag_enabled; /* enable bit as it is in the script's tag */
     unsigned char failed;
     unsigned char command;
     unsigned char flags;
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 43a0e7f..93521d7 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -74,6 +74,7 @@ get_new_script(void)
     scripts[n].disable_trigger = NULL;
     scripts[n].name = NULL;
     scripts[n].failed = 0;
+    scripts[n].tag_enabled = 0;
     scripts[n].flags = CONFIG_FAIL_ON_ERROR | CONFIG_AUTO_RUN;
     return &scripts[n];
 }
@@ -246,6 +247,7 @@ run_script(script_t *s) {
             s->enabled = 0;
         }
         s->command = 0x00;
+        if(s->enabled != s->tag_enabled) write_script_tag(s);
     }
     /* In this case do nothing.  This has to be decided while we hold the lock
        because the script may fail or disable itself while we wait for it */
@@ -533,20 +535,16 @@ _initialize_script(script_t *s)
 
 #define SCRIPT_TAG_LEN (DAX_TAGNAME_SIZE + 1 + sizeof(dax_ulint))
 
+/* Called when the enable member of the script tag changes */
 static void
 _script_tag_callback(dax_state *ds, void *udata) {
     script_t *script = (script_t *)udata;
-    uint8_t buff[SCRIPT_TAG_LEN];
+    uint8_t enable = 0;
 
-    dax_event_get_data(ds, buff, SCRIPT_TAG_LEN);
+    if(dax_event_get_data(ds, &enable, sizeof(enable)) < 0) return;
 
-    if(buff[DAX_TAGNAME_SIZE] & 0x01) { /* check enable bit */
-        script->enabled = 1;
-    } else {
-        script->enabled = 0;
-    }
-
-    write_script_tag(script);
+    script->enabled = enable & 0x01;
+    script->tag_enabled = script->enabled;
 }
 
 int
@@ -557,7 +555,8 @@ start_all_scripts(void)
     dax_cdt *script_cdt;
     tag_type script_type;
     char tagname[DAX_TAGNAME_SIZE+1];
-    char tagname2[DAX_TAGNAME_SIZE+12];
+    char tagname2[DAX_TAGNAME_SIZE+20];
+    tag_handle enable;
     dax_id id;
 
     script_cdt = dax_cdt_new("lua_script", &result);
@@ -585,10 +584,15 @@ start_all_scripts(void)
         snprintf(tagname2, sizeof(tagname2), "%s[%d]", tagname, n);
         result = dax_tag_handle(ds, &scripts[n].handle, tagname2, 0);
         if(result == ERR_OK) {
-            result = dax_event_add(ds, &scripts[n].handle, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
-            result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+            write_script_tag(&scripts[n]);
+            snprintf(tagname2, sizeof(tagname2), "%s[%d].enable", tagname, n);
+            result = dax_tag_handle(ds, &enable, tagname2, 0);
+            result += dax_event_add(ds, &enable, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
+            result += dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+            if(result) {
+                dax_log(DAX_LOG_ERROR, "Unable to add event for script tag %s", tagname2);
+            }
         }
-        write_script_tag(&scripts[n]);
     }
 
     thread_start_all();
@@ -627,18 +631,26 @@ get_script_name(char *name)
     return NULL;
 }
 
+/* Writes the status of the script to its tag.  The enable member can be written
+   by other modules too so we only write that when we have changed it. */
 int
 write_script_tag(script_t *script) {
-    uint8_t buff[SCRIPT_TAG_LEN];
+    uint8_t buff[SCRIPT_TAG_LEN], mask[SCRIPT_TAG_LEN];
+    unsigned char enabled = script->enabled;
 
     bzero(buff, SCRIPT_TAG_LEN);
+    memset(mask, 0xFF, SCRIPT_TAG_LEN);
     memccpy(buff, script->name, '\0', DAX_TAGNAME_SIZE);
-    if(script->enabled) {
+    if(enabled) {
         buff[DAX_TAGNAME_SIZE] = 0x01;
     }
+    if(enabled == script->tag_enabled) {
+        mask[DAX_TAGNAME_SIZE] &= ~0x01;
+    }
+    script->tag_enabled = enabled;
     if(script->failed) {
         buff[DAX_TAGNAME_SIZE] |= 0x02;
     }
     *(dax_ulint *)&buff[DAX_TAGNAME_SIZE + 1] = script->executions;
-    return dax_tag_write(ds, script->handle, buff);
-}
\ No newline at end of file
+    return dax_tag_mask(ds, script->handle, buff, mask);
+}
-- 
2.43.0


From 619292dcd2da4fb90b240df72a7ed7985e499d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 099/143] fix: library: dax_event_get_data() does not align the
 bits of a BOOL that is not at the start of a byte

---
 src/lib/libdax.h   |  6 +++++-
 src/lib/libevent.c | 22 ++++++++++++++++++++--
 src/lib/libmsg.c   |  2 +-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index bf401e7..485a207 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -92,6 +92,8 @@ typedef struct tag_group_id tag_group_id;
 typedef struct event_db {
     uint32_t idx;  /* Tag index of the event */
     uint32_t id;   /* Individual id of the event */
+    uint8_t bit;   /* Bit offset of the event's data, if it is a BOOL */
+    uint32_t bits; /* Number of bits of the event's data, zero if it is not a BOOL */
     void *udata;    /* The user data to be sent with callback() */
     void (*callback)(dax_state *ds, void *udata);  /* Callback function */
     void (*free_callback)(void *udata); /* Callback to free userdata */
@@ -126,6 +128,8 @@ struct dax_state {
     int event_count;       /* Total number of events stored in the array */
     int event_data_size;   /* Size of the event data that is stored here */
     char *event_data;      /* Pointer to the event data that was returned */
+    uint8_t event_bit;     /* Bit offset of a BOOL in the event data */
+    uint32_t event_bits;   /* Number of bits in the event data, zero if it is not a BOOL */
     dax_message **emsg_queue; /* Event Message FIFO Queue */
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
@@ -203,7 +207,7 @@ int dax_cdt_get(dax_state *ds, tag_type type, char *name);
 
 int push_event(dax_state *ds, dax_message *msg);
 dax_message *pop_event(dax_state *ds);
-int add_event(dax_state *ds, dax_id id, void *udata, void (*callback)(dax_state *ds, void *udata),
+int add_event(dax_state *ds, dax_id id, tag_handle *h, void *udata, void (*callback)(dax_state *ds, void *udata),
               void (*free_callback)(void *));
 int del_event(dax_state *ds, dax_id id);
 int exec_event(dax_state *ds, dax_id id);
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index b3faba6..45deaa7 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -88,7 +88,7 @@ dax_event_type_to_string(int type) {
  * where the callbacks and the userdata are stored.  The server simply sends an ID
  */
 int
-add_event(dax_state *ds, dax_id id, void *udata, void (*callback)(dax_state *ds, void *udata),
+add_event(dax_state *ds, dax_id id, tag_handle *h, void *udata, void (*callback)(dax_state *ds, void *udata),
           void (*free_callback)(void *udata))
 {
     event_db *new_db;
@@ -108,6 +108,8 @@ add_event(dax_state *ds, dax_id id, void *udata, void (*callback)(dax_state *ds,
      * routine in the dispatch function will be a simple linear search */
     /* TODO: Sort this array and add binary search to event_dispatch() */
     ds->events[ds->event_count].idx = id.index;
+    ds->events[ds->event_count].bit = h->bit;
+    ds->events[ds->event_count].bits = h->type == DAX_BOOL ? h->count : 0;
     ds->events[ds->event_count].id = id.id;
     ds->events[ds->event_count].udata = udata;
     ds->events[ds->event_count].callback = callback;
@@ -167,6 +169,8 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
             event = ds->events[n];
             pthread_mutex_unlock(&ds->lock);
+            ds->event_bit = event.bit;
+            ds->event_bits = event.bits;
             if(event.callback != NULL) {
                 event.callback(ds, event.udata);
             }
@@ -299,11 +303,25 @@ dax_event_poll(dax_state *ds, dax_id *id)
 int
 dax_event_get_data(dax_state *ds, void* buff, int len) {
     int size;
+    uint32_t n, bit;
 
     size = MIN(len, ds->event_data_size);
     if(ds->event_data == NULL) return ERR_DELETED;
     if(ds->event_data_size == 0) return ERR_EMPTY;
 
-    memcpy(buff, ds->event_data, size);
+    if(ds->event_bits > 0) {
+        /* The server sends the bytes that contain our bits.  Like dax_tag_read()
+         * we align them so that the first one is bit zero of the buffer */
+        size = MIN(len, (int)((ds->event_bits - 1) / 8 + 1));
+        bzero(buff, size);
+        for(n = 0; n < ds->event_bits && n / 8 < (uint32_t)size; n++) {
+            bit = n + ds->event_bit;
+            if((int)(bit / 8) < ds->event_data_size && (ds->event_data[bit / 8] & (0x01 << (bit % 8)))) {
+                ((uint8_t *)buff)[n / 8] |= 0x01 << (n % 8);
+            }
+        }
+    } else {
+        memcpy(buff, ds->event_data, size);
+    }
     return size;
 }
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index fadc479..a67358a 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1295,7 +1295,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
             }
             eid.id = result;
             eid.index = h->index;
-            result = add_event(ds, eid, udata, callback, free_callback);
+            result = add_event(ds, eid, h, udata, callback, free_callback);
             if(result) {
                 pthread_mutex_unlock(&ds->lock);
                 return result;
-- 
2.43.0


From b702d3e4ee84bf830410a85dcc68f9b4f6cf986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 100/143] fix: histlog: the change of a tag is computed with
 the wrong type or overflows, BOOL tags never change

---
 src/modules/histlog/histlog.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 0e944b5..fd691ec 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -33,9 +33,15 @@ static int _quitsignal;
 static double _flush_interval;
 extern tag_config *tag_list;
 
+/* The distance between two 64 bit integers.  It might not fit in a signed one */
+#define UDIFF(a, b) ((a) > (b) ? (dax_ulint)(a) - (dax_ulint)(b) : (dax_ulint)(b) - (dax_ulint)(a))
+
 static int
 _test_difference(void *data1, void *data2, tag_type datatype, double threshold) {
     switch(datatype) {
+        case DAX_BOOL:
+            if(ABS((*(dax_byte *)data1 & 0x01) - (*(dax_byte *)data2 & 0x01)) >= threshold) return 1;
+            else return 0;
         case DAX_BYTE:
             if(ABS(*(dax_byte *)data1 - *(dax_byte *)data2) >= threshold) return 1;
             else return 0;
@@ -45,25 +51,25 @@ _test_difference(void *data1, void *data2, tag_type datatype, double threshold)
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            if(ABS(*(dax_uint *)data1 - *(dax_uint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_INT:
             if(ABS(*(dax_int *)data1 - *(dax_int *)data2) >= threshold) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            if(ABS(*(dax_udint *)data1 - *(dax_udint *)data2) >= threshold) return 1;
+            if(ABS((dax_lint)*(dax_udint *)data1 - (dax_lint)*(dax_udint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_DINT:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            if(ABS((dax_lint)*(dax_dint *)data1 - (dax_lint)*(dax_dint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
-            if(ABS(*(dax_ulint *)data1 - *(dax_ulint *)data2) >= threshold) return 1;
+            if((double)UDIFF(*(dax_ulint *)data1, *(dax_ulint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_LINT:
-            if(ABS(*(dax_lint *)data1 - *(dax_lint *)data2) >= threshold) return 1;
+        case DAX_TIME:
+            if((double)UDIFF(*(dax_lint *)data1, *(dax_lint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_REAL:
             if(ABS(*(dax_real *)data1 - *(dax_real *)data2) >= threshold) return 1;
-- 
2.43.0


From d9780a6f8c4dd52948d5c45b72edfc66e85ec7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:54 +0000
Subject: [PATCH 101/143] fix: histlog: the first write to a tag with a timeout
 always records a gap

---
 src/modules/histlog/histlog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index fd691ec..7715e6e 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -185,6 +185,8 @@ _add_tags(void) {
                     result = dax_read_tag(ds, this->h, buff);
                     if(result == 0) write_data(this->tag, buff, hist_gettime());
                     else dax_log(DAX_LOG_ERROR, "Unable to read tag %s", this->name);
+                    /* The first gap that we look for starts now */
+                    this->lasttimestamp = hist_gettime();
                     if(this->trigger == ON_CHANGE) {
                         /* Allocate the memory that we use to figure out and stored changed data */
                         this->lastvalue = malloc(this->h.size);
-- 
2.43.0


From 6438d3febfd9eae4fa542c39c6ef8815d1a50065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 102/143] fix: histlog: crash at exit if a tag has never been
 found

---
 src/modules/histlog/histlog.c  | 3 ++-
 src/modules/histlog/histopts.c | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 7715e6e..47a8548 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -314,7 +314,8 @@ getout(int exitstatus) {
     time_now = hist_gettime();
     this = tag_list;
     while(this != NULL) {
-        write_data(this->tag, NULL, time_now);
+        /* Not for the tags that have never been found */
+        if(this->tag != NULL) write_data(this->tag, NULL, time_now);
         this = this->next;
     }
     flush_data();
diff --git a/src/modules/histlog/histopts.c b/src/modules/histlog/histopts.c
index 17d74b3..b69234e 100644
--- a/src/modules/histlog/histopts.c
+++ b/src/modules/histlog/histopts.c
@@ -45,6 +45,7 @@ _add_tag(lua_State *L) {
     }
     tag->name = strdup(lua_tolstring(L, 1, NULL));
     tag->status = 0;
+    tag->tag = NULL;
     tag->trigger = lua_tointeger(L, 2);
     tag->trigger_value = lua_tonumber(L, 3);
     tag->timeout = lua_tonumber(L, 4);
-- 
2.43.0


From d03fe49328f5b4ef3d917e7a7fee7266eda8c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 103/143] fix: histlog: the plugins' flush_data() is called
 without its time, the database is purged at random

---
 src/modules/histlog/histlog.c | 4 ++--
 src/modules/histlog/histlog.h | 2 +-
 src/modules/histlog/plugin.c  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 47a8548..035048f 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -280,7 +280,7 @@ main(int argc,char *argv[]) {
                 interval += 1;
                 if(interval > 12) interval=12;
             }
-            flush_data();
+            flush_data(time_now);
             //lasttime = ts.tv_sec;
             lasttime = time_now;
             loopcount++;
@@ -318,7 +318,7 @@ getout(int exitstatus) {
         if(this->tag != NULL) write_data(this->tag, NULL, time_now);
         this = this->next;
     }
-    flush_data();
+    flush_data(time_now);
     dax_disconnect(ds);
     exit(exitstatus);
 }
diff --git a/src/modules/histlog/histlog.h b/src/modules/histlog/histlog.h
index 72e772d..1c127f1 100644
--- a/src/modules/histlog/histlog.h
+++ b/src/modules/histlog/histlog.h
@@ -63,6 +63,6 @@ int plugin_load(char *file);
 extern tag_object *(*add_tag)(const char *tagname, uint32_t type, const char *attributes);
 extern int (*free_tag)(tag_object *tag);
 extern int (*write_data)(tag_object *tag, void *value, double timestamp);
-extern int (*flush_data)(void);
+extern int (*flush_data)(double time);
 
 #endif
diff --git a/src/modules/histlog/plugin.c b/src/modules/histlog/plugin.c
index 94c3a5e..3ac85a4 100644
--- a/src/modules/histlog/plugin.c
+++ b/src/modules/histlog/plugin.c
@@ -32,7 +32,7 @@ static int (*_init)(dax_state *ds);
 tag_object *(*add_tag)(const char *tagname, uint32_t type, const char *attributes);
 int (*free_tag)(tag_object *tag);
 int (*write_data)(tag_object *tag, void *value, double timestamp);
-int (*flush_data)(void);
+int (*flush_data)(double time);
 void (*set_timefunc)(double (*f)(void));
 
 /* Loads the dynamic library that represents the plugin, sets all of the
-- 
2.43.0


From 35c438a9ccd38206f35ca923757eeab525aa76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 104/143] fix: histlog: a write between reading a tag and
 adding its event is never recorded

---
 src/modules/histlog/histlog.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 035048f..a7b6679 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -179,6 +179,17 @@ _add_tags(void) {
                     dax_log(DAX_LOG_ERROR, "Tag custom datatypes are not supported - %s", this->name);
                 } else {
                     this->tag = add_tag(this->name, this->h.type, this->attributes);
+                    /* The event comes first so that we don't miss a write
+                     * between reading the tag and adding the event */
+                    result = dax_event_add(ds, &this->h, EVENT_WRITE, NULL, &id, _event_callback, this, _event_free);
+                    if(result) {
+                        dax_log(DAX_LOG_ERROR, "Unable to add event for tag %s", this->name);
+                    } else {
+                        result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+                        if(result) {
+                            dax_log(DAX_LOG_ERROR, "Unable to set event to send data");
+                        }
+                    }
                     /* Write a NULL to signify that we were down */
                     write_data(this->tag, NULL, hist_gettime());
                     /* Read the current tag data and write it to the plugin */
@@ -204,15 +215,6 @@ _add_tags(void) {
                             kill(getpid(), SIGQUIT);
                         }
                     }
-
-                    result = dax_event_add(ds, &this->h, EVENT_WRITE, NULL, &id, _event_callback, this, _event_free);
-                    if(result) {
-                        dax_log(DAX_LOG_ERROR, "Unable to add event for tag %s", this->name);
-                    }
-                    result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
-                    if(result) {
-                        dax_log(DAX_LOG_ERROR, "Unable to set event to send data");
-                    }
                 }
             } else {
                 DF("Error %d", result);
-- 
2.43.0


From 413c736fbf85b16126d88ae3dcb84966e4b29317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 105/143] fix: histlog: the SQLite plugin loses the values of
 CHAR and TIME tags

---
 src/modules/histlog/plugins/sqlite/dhl_sqlite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
index ab9481a..b0991fb 100644
--- a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
+++ b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
@@ -184,7 +184,9 @@ write_data(tag_object *tag, void *value, double timestamp) {
         snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp') VALUES (%d, %f);", tag->tag_index, timestamp);
     } else {
         dax_val_to_string(val_string, 128, tag->type, value, 0);
-        snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%d, %f, %s);", tag->tag_index, timestamp, val_string);
+        /* Not all types are numbers so it has to be quoted.  The affinity of the
+         * column turns those that are back into numbers */
+        sqlite3_snprintf(256, sql, "INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%d, %f, '%q');", tag->tag_index, timestamp, val_string);
     }
     result = sqlite3_exec(log_db, sql, _add_tag_callback, &tag->tag_index, &errorMsg);
     if( result != SQLITE_OK ){
-- 
2.43.0


From 3cb97aeccd43641f4fe30eb0afebaf47695ff77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 106/143] fix: histlog: the SQLite plugin stores the same data
 type for every tag

---
 src/modules/histlog/plugins/sqlite/dhl_sqlite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
index b0991fb..24df12d 100644
--- a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
+++ b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
@@ -145,7 +145,7 @@ add_tag(const char *tagname, uint32_t type, const char *attributes) {
     tag->name = tagname;
     tag->type = type;
 
-    snprintf(sql, 256, "INSERT INTO Tags('tagname', 'type') VALUES ('%s', 2)", tagname);
+    snprintf(sql, 256, "INSERT INTO Tags('tagname', 'type') VALUES ('%s', %u)", tagname, type);
     result = sqlite3_exec(log_db, sql, NULL, 0, &errorMsg);
     if(result == SQLITE_CONSTRAINT) {
         dax_log(DAX_LOG_DEBUG, "Tag %s already exists in the database", tagname); // TODO: Check that the type is the same and error out otherwise
-- 
2.43.0


From fb0908de56dfd9f6655126fa061ec0b29b666233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 107/143] fix: mqtt: the user name and password are never given
 to the broker

---
 src/modules/mqtt/mqtt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index 6c8336a..bb3b060 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -389,6 +389,8 @@ client_loop(void) {
     attr = dax_get_attr(ds, "broker_timeout");
     conn_opts.connectTimeout = atoi(attr);
     conn_opts.cleansession = 1;
+    conn_opts.username = dax_get_attr(ds, "username");
+    conn_opts.password = dax_get_attr(ds, "password");
     MQTTClient_setCallbacks(client, NULL, connlost, msgarrived, delivered);
 
     while(1) {
-- 
2.43.0


From 840e49f6388f5287ad04130170aab8fdfec975a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 108/143] fix: mqtt: subscriptions ignore the configured QoS

---
 src/modules/mqtt/mqtt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index bb3b060..e0654fa 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -175,7 +175,7 @@ subscribe(subscriber_t *sub) {
         }
         sub->buff_size = sub->h[0].size;
     }
-    result = MQTTClient_subscribe(client, sub->topic, 0);
+    result = MQTTClient_subscribe(client, sub->topic, sub->qos);
     if(result != MQTTCLIENT_SUCCESS) {
         dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
         sub->enabled = ENABLE_FAIL; /* Can't recover from this */
-- 
2.43.0


From 505a1d197e2921cea27ee5b200df24b241622829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 109/143] fix: mqtt: more than 32 subscriptions or publishers
 overflow their array

---
 src/modules/mqtt/mqttopts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mqtt/mqttopts.c b/src/modules/mqtt/mqttopts.c
index db5fe8a..5526409 100644
--- a/src/modules/mqtt/mqttopts.c
+++ b/src/modules/mqtt/mqttopts.c
@@ -50,6 +50,7 @@ _get_new_sub(void)
         ns = realloc(subscribers, sizeof(subscriber_t) * (subscriber_size * 2));
         if(ns != NULL) {
             subscribers = ns;
+            subscriber_size *= 2;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional subscriptions");
             return -1;
@@ -166,6 +167,7 @@ _get_new_pub(void)
         ns = realloc(publishers, sizeof(publisher_t) * (publisher_size * 2));
         if(ns != NULL) {
             publishers = ns;
+            publisher_size *= 2;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional publishers");
             return -1;
-- 
2.43.0


From 7ae890c1d3ada1255815eb858ec2226739f2ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:02 +0000
Subject: [PATCH 110/143] fix: mqtt: topic filters with wildcards match wrong
 topics or read past the end

---
 src/modules/mqtt/mqttopts.c | 39 +++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/modules/mqtt/mqttopts.c b/src/modules/mqtt/mqttopts.c
index 5526409..5f221f7 100644
--- a/src/modules/mqtt/mqttopts.c
+++ b/src/modules/mqtt/mqttopts.c
@@ -381,33 +381,38 @@ get_sub_iter(void) {
    the wildcard characters '+' and '#' */
 static int
 _topic_compare(char *subscription, char *received) {
-    char cs, cr;
-    int i=0, j=0;
+    char *s = subscription, *r = received;
 
     while(1) {
-        cs = subscription[i];
-        cr = received[j];
-        if(cs == '+') {
-            i++; /* skip the '+' */
+        if(s[0] == '#' && s[1] == '\0') {
+            return 0; /* Wildcard character so the rest doesn't matter */
+        }
+        if(s[0] == '+') {
+            s++; /* skip the '+' */
             /* Now we need to roll past the next sub topic to either the next '/'
                or the end of the string */
-            while(cr != '/' && cr != '\0') {
-                cr = received[++j];
+            while(*r != '/' && *r != '\0') {
+                r++;
+            }
+        } else { /* The sub topics have to be the same */
+            while(*s == *r && *s != '/' && *s != '\0') {
+                s++;
+                r++;
             }
-        } else if(cs != cr) {
-            return -1; /* No match */
         }
-        if(cs == '\0' && cr == '\0') {
+        if(*s == '\0' && *r == '\0') {
             return 0; /* We have a winner */
         }
-        if(cs == '/' && subscription[i+1] == '#') {
-            return 0; /* Wildcard character so the rest doesn't matter */
+        if(*r == '\0' && !strcmp(s, "/#")) {
+            return 0; /* The '#' also matches the parent level */
+        }
+        if(*s != '/' || *r != '/') {
+            return -1; /* No match */
         }
-        /* else if they are the same then continue on */
-        i++;
-        j++;
+        /* else if they are the same then continue on with the next sub topic */
+        s++;
+        r++;
     }
-
 }
 
 /* return a pointer to the subscription that matches the topic */
-- 
2.43.0


From 988427feea4b85ae620e7c6a69c7f6991cce906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 111/143] fix: mqtt: a filter that fails or returns unusable or
 partial data writes stale data to the tags or crashes the module

---
 src/modules/mqtt/mqtt.c | 147 +++++++++++++++++++++++++++++-----------
 1 file changed, 108 insertions(+), 39 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index e0654fa..b941d7d 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -43,51 +43,121 @@ void delivered(void *context, MQTTClient_deliveryToken dt)
     deliveredtoken = dt;
 }
 
+/* Runs the filter function of the subscription and converts the values that it
+ * returns.  The mask tells which part of the data has been returned.  Returns
+ * zero if the tags should be written */
+static int
+_run_filter(subscriber_t *sub, char *topicName, MQTTClient_message *message)
+{
+    int result, offset;
+    lua_State* L;
+
+    L = dax_get_luastate(ds);
+
+    lua_settop(L, 0); /* Delete the stack */
+    /* Get the filter function from the registry and push it onto the stack */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, sub->filter);
+    lua_pushstring(L, topicName); /* First argument is the topic */
+    lua_pushlstring(L, message->payload, message->payloadlen);
+    if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
+        dax_log(DAX_LOG_ERROR, "filter funtion for %s - %s", topicName, lua_tostring(L, -1));
+        return -1;
+    }
+    if(sub->tag_count == 0) return -1; /* The filter has done all there is to do */
+
+    bzero(sub->mask, sub->buff_size);
+    if(sub->tag_count == 1) {
+        if(lua_isnil(L, 1)) {
+            dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
+            return -1;
+        }
+        result = daxlua_lua_to_dax(L, sub->h[0], sub->buff, sub->mask);
+        if(result) {
+            dax_log(DAX_LOG_LOGICERR, "Problem converting Lua value to tag for topic %s: %d", sub->topic, result);
+            return result;
+        }
+    } else {
+        /* If there is more than one tag then it is assumed that there is
+           an array returned from the filter function that contains the
+           values for the tags. */
+        if(! lua_istable(L, 1)) {
+            dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
+            return -1;
+        }
+        offset = 0;
+        for(int n=0;n<sub->tag_count;n++) {
+            if(lua_rawgeti(L, 1, n+1) != LUA_TNIL) {
+                result = daxlua_lua_to_dax(L, sub->h[n], &((uint8_t *)sub->buff)[offset], &((uint8_t *)sub->mask)[offset]);
+                if(result) {
+                    dax_log(DAX_LOG_LOGICERR, "Problem converting Lua value to tag for topic %s: %d", sub->topic, result);
+                    return result;
+                }
+            } else {
+                dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
+            }
+            offset += sub->h[n].size;
+            lua_settop(L, 1);
+        }
+    }
+    return 0;
+}
+
+/* Writes the part of the data that is given in the mask to the tags */
+static void
+_write_masked(subscriber_t *sub)
+{
+    int offset, size, bits, some, all = 1;
+    uint8_t *mask;
+
+    /* If all of the data is there then we can write the whole group at once */
+    offset = 0;
+    for(int n=0;n<sub->tag_count;n++) {
+        mask = &((uint8_t *)sub->mask)[offset];
+        size = sub->h[n].size;
+        bits = sub->h[n].type == DAX_BOOL ? sub->h[n].count : size * 8;
+        for(int i=0;i<bits;i++) {
+            if(!(mask[i/8] & (1 << (i%8)))) all = 0;
+        }
+        offset += size;
+    }
+    if(all && sub->group != NULL) {
+        dax_group_write(ds, sub->group, sub->buff);
+        return;
+    }
+    offset = 0;
+    for(int n=0;n<sub->tag_count;n++) {
+        mask = &((uint8_t *)sub->mask)[offset];
+        size = sub->h[n].size;
+        some = 0;
+        for(int i=0;i<size;i++) {
+            if(mask[i]) some = 1;
+        }
+        if(some) {
+            if(all) {
+                dax_write_tag(ds, sub->h[n], &((uint8_t *)sub->buff)[offset]);
+            } else {
+                dax_mask_tag(ds, sub->h[n], &((uint8_t *)sub->buff)[offset], mask);
+            }
+        }
+        offset += size;
+    }
+}
+
 /* This callback function is called by the PAHO MQTT library whenever a message arrives on
  * a topic that we have subscribed to. */
 int
 msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *message)
 {
-    int size, result, offset;
+    int size;
     subscriber_t *sub;
-    lua_State* L;
 
     dax_log(DAX_LOG_PROTOCOL, "Message arrived on topic '%s'", topicName);
 
     sub = get_sub(topicName);
     if(sub != NULL) {
-
-        L = dax_get_luastate(ds);
-
         if(sub->filter != 0) { /* We need to run our filter function */
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, sub->filter);
-            lua_pushstring(L, topicName); /* First argument is the topic */
-            lua_pushlstring(L, message->payload, message->payloadlen);
-            if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "filter funtion for %s - %s", topicName, lua_tostring(L, -1));
-            } else { /* Success */
-                if(sub->tag_count == 1) {
-                    result = daxlua_lua_to_dax(L, sub->h[0], sub->buff, sub->mask);
-                    if(result) {
-                        dax_log(DAX_LOG_LOGICERR, "Problem converting Lua value to tag for topic %s: %d", sub->topic, result);
-                    }
-                } else if(sub->tag_count > 1) {
-                    /* If there is more than one tag then it is assumed that there is
-                       an array returned from the filter function that contains the
-                       values for the tags. */
-                    offset = 0;
-                    for(int n=0;n<sub->tag_count;n++) {
-                        if(lua_rawgeti(L, 1, n+1) != LUA_TNIL) {
-                            result = daxlua_lua_to_dax(L, sub->h[n], &((uint8_t *)sub->buff)[offset], &((uint8_t *)sub->mask)[offset]);
-                            offset += sub->h[n].size;
-                        } else {
-                            dax_log(DAX_LOG_LOGICERR, "Filter didn't return the right kind of data for %s", sub->topic);
-                        }
-                        lua_pop(L, 1);
-                    }
-                }
+            if(_run_filter(sub, topicName, message) == 0) {
+                _write_masked(sub);
             }
         } else {
             /* No filter function configured so we just do a raw
@@ -98,12 +168,11 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
             size = MIN(message->payloadlen, sub->buff_size);
             /* TODO we could avoid this memory copy if we know the payload is big enough */
             memcpy(sub->buff, message->payload, size);
-        }
-
-        if(sub->group != NULL) { /* We are using a tag group */
-            dax_group_write(ds, sub->group, sub->buff);
-        } else { /* just one tag */
-            dax_write_tag(ds, sub->h[0], sub->buff);
+            if(sub->group != NULL) { /* We are using a tag group */
+                dax_group_write(ds, sub->group, sub->buff);
+            } else { /* just one tag */
+                dax_write_tag(ds, sub->h[0], sub->buff);
+            }
         }
     } else {
         /* This is a bad error and it means that we have a problem with how we are finding
-- 
2.43.0


From 6d756cd0855cd99f1bfee08dc172bdc4c561abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 112/143] fix: mqtt: a publisher publishes the error message of
 its filter, or stale data

---
 src/modules/mqtt/mqtt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index b941d7d..2a29918 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -277,7 +277,7 @@ setup_subscribers() {
 void
 publish_callback(dax_state *ds, void *udata) {
     publisher_t *pub = (publisher_t *)udata;
-    int result;
+    int result = 0;
     int offset;
     const char *data;
     size_t len;
@@ -290,7 +290,7 @@ publish_callback(dax_state *ds, void *udata) {
         if(result) {
             dax_log(DAX_LOG_WARN, "Unable to read tag %s for topic %s", pub->tagnames[0], pub->topic);
         }
-    } else {
+    } else if(pub->tag_count > 1) {
         result = dax_group_read(ds, pub->group, pub->buff, pub->buff_size);
         if(result) {
             dax_log(DAX_LOG_WARN, "Unable to read tag group for topic %s", pub->topic);
@@ -325,6 +325,7 @@ publish_callback(dax_state *ds, void *udata) {
         }
         if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
             dax_log(DAX_LOG_WARN, "filter funtion for %s - %s", pub->topic, lua_tostring(L, -1));
+            return;
         }
         /* The data that is supposed to be published should have been returned by the filter function */
         data = lua_tolstring(L, 1, &len);
@@ -336,7 +337,7 @@ publish_callback(dax_state *ds, void *udata) {
         } else {
             dax_log(DAX_LOG_WARN, "Bad return value from filter on topic %s", pub->topic);
         }
-    } else { /* No filter function so we just do a raw binary copy */
+    } else if(result == 0) { /* No filter function so we just do a raw binary copy */
         result = MQTTClient_publish(client, pub->topic, pub->buff_size, pub->buff, pub->qos, pub->retained, NULL);
         if(result != MQTTCLIENT_SUCCESS) {
             dax_log(DAX_LOG_ERROR, "Unable to publish data to %s", pub->topic);
-- 
2.43.0


From ea6e793e2b9cf9e3fec01720d86c7a2b64d3cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 113/143] fix: mqtt: only the first element of an array is
 published

---
 src/modules/mqtt/mqtt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index 2a29918..a9550f5 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -366,7 +366,7 @@ publish(publisher_t *pub) {
         }
         /* Now search through the tagnames and get handles for all of the tags */
         for(int n=0;n<pub->tag_count;n++) {
-            result = dax_tag_handle(ds, &pub->h[n], pub->tagnames[n], 1);
+            result = dax_tag_handle(ds, &pub->h[n], pub->tagnames[n], 0);
             if(result) {
                 dax_log(DAX_LOG_WARN, "Unable to add tag %s to publisher", pub->tagnames[n]);
                 return 1;
-- 
2.43.0


From 33b5986b98cb9072b816f0b63366db030c1acf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 114/143] fix: mqtt: a publisher whose tags or trigger are
 created later never works

---
 src/modules/mqtt/mqtt.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index a9550f5..a128148 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -351,9 +351,6 @@ publish(publisher_t *pub) {
     dax_type_union val;
     tag_handle h;
 
-    /* We'll set this for now in case we have an error in here somewhere */
-    pub->enabled = ENABLE_FAIL;
-
     if(pub->tag_count == 0 && pub->filter == 0) {
         dax_log(DAX_LOG_WARN, "No tags or filter function given for topic %s", pub->topic);
         pub->enabled = ENABLE_FAIL; /* Can't recover from this */
@@ -373,6 +370,15 @@ publish(publisher_t *pub) {
             }
         }
     }
+    result = dax_tag_handle(ds, &h, pub->trigger_tag, 1);
+    if(result) {
+        dax_log(DAX_LOG_WARN, "Unable to find trigger tag %s for topic %s", pub->trigger_tag, pub->topic);
+        return 1;
+    }
+
+    /* All the tags are there.  We'll set this for now in case we have an error in here somewhere */
+    pub->enabled = ENABLE_FAIL;
+
     /* TODO: How should errors be handled here */
     if(pub->tag_count > 1) {
         pub->group = dax_group_add(ds, &result, pub->h, pub->tag_count, 0);
@@ -405,11 +411,6 @@ publish(publisher_t *pub) {
         }
         pub->buff_size = pub->h[0].size;
     }
-    result = dax_tag_handle(ds, &h, pub->trigger_tag, 1);
-    if(result) {
-        dax_log(DAX_LOG_WARN, "Unable to find trigger tag %s for topic %s", pub->trigger_tag, pub->topic);
-        return 1;
-    }
 
     result = dax_string_to_val(pub->trigger_value, h.type, &val, NULL, 0);
     if(result) {
-- 
2.43.0


From 4b67f40b07e686e2e4606277eaed5ac1e5bf017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 115/143] fix: mqtt: subscriptions are not made again after the
 connection to the broker was lost

---
 src/modules/mqtt/mqtt.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index a128148..fc69d41 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -29,7 +29,7 @@ static void getout(int exitstatus);
 
 dax_state *ds;
 static int _quitsignal;
-static int _connected = 0;
+static volatile int _connected = 0;
 
 MQTTClient client;
 MQTTClient_connectOptions conn_opts = MQTTClient_connectOptions_initializer;
@@ -245,16 +245,33 @@ subscribe(subscriber_t *sub) {
         sub->buff_size = sub->h[0].size;
     }
     result = MQTTClient_subscribe(client, sub->topic, sub->qos);
-    if(result != MQTTCLIENT_SUCCESS) {
-        dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
-        sub->enabled = ENABLE_FAIL; /* Can't recover from this */
-    } else {
-        sub->enabled = ENABLE_GOOD; /* We're rolling now */
+    if(result == MQTTCLIENT_SUCCESS) {
         dax_log(DAX_LOG_DEBUG, "Subscribed to %s", sub->topic);
+    } else {
+        dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
+        if(result == MQTT_BAD_SUBSCRIBE || result == MQTTCLIENT_BAD_QOS || result == MQTTCLIENT_BAD_UTF8_STRING) {
+            sub->enabled = ENABLE_FAIL; /* Can't recover from this */
+        }
     }
+    /* If the connection was lost we will subscribe once it is back */
+    sub->enabled = ENABLE_GOOD; /* We're rolling now */
     return 0;
 }
 
+/* Makes all the working subscriptions again after a new connection */
+static void
+resubscribe(void) {
+    subscriber_t *sub;
+
+    while((sub = get_sub_iter()) != NULL) {
+        if(sub->enabled == ENABLE_GOOD) {
+            if(MQTTClient_subscribe(client, sub->topic, sub->qos) != MQTTCLIENT_SUCCESS) {
+                dax_log(DAX_LOG_WARN, "Unable to subscribe to %s", sub->topic);
+            }
+        }
+    }
+}
+
 
 /* Does the initial subscription of all the configured subscribers */
 static int
@@ -467,14 +484,18 @@ client_loop(void) {
     while(1) {
         if(!_connected && cycle_count >= connect_cycle) {
             dax_log(DAX_LOG_COMM, "Attempting to connect to broker at %s", conn_str);
+            /* The connection can be lost again before we are back here */
+            _connected = 1;
             if ((result = MQTTClient_connect(client, &conn_opts)) != MQTTCLIENT_SUCCESS) {
                 dax_log(DAX_LOG_MINOR, "Failed to connect, return code %d", result);
+                _connected = 0;
                 connect_cycle*=2;
                 if(connect_cycle > 60) connect_cycle = 60; /* We'll try once a minute as a maximum for now */
             } else { /* Connection sucess */
                 dax_log(DAX_LOG_MINOR, "Connection successful");
-                _connected = 1;
                 connect_cycle = 1;
+                /* The broker has forgotten all of our subscriptions */
+                resubscribe();
                 //bad_subs = setup_subscribers();
                 //setup_publishers();
             }
-- 
2.43.0


From 438e5d0ba2f9de8eac6da3f7883a007294730469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 116/143] fix: mqtt: a retained message that arrives while
 subscribing is lost

---
 src/modules/mqtt/mqtt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index fc69d41..a30bba8 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -244,6 +244,7 @@ subscribe(subscriber_t *sub) {
         }
         sub->buff_size = sub->h[0].size;
     }
+    sub->enabled = ENABLE_GOOD; /* The first message may arrive before we are back here */
     result = MQTTClient_subscribe(client, sub->topic, sub->qos);
     if(result == MQTTCLIENT_SUCCESS) {
         dax_log(DAX_LOG_DEBUG, "Subscribed to %s", sub->topic);
@@ -254,7 +255,6 @@ subscribe(subscriber_t *sub) {
         }
     }
     /* If the connection was lost we will subscribe once it is back */
-    sub->enabled = ENABLE_GOOD; /* We're rolling now */
     return 0;
 }
 
-- 
2.43.0


From 6a7d57dbdc7faef323b66edbf623f9a3cfbfbd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 117/143] fix: mqtt: a message that arrives during a
 publication corrupts the Lua state

---
 src/modules/mqtt/mqtt.c | 21 ++++++++++++++++++---
 src/modules/mqtt/mqtt.h |  1 +
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/modules/mqtt/mqtt.c b/src/modules/mqtt/mqtt.c
index a30bba8..dae7794 100644
--- a/src/modules/mqtt/mqtt.c
+++ b/src/modules/mqtt/mqtt.c
@@ -29,6 +29,8 @@ static void getout(int exitstatus);
 
 dax_state *ds;
 static int _quitsignal;
+/* Messages arrive in a thread of the MQTT library but there is only one Lua state */
+static pthread_mutex_t _lua_lock = PTHREAD_MUTEX_INITIALIZER;
 static volatile int _connected = 0;
 
 MQTTClient client;
@@ -148,7 +150,7 @@ _write_masked(subscriber_t *sub)
 int
 msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *message)
 {
-    int size;
+    int size, result;
     subscriber_t *sub;
 
     dax_log(DAX_LOG_PROTOCOL, "Message arrived on topic '%s'", topicName);
@@ -156,7 +158,10 @@ msgarrived(void *context, char *topicName, int topicLen, MQTTClient_message *mes
     sub = get_sub(topicName);
     if(sub != NULL) {
         if(sub->filter != 0) { /* We need to run our filter function */
-            if(_run_filter(sub, topicName, message) == 0) {
+            pthread_mutex_lock(&_lua_lock);
+            result = _run_filter(sub, topicName, message);
+            pthread_mutex_unlock(&_lua_lock);
+            if(result == 0) {
                 _write_masked(sub);
             }
         } else {
@@ -297,6 +302,7 @@ publish_callback(dax_state *ds, void *udata) {
     int result = 0;
     int offset;
     const char *data;
+    char *payload;
     size_t len;
     lua_State *L;
 
@@ -315,6 +321,7 @@ publish_callback(dax_state *ds, void *udata) {
     }
 
     if(pub->filter != 0) { /* We need to run our filter function */
+        pthread_mutex_lock(&_lua_lock);
         lua_settop(L, 0); /* Delete the stack */
         /* Get the filter function from the registry and push it onto the stack */
         lua_rawgeti(L, LUA_REGISTRYINDEX, pub->filter);
@@ -342,12 +349,20 @@ publish_callback(dax_state *ds, void *udata) {
         }
         if(lua_pcall(L, 2, 1, 0) != LUA_OK) {
             dax_log(DAX_LOG_WARN, "filter funtion for %s - %s", pub->topic, lua_tostring(L, -1));
+            pthread_mutex_unlock(&_lua_lock);
             return;
         }
         /* The data that is supposed to be published should have been returned by the filter function */
         data = lua_tolstring(L, 1, &len);
+        payload = NULL;
         if(data != NULL) {
-            result = MQTTClient_publish(client, pub->topic, len, data, pub->qos, pub->retained, NULL);
+            payload = malloc(len + 1);
+            if(payload != NULL) memcpy(payload, data, len);
+        }
+        pthread_mutex_unlock(&_lua_lock);
+        if(payload != NULL) {
+            result = MQTTClient_publish(client, pub->topic, len, payload, pub->qos, pub->retained, NULL);
+            free(payload);
             if(result != MQTTCLIENT_SUCCESS) {
                 dax_log(DAX_LOG_ERROR, "Unable to publish data to %s", pub->topic);
             }
diff --git a/src/modules/mqtt/mqtt.h b/src/modules/mqtt/mqtt.h
index ab5275e..aeebc6e 100644
--- a/src/modules/mqtt/mqtt.h
+++ b/src/modules/mqtt/mqtt.h
@@ -22,6 +22,7 @@
 #include <common.h>
 #include <opendax.h>
 #include <signal.h>
+#include <pthread.h>
 #include <MQTTClient.h>
 
 /* Initial size of the arrays */
-- 
2.43.0


From 6133f7149e08799639a9c2bc59c9de079de7d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 118/143] fix: daxc: every command writes past the end of its
 token list

---
 src/modules/daxc/daxc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index 09608e1..df10eb8 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -292,7 +292,7 @@ runcmd(char *instr)
 
     /* Now that we know how many tokens we can allocate the array
      * We get one more than needed so that we can add the NULL */
-    tokens = malloc(sizeof(char *) * tcount+1);
+    tokens = malloc(sizeof(char *) * (tcount+1));
 
     if(tokens == NULL) {
         fprintf(stderr, "ERROR: Unable to allocate memory\n");
-- 
2.43.0


From 26898b8dd6942bb38b338f5c06f974449dbd2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 119/143] fix: daxc: the memory of every command is leaked

---
 src/modules/daxc/daxc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index df10eb8..fa4374d 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -376,6 +376,7 @@ runcmd(char *instr)
     }
 
     free(tokens);
+    free(temp);
     return result;
 }
 
-- 
2.43.0


From 9d94fbd5f2b45bbe018d46ae33dc4adf217f3423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 120/143] fix: daxc: op inc and op dec without a value do
 nothing

---
 src/modules/daxc/daxc_tag.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 6d72844..5d5db9f 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -861,39 +861,39 @@ atomic_op(char **tokens, int count)
             switch(handle.type) {
                 case DAX_BYTE:
                     *(dax_byte *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_SINT:
                 case DAX_CHAR:
                     *(dax_sint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UINT:
                 case DAX_WORD:
                     *(dax_uint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_INT:
                     *(dax_int *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UDINT:
                 case DAX_DWORD:
                 case DAX_TIME:
                     *(dax_udint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_DINT:
                     *(dax_dint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_ULINT:
                 case DAX_LWORD:
                     *(dax_ulint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_LINT:
                     *(dax_lint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_REAL:
                     *(dax_real *)buff = 1.0;
-                    return 0;
+                    break;
                 case DAX_LREAL:
                     *(dax_lreal *)buff = 1.0;
-                    return 0;
+                    break;
                 default:
                     fprintf(stderr, "ERROR: Bad type");
                     free(buff);
-- 
2.43.0


From 71aed6a0ebc887ff786662a623c6bda3aad5481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 121/143] fix: daxc: op ignores a value that follows a skipped
 one

---
 src/modules/daxc/daxc_tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 5d5db9f..058a064 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -912,7 +912,7 @@ atomic_op(char **tokens, int count)
             points = handle.count;
         }
         for(n = 0; n < points; n++) {
-            if(strncmp(tokens[n+1], "~", 1)) {
+            if(strncmp(tokens[n+2], "~", 1)) {
                 dax_string_to_val(tokens[n + 2], handle.type, buff, mask, n);
             }
         }
-- 
2.43.0


From e1b7b38a8554624cc95c1c6b5f566fdb6f1fb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 122/143] fix: daxc: op xnor does an xor

---
 src/modules/daxc/daxc_tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 058a064..4622b46 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -809,7 +809,7 @@ _get_atomic_op_type(char *op) {
     else if(!strncasecmp(op, "nor", 3)) return ATOMIC_OP_NOR;
     else if(!strncasecmp(op, "nand", 4)) return ATOMIC_OP_NAND;
     else if(!strncasecmp(op, "xor", 3)) return ATOMIC_OP_XOR;
-    else if(!strncasecmp(op, "xnor", 3)) return ATOMIC_OP_XOR;
+    else if(!strncasecmp(op, "xnor", 4)) return ATOMIC_OP_XNOR;
     else  return 0;
 }
 
-- 
2.43.0


From 5e974322b83f679228499de8121b631c8e68368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 123/143] fix: daxc: del tag without a tag crashes

---
 src/modules/daxc/daxc_tag.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 4622b46..5ed2c7a 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -131,6 +131,10 @@ tag_del(char **tokens)
     dax_tag temp_tag;
     int result;
 
+    if(tokens[0] == NULL) {
+        fprintf(stderr, "ERROR: No Tagname Given\n");
+        return 1;
+    }
     if(isdigit(tokens[0][0])) {
         result = dax_tag_byindex(ds, &temp_tag, atoi(tokens[0]));
     } else {
-- 
2.43.0


From 89b5e07a539c292367f19150ccd952722d9faf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 124/143] fix: daxc: commands with an unknown subcommand are
 silently ignored

---
 src/modules/daxc/daxc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index fa4374d..52e7845 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -325,6 +325,8 @@ runcmd(char *instr)
             result = event_add(&tokens[2], tcount - 2);
         } else if( !strncasecmp(tokens[1], "override", 2)) {
             result = override_add(&tokens[2], tcount - 2);
+        } else {
+            fprintf(stderr, "ERROR: Unknown add parameter %s\n", tokens[1]);
         }
     } else if( !strncasecmp(tokens[0], "del", 3)) {
         if(tokens[1] == NULL) {
@@ -337,6 +339,8 @@ runcmd(char *instr)
             event_del(&tokens[2]);
         } else if( !strncasecmp(tokens[1], "override", 2)) {
             result = override_del(&tokens[2], tcount - 2);
+        } else {
+            fprintf(stderr, "ERROR: Unknown del parameter %s\n", tokens[1]);
         }
     } else if( !strncasecmp(tokens[0], "list", 4)) {
         if(tokens[1] == NULL) {
-- 
2.43.0


From e68a7a71c23e14580df5ea5ab88f17fe786b5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 125/143] fix: daxc: deleted events use up the event numbers,
 bad numbers reach past the list

---
 src/modules/daxc/daxc_event.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/modules/daxc/daxc_event.c b/src/modules/daxc/daxc_event.c
index d046b56..8b88b6b 100644
--- a/src/modules/daxc/daxc_event.c
+++ b/src/modules/daxc/daxc_event.c
@@ -37,7 +37,7 @@ _event_callback(dax_state *d, void *udata) {
     id = (dax_id *)udata;
 
     for(n = 0; n < MAX_EVENTS; n++) {
-        if(events[n].event.index == id->index && events[n].event.id == id->id) {
+        if(events[n].used && events[n].event.index == id->index && events[n].event.id == id->id) {
             if(!quiet_mode) {
                 printf("Event %d Received\n", n+1);
             } else {
@@ -147,17 +147,23 @@ event_add(char **tokens, int count)
 int
 event_del(char **tokens)
 {
-    int index;
+    int index, result;
+
     if(tokens[0] == NULL) {
         fprintf(stderr, "ERROR: Event ID needed\n");
         return -1;
     }
     index = strtol(tokens[0], NULL, 0) - 1;
-    if(index < 0 || index > MAX_EVENTS) {
-        fprintf(stderr, "ERROR: Event %d, is out of range\n", index);
+    if(index < 0 || index >= MAX_EVENTS || !events[index].used) {
+        fprintf(stderr, "ERROR: Event %d, is out of range\n", index + 1);
         return -1;
     }
-    return dax_event_del(ds, events[index].event);
+    events[index].used = 0;
+    result = dax_event_del(ds, events[index].event);
+    if(result) {
+        fprintf(stderr, "ERROR: Unable to delete event %d. Code = %d\n", index + 1, result);
+    }
+    return result;
 }
 
 int
-- 
2.43.0


From a2e355a9ae622581c2c411ce0303576a7a062813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:20 +0000
Subject: [PATCH 126/143] fix: daxc: set, clear and del override of an unknown
 tag use an uninitialised handle

---
 src/modules/daxc/daxc_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 5ed2c7a..4e964a2 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -733,6 +733,7 @@ override_set(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_set_override(ds, handle);
@@ -763,6 +764,7 @@ override_clr(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_clr_override(ds, handle);
@@ -793,6 +795,7 @@ override_del(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return result;
     }
 
     result = dax_tag_del_override(ds, handle);
-- 
2.43.0


From 78998a1c425985029f1c92a4c309b515f3008aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 127/143] fix: daxc: the last line of a file is executed twice,
 long lines are split into several commands

---
 src/modules/daxc/daxc.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index 52e7845..9cd33de 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -387,21 +387,43 @@ runcmd(char *instr)
 int
 runfile(char *filename)
 {
-    char string[LINE_BUFF_SIZE];
+    char *string, *temp;
     FILE *file;
-    int len;
+    int len = 0, size = LINE_BUFF_SIZE;
 
     file = fopen(filename, "r");
     if(file == NULL) {
         fprintf(stderr, "ERROR: Unable to open file - %s\n", filename);
         return -1;
     }
-    while(!feof(file)) {
-        fgets(string, LINE_BUFF_SIZE, file);
-        len = strlen(string);
-        if(string[len-1] == '\n') string[len-1] = '\0';
+    string = malloc(size);
+    if(string == NULL) {
+        fprintf(stderr, "ERROR: Unable to allocate memory\n");
+        fclose(file);
+        return -1;
+    }
+    while(fgets(string + len, size - len, file) != NULL) {
+        len += strlen(string + len);
+        if(len > 0 && string[len-1] == '\n') {
+            string[len-1] = '\0';
+        } else if(len == size - 1) { /* There may be more of this line */
+            size *= 2;
+            temp = realloc(string, size);
+            if(temp == NULL) {
+                fprintf(stderr, "ERROR: Unable to allocate memory\n");
+                break;
+            }
+            string = temp;
+            continue;
+        }
         runcmd(string);
+        len = 0;
+        string[0] = '\0';
     }
+    /* The end of the file may come right after a full buffer */
+    if(feof(file) && len > 0) runcmd(string);
+    free(string);
+    fclose(file);
     return 0;
 }
 
-- 
2.43.0


From b7aeda82eec5c8fb4c6365f531bac1cb92d2b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 128/143] fix: daxc: write, op and add override on a compound
 tag set its data to zero

---
 src/modules/daxc/daxc_tag.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 4e964a2..1aa4f71 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -452,6 +452,10 @@ tag_write(char **tokens, int tcount) {
             return ERR_ARG;
         }
 
+        if(IS_CUSTOM(handle.type)) {
+            fprintf(stderr, "ERROR: %s is a compound tag, use its members\n", name);
+            return ERR_ARG;
+        }
         buff = malloc(handle.size);
         mask = malloc(handle.size);
         if(buff == NULL || mask == NULL) {
@@ -674,6 +678,10 @@ override_add(char **tokens, int count)
             return ERR_ARG;
         }
 
+        if(IS_CUSTOM(handle.type)) {
+            fprintf(stderr, "ERROR: %s is a compound tag, use its members\n", name);
+            return ERR_ARG;
+        }
         buff = malloc(handle.size);
         mask = malloc(handle.size);
         if(buff == NULL || mask == NULL) {
@@ -846,6 +854,10 @@ atomic_op(char **tokens, int count)
         return ERR_ARG;
     }
 
+    if(IS_CUSTOM(handle.type)) {
+        fprintf(stderr, "ERROR: %s is a compound tag, use its members\n", name);
+        return ERR_ARG;
+    }
     operation = _get_atomic_op_type(tokens[1]);
     if(operation == 0) {
         fprintf(stderr, "ERROR: %s Not a Valid operation\n", tokens[1]);
-- 
2.43.0


From f41bacaac5e5f712512354bdc0e68c5385355ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 129/143] fix: daxc: add tag with a count and an unknown
 attribute adds the tag anyway

---
 src/modules/daxc/daxc_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 1aa4f71..58f7b18 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -100,6 +100,9 @@ tag_add(char **tokens)
             }
         } else { /* If we have a count then see if we have attributes after */
             attr = _get_attributes(&tokens[3]);
+            if(attr == 0 && tokens[3] != NULL) {
+                return 1;
+            }
         }
     } else { // If no count is given make it one
         count = 1;
-- 
2.43.0


From 946219a68b8e76976b59385a8c1788257da0744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 130/143] fix: daxc: add type with a bad member creates the
 type without it

---
 src/modules/daxc/daxc_tag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 58f7b18..5a501bf 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -530,6 +530,8 @@ cdt_add(char **tokens, int tcount)
 
         if(result) {
             fprintf(stderr, "ERROR: Unable to add member %s\n", tokens[n]);
+            dax_cdt_free(type);
+            return result;
         }
     }
 
-- 
2.43.0


From 43f02bb3c27b1c966f6028edde203f1160c0267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 131/143] fix: daxc: list tag n leaves out the last tag, list
 type with an unknown type prints nothing

---
 src/modules/daxc/daxc_tag.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 5a501bf..d57c705 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -195,7 +195,7 @@ list_tags(char **tokens)
     if(result) return result;
     result = dax_read_tag(ds, h, &lastindex);
     if(result) return result;
-    if(nextindex >= lastindex) nextindex=0;
+    if(nextindex > lastindex) nextindex=0;
 
     if(arg[0]) {
         start = strtol(arg[0], &end_ptr, 0);
@@ -566,7 +566,10 @@ list_types(char **tokens)
         dax_cdt_iter(ds, 0, NULL, _print_cdt_callback);
     } else {
         type = dax_string_to_type(ds, tokens[0]);
-        dax_cdt_iter(ds, type, &type, _print_cdt_callback);
+        if(dax_cdt_iter(ds, type, &type, _print_cdt_callback)) {
+            fprintf(stderr, "ERROR: %s is not a compound type\n", tokens[0]);
+            return 1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 3f26a9802c731299b7e40137ade00e81eca3c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:02 +0000
Subject: [PATCH 132/143] fix: the log topics LOGIC and LOGICERR can be given
 by name

---
 src/lib/logger/daxlog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 6e10e65..632ec9d 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -253,6 +253,8 @@ dax_parse_log_topics(char *topic_string) {
         if(strcmp(s,"PROTOCOL") == 0) log_mask |= DAX_LOG_PROTOCOL;
         if(strcmp(s,"INFO") == 0) log_mask |= DAX_LOG_INFO;
         if(strcmp(s,"DEBUG") == 0) log_mask |= DAX_LOG_DEBUG;
+        if(strcmp(s,"LOGIC") == 0) log_mask |= DAX_LOG_LOGIC;
+        if(strcmp(s,"LOGICERR") == 0) log_mask |= DAX_LOG_LOGICERR;
 
         if(_topic_callback != NULL) { /* If there is a callback function assigned */
             _topic_callback(s);       /* Call it */
-- 
2.43.0


From ad39fb8a14af72f60509cf216c13927401058518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:02 +0000
Subject: [PATCH 133/143] fix: text printed by a configuration or script is not
 a format string

---
 src/lib/libopt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 7d42f7d..23f125d 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -414,7 +414,7 @@ _config_print(lua_State *L) {
     }
     str = lua_tostring(L, 1);
     if(str!= NULL) {
-        dax_log(DAX_LOG_CONFIG, str);
+        dax_log(DAX_LOG_CONFIG, "%s", str);
     } else {
         luaL_error(L, "Problem with string passed to print()");
     }
@@ -436,7 +436,7 @@ _logic_print(lua_State *L) {
     }
     str = lua_tostring(L, 1);
     if(str!= NULL) {
-        dax_log(DAX_LOG_LOGIC, str);
+        dax_log(DAX_LOG_LOGIC, "%s", str);
     } else {
         luaL_error(L, "Problem with string passed to print()");
     }
-- 
2.43.0


From 1808fa919f7e23cc284da33f8b2a3ff8287f16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 134/143] fix: a refused add_log_service() gives Lua an error
 code as its number of results

---
 src/lib/logger/daxlog.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 632ec9d..8bda965 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -166,7 +166,7 @@ _add_service(lua_State *L)
     /* TODO: Reallocate the array instead of static */
     if(_service_count >= _service_size) {
         dax_log(DAX_LOG_ERROR, "No more log services available");
-        return ERR_OVERFLOW;
+        return 0;
     }
     if(!lua_istable(L, -1)) {
         luaL_error(L, "add_port() received an argument that is not a table");
@@ -176,7 +176,7 @@ _add_service(lua_State *L)
     topics = lua_tostring(L, -1);
     if(topics == NULL) {
         dax_log(DAX_LOG_ERROR, "No Topic list given");
-        return ERR_ARG;
+        return 0;
     }
     mask = dax_parse_log_topics((char *)topics);
     lua_pop(L, 1);
@@ -191,10 +191,10 @@ _add_service(lua_State *L)
         result = _add_syslog_service(L, &_services[_service_count]);
     } else {
         dax_log(DAX_LOG_ERROR, "Unknown log service %s", type);
-        return ERR_ARG;
+        return 0;
     }
     if(result) {
-        return result; /* Return the result of the _add_xx_service function */
+        return 0; /* Nothing to return to Lua, the service is not added */
     }
     _services[_service_count].mask = mask;
     _service_count++;
-- 
2.43.0


From 46ab2fad1d7bccebb9b7a4b3e7c471c1c0d6f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 135/143] fix: a log service without type, file or priority, or
 with an unknown file, crashes

---
 src/lib/logger/daxlog.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 8bda965..87e9355 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -97,10 +97,17 @@ _add_stdio_service(lua_State *L, service_item *service) {
     new = malloc(sizeof(stdio_service));
     lua_getfield(L, -1, "file");
     file = lua_tostring(L, -1);
+    if(file == NULL) {
+        free(new);
+        luaL_error(L, "No file given");
+    }
     if(strcasecmp(file, "stdout")==0) {
         new->file = stdout;
     } else if(strcasecmp(file, "stderr")==0) {
         new->file = stderr;
+    } else {
+        free(new);
+        luaL_error(L, "Unknown file given");
     }
     service->log_func = _log_stdio;
     service->data=(void *)new;
@@ -125,6 +132,10 @@ _add_syslog_service(lua_State *L, service_item *service) {
     new = malloc(sizeof(syslog_service));
     lua_getfield(L, -1, "priority");
     priority = lua_tostring(L, -1);
+    if(priority == NULL) {
+        free(new);
+        luaL_error(L, "No priority given");
+    }
 
     if(strcasecmp(priority, "EMERG") == 0)
         new->priority = LOG_EMERG;
@@ -183,6 +194,10 @@ _add_service(lua_State *L)
 
     lua_getfield(L, -1, "type");
     type = lua_tostring(L, -1);
+    if(type == NULL) {
+        dax_log(DAX_LOG_ERROR, "No log service type given");
+        return 0;
+    }
     if(strcasecmp(type, "stdio")==0) {
         lua_pop(L, 1); /* Put the table back at the top of the stack */
         result = _add_stdio_service(L, &_services[_service_count]);
-- 
2.43.0


From ceef82ea1ac98c502b2b7ad78b0553baf473e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 136/143] fix: the logger keeps using the caller's string as
 its name

---
 src/lib/logger/daxlog.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 87e9355..9217554 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -30,7 +30,7 @@
 /* This is the default log topic mask.  This is used if no other
  * logging services are configured. */
 static uint32_t _default_topics = DAX_LOG_FATAL | DAX_LOG_ERROR;
-static const char *_name;
+static char *_name;
 
 static void (*_topic_callback)(char *topic);
 static service_item _services[SERVICE_LIST_SIZE];
@@ -221,7 +221,12 @@ int
 dax_init_logger(const char *name, uint32_t topics) {
     /* The name may be used for some loggin services. */
     if(name != NULL) {
-        _name = name;
+        char *copy = strdup(name); /* The caller may not keep the string */
+        if(copy == NULL) {
+            return ERR_ALLOC;
+        }
+        free(_name);
+        _name = copy;
     }
     if(topics) {
         _default_topics = topics;
-- 
2.43.0


From f789996931d3bc8778693311b494fc5fb2b5ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:21 +0000
Subject: [PATCH 137/143] fix: the name given in a module's configuration file
 is not used for the registration or the log

---
 src/lib/libopt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 23f125d..143edee 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -591,6 +591,13 @@ dax_configure(dax_state *ds, int argc, char **argv, int flags)
         result = _mod_config_file(ds);
     }
     _set_defaults(ds);
+    /* The configuration file can set the name as well */
+    if(dax_get_attr(ds, "name") != NULL && strcmp(dax_get_attr(ds, "name"), ds->modulename)) {
+        free(ds->modulename);
+        ds->modulename = strdup(dax_get_attr(ds, "name"));
+        if(ds->modulename==NULL) return ERR_ALLOC;
+    }
+    dax_init_logger(ds->modulename, 0);
     //_print_config(ds);
     _verify_config(ds);
     return result;
-- 
2.43.0


From 7148bf78a530ac75718f1f7ce063125b8f36ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:34 +0000
Subject: [PATCH 138/143] fix: configdir is not set for the configuration of
 the server and the master

---
 src/master/mstr_config.c | 2 ++
 src/server/options.c     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index 19e104a..f61cd62 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -313,6 +313,8 @@ readconfigfile(void)
 
     lua_pushstring(L, "opendax");
     lua_setglobal(L, CONFIG_GLOBALNAME);
+    lua_pushstring(L, ETC_DIR);
+    lua_setglobal(L, "configdir");
 
     /* load and run the configuration file */
     if(luaL_loadfile(L, _configfile)  || lua_pcall(L, 0, 0, 0)) {
diff --git a/src/server/options.c b/src/server/options.c
index 9a6933b..0321e3f 100644
--- a/src/server/options.c
+++ b/src/server/options.c
@@ -159,6 +159,8 @@ readconfigfile(void)
 
     lua_pushstring(L, "tagserver");
     lua_setglobal(L, CONFIG_GLOBALNAME);
+    lua_pushstring(L, ETC_DIR);
+    lua_setglobal(L, "configdir");
 
     /* load and run the configuration file */
     if(luaL_loadfile(L, _configfile)  || lua_pcall(L, 0, 0, 0)) {
-- 
2.43.0


From 38404cda4a4942da16af3522e53d034385ccc94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:34 +0000
Subject: [PATCH 139/143] fix: print() in the configuration of the server and
 the master does not go to the log

---
 src/lib/logger/daxlog.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 9217554..c656860 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -216,6 +216,17 @@ _add_service(lua_State *L)
     return 0;
 }
 
+/* Replaces print() in the configuration.  The text goes to the logger
+ * with the CONFIG topic */
+static int
+_print(lua_State *L)
+{
+    const char *str = luaL_tolstring(L, 1, NULL);
+
+    dax_log(DAX_LOG_CONFIG, "%s", str);
+    return 0;
+}
+
 /* Set the name and the default logger topics for the logger */
 int
 dax_init_logger(const char *name, uint32_t topics) {
@@ -234,12 +245,14 @@ dax_init_logger(const char *name, uint32_t topics) {
     return 0;
 }
 
-/* Set the add_log_service() function for the configuration Lua state */
+/* Set the add_log_service() and print() functions for the configuration Lua state */
 int
 dax_log_set_lua_function(lua_State *L) {
     if(L != NULL) {
         lua_pushcfunction(L, _add_service);
         lua_setglobal(L, "add_log_service");
+        lua_pushcfunction(L, _print);
+        lua_setglobal(L, "print");
         return 0;
     } else {
         return ERR_ARG;
-- 
2.43.0


From 39af7a10c925ba4773293a7de6ad39355ef4ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:23 +0000
Subject: [PATCH 140/143] fix: the constant ATOMIC_OP_XNOR is missing in Lua

---
 src/lib/lua/libdaxlua.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 1076407..354ed55 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -1673,7 +1673,8 @@ _set_atomic_constants(lua_State *L) {
         ATOMIC_OP_AND,
         ATOMIC_OP_NOR,
         ATOMIC_OP_NAND,
-        ATOMIC_OP_XOR
+        ATOMIC_OP_XOR,
+        ATOMIC_OP_XNOR
     };
     const char *_str[] = {
         "ATOMIC_OP_INC",
@@ -1683,9 +1684,10 @@ _set_atomic_constants(lua_State *L) {
         "ATOMIC_OP_AND",
         "ATOMIC_OP_NOR",
         "ATOMIC_OP_NAND",
-        "ATOMIC_OP_XOR"
+        "ATOMIC_OP_XOR",
+        "ATOMIC_OP_XNOR"
     };
-    for(int n=0;n<8;n++) {
+    for(int n=0;n<9;n++) {
         lua_pushinteger(L, _ints[n]);
         lua_setglobal(L, _str[n]);
     }
-- 
2.43.0


From 849b235876d0c054d9be20750ab71ab0d4fa3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 141/143] fix: event_add() in Lua loses bits of 64 bit integers
 and of TIME values

---
 src/lib/lua/libdaxlua.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 354ed55..c46e0a3 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -951,45 +951,45 @@ _get_event_type(char *str) {
  * is not a general use function for this reason and it is not re-entrant
  * or thread safe. */
 static inline void
-_convert_lua_number(tag_type datatype, void **data, lua_Number x) {
+_convert_lua_number(tag_type datatype, void **data, lua_Integer i, lua_Number x) {
     static dax_type_union u1;
 
     switch(datatype) {
         case DAX_BYTE:
-            u1.dax_byte = (dax_byte)x;
+            u1.dax_byte = (dax_byte)i;
             *data = &u1.dax_byte;
             return;
         case DAX_SINT:
         case DAX_CHAR:
-            u1.dax_sint = (dax_sint)x;
+            u1.dax_sint = (dax_sint)i;
             *data = &u1.dax_sint;
             return;
         case DAX_UINT:
         case DAX_WORD:
-            u1.dax_uint = (dax_uint)x;
+            u1.dax_uint = (dax_uint)i;
             *data = &u1.dax_uint;
             return;
         case DAX_INT:
-            u1.dax_int = (dax_int)x;
+            u1.dax_int = (dax_int)i;
             *data = &u1.dax_int;
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            u1.dax_udint = (dax_udint)x;
+            u1.dax_udint = (dax_udint)i;
             *data = &u1.dax_udint;
             return;
         case DAX_DINT:
-            u1.dax_dint = (dax_dint)x;
+            u1.dax_dint = (dax_dint)i;
             *data = &u1.dax_dint;
             return;
         case DAX_ULINT:
         case DAX_LWORD:
-            u1.dax_ulint = (dax_ulint)x;
+            u1.dax_ulint = (dax_ulint)i;
             *data = &u1.dax_ulint;
             return;
         case DAX_LINT:
-            u1.dax_lint = (dax_lint)x;
+        case DAX_TIME:
+            u1.dax_lint = (dax_lint)i;
             *data = &u1.dax_lint;
             return;
         case DAX_REAL:
@@ -1057,7 +1057,9 @@ _event_add(lua_State *L) {
     }
     /* Get the data that we need for < > = and deadband events. */
     number = lua_tonumber(L, 4);
-    _convert_lua_number(h.type, &data, number);
+    lua_pushvalue(L, 4);
+    _convert_lua_number(h.type, &data, _get_integer(L), number);
+    lua_pop(L, 1);
     /* The data that was passed is actually at the top of the stack */
     edata->data = luaL_ref(L, LUA_REGISTRYINDEX); /* Also pops the value */
     /* Now the function should be at the top of the stack */
-- 
2.43.0


From 5eed7a39b5afba15c7de5f711042a6056036abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 142/143] fix: the client library sends only the low 16 bits of
 the data of events on DWORD and TIME tags

---
 src/lib/libdax.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 485a207..85b27a4 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -159,10 +159,8 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
@@ -175,6 +173,8 @@ dax_real stom_real(dax_real);
 /* 64 bit Conversions */
 #define mtos_lword mtos_ulint
 #define stom_lword stom_ulint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_lint mtos_lint(dax_lint);
 dax_ulint mtos_ulint(dax_ulint);
-- 
2.43.0


From 39ccd6157a5592bf9530aa12919cbdfeab7675c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 143/143] fix: deeply nested data types overflow the Lua stack

---
 src/lib/lua/libdaxlua.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index c46e0a3..6365836 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -145,6 +145,8 @@ _read_callback(cdt_iter member, void *udata)
     int offset, n;
     struct iter_udata newdata;
 
+    /* Each level of nested data types needs some more of the Lua stack */
+    luaL_checkstack(L, LUA_MINSTACK, "data type is nested too deep");
     lua_pushstring(L, member.name);
 
     if(IS_CUSTOM(member.type)) {
@@ -368,6 +370,8 @@ _write_callback(cdt_iter member, void *udata)
 
     /* Once we have an error the message is at the top of the stack */
     if(((struct iter_udata *)udata)->error) return;
+    /* Each level of nested data types needs some more of the Lua stack */
+    luaL_checkstack(L, LUA_MINSTACK, "data type is nested too deep");
 
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
-- 
2.43.0

