From b9ce48ffe21471239eaa2668b9c5217d28204e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 001/129] fix: array: zero the slots added by u_array_resize

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..eb06c3b 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* slots that were never set must read as zero/NULL (as on creation) */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0,
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From d2728ebc69f91c4ae48a92f372492cb307346e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 002/129] fix: b64: check the size argument before
 dereferencing it

---
 srcs/toolbox/b64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..4f602d3 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -124,7 +124,7 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
+    size_t i, len, pad, tot_sz;
     uint8_t *pout;
 
     dbg_return_if (in == NULL, ~0);
@@ -132,6 +132,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
 
+    tot_sz = *out_sz;
+
     for (pout = out; in_sz; )
     {
         for (pad = 0, len = 0, i = 0; i < 4; ++i)
-- 
2.43.0


From 7fd7a7b6ca89240f592d574b4c8864c94bcad549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 003/129] fix: b64: don't index the decoding table with
 negative characters

---
 srcs/toolbox/b64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 4f602d3..60fbb9f 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -179,7 +179,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
 static inline int is_base64 (int c) 
 {
-    return D[c];
+    /* chars outside the table (also negative ones) aren't in the alphabet */
+    return (c >= 0 && (size_t) c < sizeof D / sizeof D[0]) ? D[c] != 0 : 0;
 }
 
 static inline size_t val (int c) 
-- 
2.43.0


From 6391c0168046dcdb06c544fdf1e4044c24b39ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 004/129] fix: b64: never write past the end of the decode
 buffer

---
 srcs/toolbox/b64.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 60fbb9f..45dbbb2 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -125,7 +125,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
     size_t i, len, pad, tot_sz;
-    uint8_t *pout;
+    uint8_t dec[3], *pout;
 
     dbg_return_if (in == NULL, ~0);
     dbg_return_if (in_sz == 0, ~0);
@@ -159,7 +159,9 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                /* copy out no more than the bytes the chunk really holds */
+                chunk_decode(buf, dec);
+                memcpy(pout, dec, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
-- 
2.43.0


From 86a2d3d50bcf92ac74dee77a6e80c9e846acacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 005/129] fix: b64: refuse truncated input and misplaced
 padding

---
 srcs/toolbox/b64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index 45dbbb2..9cbea07 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -144,7 +144,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
                 if (buf[i] == '=')
                     ++pad;
-                else if (!is_base64(buf[i]))    
+                else if (pad || !is_base64(buf[i]))    
                     return ~0;
 
                 ++len;
@@ -157,6 +157,10 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
         {
             size_t nlen = 3 - pad;
 
+            /* Refuse truncated chunks and misplaced padding. */
+            if (len != 4 || pad > 2 || (pad && in_sz))
+                return ~0;
+
             if (tot_sz >= nlen)
             {
                 /* copy out no more than the bytes the chunk really holds */
-- 
2.43.0


From 8419e95288d67bbee078728df409c3f59855557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 006/129] fix: buf: refuse a reserve of SIZE_MAX bytes

size + 1 wrapped to 0: the data block was freed (or a zero sized one
obtained) while the buffer kept using it.
---
 srcs/toolbox/buf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..d7811bc 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,6 +45,9 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+
+    /* there must be room for the trailing '\0' */
+    dbg_err_if (size + 1 == 0);
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
-- 
2.43.0


From 92e52fa8cc7ef21482d5802e6d014b6aeed10cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 007/129] fix: buf: u_buf_printf must not loop forever on long
 output

The buffer was grown by at most 128 bytes past its length, so that any
output of 128 characters or more was retried forever; and the (unsigned)
vsnprintf result was never recognized as an error.
---
 srcs/toolbox/buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index d7811bc..10ed49b 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -352,7 +352,8 @@ int u_buf_free (u_buf_t *ubuf)
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
     va_list ap;
-    size_t sz, avail;
+    int sz;
+    size_t avail;
 
     dbg_return_if (ubuf == NULL, ~0);
     dbg_return_if (fmt == NULL, ~0);
@@ -365,10 +366,10 @@ again:
     /* write to the internal buffer of ubuf */
     dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
 
-    if (sz >= avail)
+    if ((size_t) sz >= avail)
     {
         /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, (size_t) sz + 1)));
 
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
         ubuf->data[ubuf->len] = '\0';
-- 
2.43.0


From b0b9a5c52c9bf80a2000dfcf19a0674f813ac4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 008/129] fix: buf: keep the data zero-terminated after clear,
 shrink and reserve

---
 srcs/toolbox/buf.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 10ed49b..9c50c05 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -54,7 +54,7 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
 
     /* buffer data will always be zero-terminated (but the len field will not
      * count the last '\0') */
-    nbuf[size] = '\0';
+    nbuf[size] = nbuf[ubuf->len] = '\0';
 
     ubuf->data = nbuf;
     ubuf->size = size;
@@ -239,6 +239,10 @@ int u_buf_clear (u_buf_t *ubuf)
     
     ubuf->len = 0;
 
+    /* keep the (empty) content zero-terminated */
+    if (ubuf->data)
+        ubuf->data[0] = '\0';
+
     return 0;
 }
 
@@ -309,6 +313,10 @@ int u_buf_shrink(u_buf_t *ubuf, size_t newlen)
 
     ubuf->len = newlen;
 
+    /* keep the content zero-terminated */
+    if (ubuf->data)
+        ubuf->data[newlen] = '\0';
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 11be2bb257c5067eb5ebbc2b099bf5426dc5cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:40 +0000
Subject: [PATCH 009/129] fix: buf: keep the data zero-terminated when
 u_buf_printf can't enlarge it

---
 srcs/toolbox/buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 9c50c05..ea7a5d6 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -376,12 +376,13 @@ again:
 
     if ((size_t) sz >= avail)
     {
+        /* zero-term the buffer (vsnprintf has removed the last \0!) */
+        if (ubuf->data)
+            ubuf->data[ubuf->len] = '\0';
+
         /* enlarge the buffer (make it at least 128 bytes bigger) */
         dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, (size_t) sz + 1)));
 
-        /* zero-term the buffer (vsnprintf has removed the last \0!) */
-        ubuf->data[ubuf->len] = '\0';
-
         va_end(ap);
 
         /* try again with a bigger buffer */
-- 
2.43.0


From 549bb3266ed887d42873ad054444dd52cc38cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 010/129] fix: str: u_string_reserve must leave an empty string
 empty

The block obtained for a string with no storage yet was not terminated.
---
 srcs/toolbox/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..0362eff 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -328,7 +328,7 @@ int u_string_reserve (u_string_t *s, size_t size)
     dbg_err_sif (nbuf == NULL);
 
     /* zero terminate it */
-    nbuf[size] = '\0';
+    nbuf[size] = nbuf[s->data_len] = '\0';
 
     s->data = (void *) nbuf;
     s->data_sz = size;
-- 
2.43.0


From c6ef3a18b9273faa419630deffbb8d44cbe8e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 011/129] fix: str: a failed printf must leave the string as it
 was

---
 srcs/toolbox/str.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 0362eff..eb627ab 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -485,10 +485,11 @@ again:
 
     if (sz >= avail)
     {
-        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-
         /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-        s->data[s->data_len] = '\0';
+        if (s->data_sz)
+            s->data[s->data_len] = '\0';
+
+        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
 
         goto again;
     }
-- 
2.43.0


From aefb44ab6077379fd7b0640d85868c651436371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 012/129] fix: str: a vsnprintf failure must not be taken as a
 huge length

---
 srcs/toolbox/str.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index eb627ab..af9a9c6 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -460,6 +460,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int rc;
     size_t sz, avail;
     va_list apcpy;
 
@@ -479,10 +480,20 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    rc = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
+    if (rc < 0)
+    {
+        /* keep the string as it was */
+        if (s->data_sz)
+            s->data[s->data_len] = '\0';
+        goto err;
+    }
+
+    sz = (size_t) rc;
+
     if (sz >= avail)
     {
         /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-- 
2.43.0


From e4e8ab0d72306611abb8ead97f237584f748bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 013/129] fix: list: u_list_clear must reset the number of
 elements

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..fec6cd5 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -363,6 +363,8 @@ int u_list_clear (u_list_t *list)
         u_free(item);
     }
 
+    list->count = 0;
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 198b199064b99cb8df704125bd6e8fd252f4462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 014/129] fix: pqueue: refuse a SIZE_MAX capacity

The number of slots wrapped to zero and any push went out of bounds.
---
 srcs/toolbox/pqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pqueue.c b/srcs/toolbox/pqueue.c
index 0c95546..22fd032 100644
--- a/srcs/toolbox/pqueue.c
+++ b/srcs/toolbox/pqueue.c
@@ -92,6 +92,7 @@ int u_pq_create (size_t nitems, u_pq_t **ppq)
 
     dbg_return_if (ppq == NULL, ~0);
     dbg_return_if (nitems < 2, ~0); /* Expect at least 2 elements. */
+    dbg_return_if (nitems + 1 == 0, ~0); /* One more slot is allocated. */
 
     /* Make room for both the queue head and items' array. */
     dbg_err_sif ((pq = u_zalloc(sizeof *pq)) == NULL);
-- 
2.43.0


From e9691208eceee96df39df8d04218c55f63b39af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:54 +0000
Subject: [PATCH 015/129] fix: bst: compute the right number of elements on
 deletion

The node taking the place of the evicted one kept the count of its own
subtree only, so that u_bst_count, u_bst_find_nth and u_bst_balance went
wrong after a deletion.
---
 srcs/toolbox/bst.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..dd7757a 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -881,12 +881,16 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
     {
         delnode = node;
         node = u_bst_node_join_lr(node->left, node->right);
+        /* The joined subtree holds all the nodes but the evicted one. */
+        if (node)
+            node->nelem = delnode->nelem - 1;
         u_bst_node_do_free(bst, delnode);
         *pfound = 1;
+        return node;
     }
 
     /* Update child nodes' counter. */
-    if (node && *pfound)
+    if (*pfound)
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From a8aa29bb2bc195e15b1c5894734d7ad79d5f464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:50 +0000
Subject: [PATCH 016/129] fix: bst: a push that runs out of memory must leave
 the tree alone

The root was overwritten with NULL, losing the whole tree (or the rotation
dereferenced the missing node) and the counters were already bumped.  Get
the node first, then link it.
---
 srcs/toolbox/bst.c | 106 ++++++++++++++++-----------------------------
 1 file changed, 37 insertions(+), 69 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index dd7757a..9cbb1de 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -39,13 +39,13 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -200,17 +200,22 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Get the new node first: linking it to the tree can't fail. */
+    warn_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
 }
 
 /**
@@ -694,76 +699,54 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
     u_bst_node_t *parent, *node;
 
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -773,53 +756,38 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
-    /* External node reached: create the node. */
+    /* External node reached: attach the new node. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From eb8bdc0deaa28fe291750586d821a36d8822099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:27 +0000
Subject: [PATCH 017/129] fix: rb: release everything when the mmap based
 creation fails

The ring buffer object was leaked by early failures (its dtor was not set
yet), and MAP_FAILED was passed to munmap, which leaked the object too.
---
 srcs/toolbox/rb.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..15f3c02 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -567,7 +567,11 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
      * pretending to MAP_FIXED */
     rb->base = mmap(NULL, rb->sz << 1, PROT_NONE, 
             MAP_ANON | MAP_PRIVATE, -1, 0);
-    dbg_err_sif (rb->base == MAP_FAILED);
+    if (rb->base == MAP_FAILED)
+    {
+        rb->base = NULL;    /* nothing to unmap */
+        dbg_err_sif (1);
+    }
 
     /* POSIX: "The mapping established by mmap() shall replace any previous 
      * mappings for those whole pages containing any part of the address space 
@@ -593,7 +597,7 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
 
     return 0;
 err:
-    u_rb_free(rb);
+    free_mmap(rb);
     U_CLOSE(fd);
     return -1;
 }
-- 
2.43.0


From f5e6152aadf24c557cfc672e3ac713778481bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 018/129] fix: rb: u_rb_fast_read must fail when contiguous
 memory isn't in use

It jumped to a NULL method: the wrong one was checked.
---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 15f3c02..6657dcf 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From 577788b93ce5856fea184b7b76a28ce3822742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:53 +0000
Subject: [PATCH 019/129] fix: rb: refuse a size that can't be doubled for
 contiguous memory

---
 srcs/toolbox/rb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 6657dcf..b081fe2 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -643,7 +643,10 @@ static int create_malloc (size_t sz, int opts, u_rb_t **prb)
 
     /* Double buffer size in case the user requested contiguous memory. */
     if (opts & U_RB_OPT_USE_CONTIGUOUS_MEM)
+    {
+        dbg_err_if (sz > ((size_t) -1) / 2);
         real_sz <<= 1;
+    }
 
     /* Make room for the buffer. */
     dbg_err_sif ((rb->base = u_zalloc(real_sz)) == NULL);
-- 
2.43.0


From 165cf011b327c938cfa578e05e5cb07370e97c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:05 +0000
Subject: [PATCH 020/129] fix: rb: reassemble data fragmented between tail and
 head on read

The condition was inverted: reads crossing the end of the buffer went out
of bounds, the others underflowed the size of the second chunk.
---
 srcs/toolbox/rb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index b081fe2..a16ab75 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,8 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* No need to defragment if all the data sits on the right side. */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From a9cafc2d12cf0849628fa001c0c19765ee9d31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 021/129] fix: u_hmap_clear leaves the old element count behind

---
 srcs/toolbox/hmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..c4d8fd2 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -626,6 +626,7 @@ void u_hmap_clear (u_hmap_t *hmap)
                 __o_free(hmap, obj);
         }
     }
+    hmap->sz = 0;
 
     /* free the policy queue */
     while ((data = TAILQ_FIRST(&hmap->pcy.queue)) != NULL)
-- 
2.43.0


From 00901722c20121626c2f5ce68bc88334eab7887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 022/129] fix: deleting from a hmap with a discard policy
 leaves a stale queue entry

---
 srcs/toolbox/hmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index c4d8fd2..d7f4e65 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -853,6 +853,10 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
     dbg_err_if (o == NULL);
     LIST_REMOVE(o, next);
 
+    /* forget about it in the policy queue too */
+    if (o->pqe)
+        dbg_err_if (__queue_del(hmap, o));
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -1618,8 +1622,6 @@ static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
 
     dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
     dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
 
     return U_HMAP_ERR_NONE;
 err:
@@ -1636,8 +1638,6 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
     dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
             == NULL);
     dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
 
     return U_HMAP_ERR_NONE;
 
-- 
2.43.0


From 2abb63186b05e37bb4cfc58b8dd1c82888acd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:22 +0000
Subject: [PATCH 023/129] fix: put on a linear hmap duplicates a key that lies
 after a hole

---
 srcs/toolbox/hmap.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index d7f4e65..26532dd 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -109,7 +109,9 @@ struct u_hmap_s
     size_t sz,                  /* current size */
            size,                /* array size */
            threshold,           /* when to resize */
-           px;                  /* index into prime numbers array */
+           px,                  /* index into prime numbers array */
+           probe;               /* longest distance from a key's own slot
+                                   (linear probing only) */
 
     u_hmap_pcy_t pcy;    /* discard policy */
 
@@ -675,11 +677,12 @@ void u_hmap_free (u_hmap_t *hmap)
 int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
     u_hmap_o_t *o;
-    u_hmap_e_t *x;
+    u_hmap_e_t *x, *avail = NULL;
     int comp;
     int rc;
     size_t hash;
     size_t last;
+    size_t dist, avail_dist = 0;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
@@ -745,13 +748,22 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 
             last = ((hash + hmap->size-1) % hmap->size);
 
-            for (; hash != last; hash = ((hash+1) % hmap->size),
-                    x = &hmap->hmap[hash])
+            for (dist = 0; hash != last; hash = ((hash+1) % hmap->size),
+                    x = &hmap->hmap[hash], ++dist)
             {
+                /* remember the first free slot, but keep looking as far as any
+                 * key has ever been placed: deletions leave holes behind */
+                if (avail && dist > hmap->probe)
+                    break;
+
                 if (LIST_EMPTY(x))
                 {
-                    LIST_INSERT_HEAD(x, obj, next);
-                    goto end;
+                    if (avail == NULL)
+                    {
+                        avail = x;
+                        avail_dist = dist;
+                    }
+                    continue;
                 }
 
                 /* only first node used for linear probing */
@@ -765,6 +777,14 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
                     return rc;
                 }
             }
+
+            if (avail)
+            {
+                LIST_INSERT_HEAD(avail, obj, next);
+                if (avail_dist > hmap->probe)
+                    hmap->probe = avail_dist;
+                goto end;
+            }
             break;
     }
 
-- 
2.43.0


From 56aa8c24dc6b9997c6ab8c9b68e1b7d8b8699d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:04 +0000
Subject: [PATCH 024/129] fix: u_hmap_copy leaves the source hmap and the
 objects inconsistent

---
 srcs/toolbox/hmap.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 26532dd..8bd15a3 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1551,7 +1551,12 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
     {
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
+            /* the object belongs to the destination from now on */
             LIST_REMOVE(obj, next);
+            if (obj->pqe)
+                dbg_err_if (__queue_del(from, obj));
+            from->sz--;
+            obj->hmap = to;
             dbg_err_if (u_hmap_put(to, obj, NULL));
         }
     }
@@ -2090,6 +2095,8 @@ static int __resize(u_hmap_t *hmap)
 {
     u_hmap_opts_t *newopts = NULL;
     u_hmap_t *newmap = NULL;
+    u_hmap_o_t *obj;
+    size_t i;
 
     dbg_err_if (hmap == NULL);
 
@@ -2115,6 +2122,13 @@ static int __resize(u_hmap_t *hmap)
     /* copy old elements to new map policy */
     dbg_err_if (u_hmap_copy(newmap, hmap));
 
+    /* the elements stay with this hmap */
+    for (i = 0; i < newmap->size; ++i)
+    {
+        LIST_FOREACH(obj, &newmap->hmap[i], next)
+            obj->hmap = hmap;
+    }
+
     /* free old allocated objects */
     u_hmap_opts_free(hmap->opts);
     u_free(hmap->hmap);
-- 
2.43.0


From 69e3de70a561d3ec99e5cedd139ea53f4002cfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 025/129] fix: leaks in the failure paths of hmap creation and
 resize

---
 srcs/toolbox/hmap.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 8bd15a3..1b306ed 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -597,6 +597,7 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_hmap_opts_free(c->opts);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
@@ -958,7 +959,13 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
-    U_FREEF(obj, u_hmap_o_free);
+    if (obj)
+    {
+        /* the only copy that may have been made before the failure */
+        if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+            u_free(obj->key);
+        u_hmap_o_free(obj);
+    }
 
     return NULL;
 }
@@ -2115,6 +2122,7 @@ static int __resize(u_hmap_t *hmap)
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
     u_hmap_opts_free(newopts);
+    newopts = NULL;
 
     /* remove any ownership from old map to copy elements */
     hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
@@ -2141,6 +2149,7 @@ static int __resize(u_hmap_t *hmap)
 
     return 0;
 err:
+    U_FREEF(newopts, u_hmap_opts_free);
     return ~0;
 }
 
-- 
2.43.0


From 30e03c9c77874803c326d2925f5fbd80e719f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 026/129] fix: a failed put leaves the object in the hmap

---
 srcs/toolbox/hmap.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 1b306ed..896698a 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -362,7 +362,20 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
 
     return rc;
 err:
-    /* don't free 'obj' because hmap owns it and will free it */
+    /* don't free 'obj' when it was refused because the key exists: hmap owns it
+     * and has freed it already */
+    if (obj && rc != U_HMAP_ERR_EXISTS)
+    {
+        /* what was copied is released, the rest stays with the caller */
+        if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
+        {
+            if (hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+                u_free(obj->key);
+            if (hmap->opts->val_type != U_HMAP_OPTS_DATATYPE_POINTER)
+                u_free(obj->val);
+        }
+        u_hmap_o_free(obj);
+    }
     return (rc ? rc : U_HMAP_ERR_FAIL);
 }
 
@@ -679,6 +692,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 {
     u_hmap_o_t *o;
     u_hmap_e_t *x, *avail = NULL;
+    int linked = 0;
     int comp;
     int rc;
     size_t hash;
@@ -790,9 +804,14 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     }
 
 err:
+    /* an object that could not be put stays with the caller */
+    if (linked)
+        LIST_REMOVE(obj, next);
+
     return U_HMAP_ERR_FAIL;
 
 end:
+    linked = 1;
 
     if (hmap->sz >= hmap->opts->max &&
             hmap->opts->policy != U_HMAP_PCY_NONE)
@@ -1049,8 +1068,8 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
             /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1720,9 +1739,12 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     {
         /* no reference to queue entry -> count == 0 */
         dbg_err_if ((new = __q_o_new(obj)) == NULL);
+        if ((new->data = u_zalloc(sizeof(int))) == NULL)
+        {
+            __q_o_free(new);
+            goto err;
+        }
         TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
-        new->data = (void *) count;
         *counts = new;
         /*
         u_dbg(">k: %s, p: %d", new->ho->key, *((int *)new->data));
-- 
2.43.0


From f2062cf999c845bb2bdfdaddda448b2deb2f4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 027/129] fix: JSON tokens beyond the size limit read and write
 uninitialised memory

---
 srcs/toolbox/json.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..470860e 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1297,7 +1297,8 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
 
     /* Take care of the fact that the match includes the first non-number char
      * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "token too long at %s", u_lexer_lookahead(jl));
     match[strlen(match) - 1] = '\0';
 
     /* Push the matched number into the supplied json object. */
@@ -1610,7 +1611,8 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
+    if (u_lexer_get_match(jl, match) == NULL)
+        U_LEXER_ERR(jl, "token too long at %s", u_lexer_lookahead(jl));
 
     /* Trim trailing '"'. */
     if ((mlen = strlen(match)) >= 1)
@@ -1712,7 +1714,8 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
         /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
+        if (u_lexer_get_match(jl, match) == NULL)
+            U_LEXER_ERR(jl, "token too long at %s", u_lexer_lookahead(jl));
 
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
-- 
2.43.0


From fae4bba80330d0554c7c606ea68c4ad631751675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:13 +0000
Subject: [PATCH 028/129] fix: JSON literals with embedded white space are
 accepted

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 470860e..826074d 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1419,7 +1419,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
-- 
2.43.0


From e9346695c6b9f667a16f58a4267bebf13df70f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:26 +0000
Subject: [PATCH 029/129] fix: NULL dereference in u_json_validate when out of
 memory

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 826074d..dcefc77 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1941,7 +1941,7 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "", U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
-- 
2.43.0


From 1beb39ff14f80b2199b7351d1d1afdf4f0fb1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 030/129] fix: JSON encoding drops empty names

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index dcefc77..7c69149 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1140,7 +1140,8 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
         return 0;
 
     /* Optional key. */
-    if (strlen(jo->key))
+    if (strlen(jo->key) ||
+            (jo->parent && jo->parent->type == U_JSON_TYPE_OBJECT))
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
-- 
2.43.0


From 1b4a30aa6ebc43d76f82b86d39b7517d52af9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:50 +0000
Subject: [PATCH 031/129] fix: JSON strings holding a DEL character are refused

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 7c69149..3d928b4 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1690,7 +1690,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
                     U_LEXER_ERR(jl, "invalid char %c in escape", c);
             }
         }
-        else if (iscntrl((int) c))
+        else if ((unsigned char) c < 0x20)
             U_LEXER_ERR(jl, "control character in string", c); 
         else    
             U_LEXER_NEXT(jl, &c);
-- 
2.43.0


From de141024aa419cde740635fa4e6592e4754097b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 032/129] fix: freeing or walking a JSON item reaches its
 following siblings

---
 srcs/toolbox/json.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 3d928b4..f911589 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -613,6 +613,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *child, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -623,10 +625,12 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
         cb(jo, l, cb_args);
 
     /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    for (child = TAILQ_FIRST(&jo->children); child != NULL; child = next)
+    {
+        /* The callback is allowed to free the child. */
+        next = TAILQ_NEXT(child, siblings);
+        u_json_walk(child, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
-- 
2.43.0


From af4c7f57ab1335cf101f2dceacf40ed653204257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:14 +0000
Subject: [PATCH 033/129] fix: encoding a JSON item also writes its following
 siblings

---
 srcs/toolbox/json.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index f911589..6fa9499 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1140,8 +1140,7 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
 
 static int u_json_do_encode (u_json_t *jo, u_string_t *s)
 {
-    if (jo == NULL)
-        return 0;
+    u_json_t *child;
 
     /* Optional key. */
     if (strlen(jo->key) ||
@@ -1177,7 +1176,14 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
     }
 
     /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    TAILQ_FOREACH (child, &jo->children, siblings)
+    {
+        dbg_err_if (u_json_do_encode(child, s));
+
+        /* When needed, add comma to separate siblings. */
+        if (TAILQ_NEXT(child, siblings))
+            dbg_err_if (u_string_aprintf(s, ", "));
+    }
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1192,13 +1198,6 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             break;
     }
 
-    /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
-        dbg_err_if (u_string_aprintf(s, ", "));
-
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 4bf6bde8e7442c601d5f1a9f1679d497ce9a0091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 034/129] fix: array positions are wrong when a JSON tree is
 indexed again

---
 srcs/toolbox/json.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 6fa9499..bb74ad6 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -673,7 +673,6 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
 
@@ -692,7 +691,7 @@ int u_json_index (u_json_t *jo)
     jo->icur = 0;
 
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, hmap);
 
     /* Attach the associative array to the top level object. */
     jo->map = hmap, hmap = NULL;
@@ -1823,15 +1822,13 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
+    /* The elements of an array are counted from scratch each time. */
+    jo->icur = 0;
+
     /* Insert node into the hmap. */
     dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
 
-- 
2.43.0


From 2292cf4cc18786b7d20ea05c5e9c9eb435d1d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 035/129] fix: inner JSON items keep pointing to a deleted
 index

---
 srcs/toolbox/json.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index bb74ad6..f4533bc 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -82,6 +82,7 @@ static const char *u_json_type_str (int type);
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, u_string_t *s);
@@ -721,8 +722,12 @@ int u_json_unindex (u_json_t *jo)
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
 
+    /* The cache is shared by all nodes of the tree. */
+    while (jo->parent)
+        jo = jo->parent;
+
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -1798,6 +1803,15 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 {
     u_json_t *p;
-- 
2.43.0


From ae09c44bffebe323e0b4f8374f75cc639c1d4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:20 +0000
Subject: [PATCH 036/129] fix: names relative to the top-level JSON container
 are not found

---
 srcs/toolbox/json.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index f4533bc..bdc01e1 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -746,20 +746,14 @@ int u_json_unindex (u_json_t *jo)
  */
 u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 {
-    u_json_t *res, *p;
+    u_json_t *res;
     char fqn[U_JSON_FQN_SZ];
 
     dbg_return_if (jo == NULL, NULL);
     dbg_return_if (jo->map == NULL, NULL);
     dbg_return_if (name == NULL, NULL);
 
-    if ((p = jo->parent) == NULL)
-    {
-        /* If 'jo' is top level, 'name' must be fully qualified. */ 
-        return (u_json_t *) u_hmap_easy_get(jo->map, name);
-    }
-
-    /* Else ('jo' != top): first try 'name' as it were fully qualified. */
+    /* First try 'name' as it were fully qualified. */
     if ((res = (u_json_t *) u_hmap_easy_get(jo->map, name)))
         return res;
 
-- 
2.43.0


From a06107dfdaec5ac1c3363b240ac6c01b8df87631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 037/129] fix: JSON value check accepts trailing garbage and
 leaks its lexer

---
 srcs/toolbox/json.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index bdc01e1..5ba8e3a 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -418,7 +418,11 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    /* Nothing is expected to follow. */
+    dbg_err_if (check && !u_lexer_eot(vl));
+
+    dbg_err_if (strlen(val) >= sizeof jo->val);
+    (void) u_strlcpy(jo->val, val, sizeof jo->val);
 
     /* Fall through. */       
 end:
-- 
2.43.0


From f770187714b6f4427c5ceb99e562e8f89feedc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:45 +0000
Subject: [PATCH 038/129] fix: leaves of a JSON container cannot be set by name

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 5ba8e3a..aa2506e 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -789,13 +789,13 @@ int u_json_cache_set_tv (u_json_t *jo, const char *name,
 {
     u_json_t *res;
 
-    dbg_return_if (U_JSON_OBJ_IS_CONTAINER(jo), ~0);
     dbg_return_if (type == U_JSON_TYPE_OBJECT || type == U_JSON_TYPE_ARRAY, ~0);
     /* 'jo' and 'name' will be checked by u_json_cache_get(); 
      * 'val' consistency is checked after type has been set. */
 
     /* Retrieve the node. */
     dbg_err_if ((res = u_json_cache_get(jo, name)) == NULL);
+    dbg_err_if (U_JSON_OBJ_IS_CONTAINER(res));
 
     /* First set type (in case !unknown) so that we know how to check the
      * subsequent value setting. */
-- 
2.43.0


From ef01c1c94525e57bc843434a3722f514d02f196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 039/129] fix: refuse URI components longer than the token
 limit

---
 srcs/toolbox/uri.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..03cf7b4 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -426,7 +426,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -481,7 +481,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -512,7 +512,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -526,7 +526,7 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    dbg_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -624,7 +624,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -657,7 +657,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->user));
 
     /* Check if we've exhausted the userinfo string. */
     nop_goto_if (u_lexer_eot(l), end);
@@ -671,7 +671,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
 
 end:
     u_lexer_free(l);
@@ -686,7 +686,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -706,7 +706,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -745,7 +745,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -768,7 +768,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->fragment));
 
     return 0;
 err:
-- 
2.43.0


From 0360300e0e26f230e5f7ad34f193d89614227615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:42 +0000
Subject: [PATCH 040/129] fix: refuse text left over after a URI

---
 srcs/toolbox/uri.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 03cf7b4..df156fd 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -375,6 +375,10 @@ static int u_uri_parser (u_lexer_t *l, u_uri_opts_t opts, u_uri_t **pu)
     if (u_uri_fragment_first(l))
         warn_err_if (u_uri_parse_fragment(l, u));
 
+    /* Nothing is expected to follow. */
+    if (!u_lexer_eot(l))
+        U_LEXER_ERR(l, "Unexpected \'%c\'.", u_lexer_peek(l));
+
     *pu = u;
 
     return 0;
-- 
2.43.0


From 2aad269096cf47d95904817784749dfb707d7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 041/129] fix: look for userinfo in the authority of a URI only

---
 srcs/toolbox/uri.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index df156fd..bcea1f5 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -442,6 +442,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    const char *p;
 
     /* Consume "//". */
     do {
@@ -451,7 +452,8 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     } while (++i < 2);
 
     /* [userinfo "@"] */
-    if (strchr(u_lexer_lookahead(l), '@'))
+    p = u_lexer_lookahead(l);
+    if (p[strcspn(p, "/?#@")] == '@')
         warn_err_if (u_uri_parse_userinfo(l, u));
     warn_err_if (u_uri_parse_host(l, u));
 
@@ -620,11 +622,10 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    do {
-        U_LEXER_NEXT(l, &c);
-    } while (u_uri_match_pchar_minus_at_sign(l));
+    while (u_uri_match_pchar_minus_at_sign(l))
+        U_LEXER_NEXT(l, NULL);
 
-    if (u_lexer_peek(l) != '@')
+    if ((c = u_lexer_peek(l)) != '@')
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From 73ca6add216510df90455cddd77da89dc4c8ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:05 +0000
Subject: [PATCH 042/129] fix: check percent-encoded characters of a URI
 without consuming them

---
 srcs/toolbox/uri.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index bcea1f5..4b25cae 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -410,7 +410,9 @@ static int u_uri_port_first (u_lexer_t *l)
 /* Check for both absolute and rootless paths. */
 static int u_uri_path_first (u_lexer_t *l)
 {
-    return (u_lexer_peek(l) == '/' || u_uri_match_pchar(l));
+    /* Do not consume pct-encoded octets here. */
+    return (u_lexer_peek(l) == '/' || u_lexer_peek(l) == '%' || 
+            u_uri_match_pchar(l));
 }
 
 /* scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." ) */
@@ -602,14 +604,14 @@ err:
 
 static int u_uri_regname_first (u_lexer_t *l)
 {
-    return (u_uri_match_ups(l));
+    /* Do not consume pct-encoded octets here. */
+    return (u_lexer_peek(l) == '%' || u_uri_match_ups(l));
 }
 
 static int u_uri_parse_regname (u_lexer_t *l)
 {
-    do {
+    while (u_uri_match_ups(l))
         U_LEXER_NEXT(l, NULL); 
-    } while (u_uri_match_ups(l));
 
     return 0;
 err:
@@ -835,18 +837,21 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l)
 static int u_uri_expect_pct_encoded (u_lexer_t *l)
 {
     char i, c;
+    const char *p;
 
-    if (u_lexer_peek(l) != '%')
+    if ((c = u_lexer_peek(l)) != '%')
         U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
 
-    for (i = 0; i < 2; i++)
+    /* Check before consuming: on failure the cursor is left on the '%'. */
+    for (i = 1, p = u_lexer_lookahead(l); i <= 2; i++)
     {
-        U_LEXER_NEXT(l, &c);
-
-        if (!isxdigit((int) c))
+        if (!isxdigit((int) (c = p[(int) i])))
             U_LEXER_ERR(l, "Non hex digit \'%c\' in percent encoding.", c);
     }
 
+    U_LEXER_NEXT(l, NULL);
+    U_LEXER_NEXT(l, NULL);
+
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 9f674615cb372ce34d9d08cb70b6333263b2f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:17 +0000
Subject: [PATCH 043/129] fix: tell IPv4 addresses from names starting with a
 digit in URIs

---
 srcs/toolbox/uri.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 4b25cae..9ee5389 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -586,7 +586,26 @@ err:
 
 static int u_uri_ipv4address_first (u_lexer_t *l)
 {
-    return (isdigit(u_lexer_peek(l)));
+    int i, n, v;
+    const char *p = u_lexer_lookahead(l);
+
+    /* dec-octet "." dec-octet "." dec-octet "." dec-octet */
+    for (i = 0; i < 4; i++)
+    {
+        if (i && *p++ != '.')
+            return 0;
+
+        for (n = v = 0; n < 3 && isdigit((int) p[n]); n++)
+            v = v * 10 + (p[n] - '0');
+
+        if (n == 0 || v > 255 || (n > 1 && *p == '0'))
+            return 0;
+
+        p += n;
+    }
+
+    /* Anything else that can make a reg-name makes it one. */
+    return (*p == '\0' || strchr(":/?#", *p) != NULL);
 }
 
 static int u_uri_parse_ipv4address (u_lexer_t *l)
-- 
2.43.0


From 1d3ab1d8685321bb61d0782aa00e805004296e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:55 +0000
Subject: [PATCH 044/129] fix: accept the root path in URIs without authority

---
 srcs/toolbox/uri.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 9ee5389..e65676a 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -41,6 +41,7 @@ static int u_uri_parse_ipv4address (u_lexer_t *l);
 static int u_uri_parse_regname (u_lexer_t *l);
 static int u_uri_expect_colon (u_lexer_t *l);
 static int u_uri_expect_pct_encoded (u_lexer_t *l);
+static int u_uri_expect_segment (u_lexer_t *l);
 static int u_uri_expect_segment_nz (u_lexer_t *l);
 static int u_uri_expect_path_abempty (u_lexer_t *l);
 static int u_uri_query_first (u_lexer_t *l);
@@ -719,16 +720,18 @@ err:
     return ~0;
 }
 
-/* ['/'] segment-nz path-abempty 
+/* "/" [ segment-nz path-abempty ] / segment-nz path-abempty 
  * Absorbs both rootless and absolute paths. */
 static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
 {
     u_lexer_record_lmatch(l);
 
+    /* What follows a leading '/' may be empty. */
     if (u_lexer_peek(l) == '/')
-        U_LEXER_NEXT(l, NULL);
-    
-    warn_err_if (u_uri_expect_segment_nz(l));
+        warn_err_if (u_uri_expect_segment(l));
+    else
+        warn_err_if (u_uri_expect_segment_nz(l));
+
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From 833e354b69987aa4083b967100e49dcf00ff786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 045/129] fix: split a userinfo with an empty user name

---
 srcs/toolbox/uri.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index e65676a..6609f27 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -669,7 +669,6 @@ err:
 /* TODO: refine ! */
 static int u_uri_crumble_user_password (u_uri_t *u)
 {
-    char c;
     u_lexer_t *l = NULL;
 
     dbg_return_if (!strlen(u->userinfo), ~0);
@@ -680,8 +679,8 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     /* User name. */
     u_lexer_record_lmatch(l);
 
-    /* Assume there is at least one char available. */
-    do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
+    while (u_lexer_peek(l) != ':' && !u_lexer_eot(l))
+        (void) u_lexer_next(l, NULL);
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->user));
@@ -695,7 +694,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     /* Password. */
     u_lexer_record_lmatch(l);
 
-    do u_lexer_next(l, &c); while (!u_lexer_eot(l));
+    do u_lexer_next(l, NULL); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
-- 
2.43.0


From 9e3cf7de5568d07a9c73d8c270b9fcc9b6c77cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:21 +0000
Subject: [PATCH 046/129] fix: give the authority of a split URI

---
 srcs/toolbox/uri.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 6609f27..68d47a2 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -318,6 +318,13 @@ err:
 }
 
 #define U_URI_GETSET_F(field)                                       \
+        U_URI_GETSET_EX_F(field, (void) 0)
+
+/* Changing one of its atoms invalidates the authority as a whole. */
+#define U_URI_GETSET_ATOM_F(field)                                  \
+        U_URI_GETSET_EX_F(field, uri->authority[0] = '\0')
+
+#define U_URI_GETSET_EX_F(field, onset)                             \
 const char *u_uri_get_##field (u_uri_t *uri)                        \
 {                                                                   \
     dbg_return_if (uri == NULL, NULL);                              \
@@ -330,6 +337,7 @@ int u_uri_set_##field (u_uri_t *uri, const char *val)               \
     dbg_return_if (val == NULL, ~0);                                \
                                                                     \
     dbg_err_if (u_strlcpy(uri->field, val, sizeof uri->field));     \
+    onset;                                                          \
                                                                     \
     return 0;                                                       \
 err:                                                                \
@@ -337,11 +345,11 @@ err:                                                                \
 }
 
 U_URI_GETSET_F(scheme)
-U_URI_GETSET_F(userinfo)
-U_URI_GETSET_F(user)
-U_URI_GETSET_F(pwd)
-U_URI_GETSET_F(host)
-U_URI_GETSET_F(port)
+U_URI_GETSET_ATOM_F(userinfo)
+U_URI_GETSET_ATOM_F(user)
+U_URI_GETSET_ATOM_F(pwd)
+U_URI_GETSET_ATOM_F(host)
+U_URI_GETSET_ATOM_F(port)
 U_URI_GETSET_F(authority)
 U_URI_GETSET_F(path)
 U_URI_GETSET_F(query)
@@ -445,6 +453,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    size_t len;
     const char *p;
 
     /* Consume "//". */
@@ -464,6 +473,13 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     if (u_uri_port_first(l))
         warn_err_if (u_uri_parse_port(l, u));
 
+    /* Record the authority as a whole. */
+    if ((len = (size_t) (u_lexer_lookahead(l) - p)) < sizeof u->authority)
+    {
+        memcpy(u->authority, p, len);
+        u->authority[len] = '\0';
+    }
+
     /* path-abempty */
     warn_err_if (u_uri_parse_abempty(l, u));
 
-- 
2.43.0


From f3a180094aab3861a76a6ade7a7980b576410022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:33 +0000
Subject: [PATCH 047/129] fix: compose URIs without authority, and keep
 authority and path apart

---
 srcs/toolbox/uri.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 68d47a2..6875547 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -152,6 +152,8 @@ err:
  */ 
 int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
 {
+    size_t alen;
+
     dbg_return_if (u == NULL, ~0);
     dbg_return_if (s == NULL, ~0);
 
@@ -165,6 +167,8 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
         dbg_err_if (u_strlcat(s, ":", U_URI_STRMAX));
     }
 
+    alen = strlen(s);
+
     if (strlen(u->authority))
     {
         dbg_err_if (u_strlcat(s, "//", U_URI_STRMAX));
@@ -173,6 +177,10 @@ int u_uri_knead (u_uri_t *u, char s[U_URI_STRMAX])
     else /* try recompose authority through its atoms */
         dbg_err_if (u_uri_knead_authority(u, s));
 
+    /* The path that follows an authority is either empty or absolute. */
+    if (strlen(s) > alen && u->path[0] != '\0' && u->path[0] != '/')
+        dbg_err_if (u_strlcat(s, "/", U_URI_STRMAX));
+
     dbg_err_if (u_strlcat(s, u->path, U_URI_STRMAX));
 
     if (strlen(u->query))
@@ -934,9 +942,14 @@ static int u_uri_expect_path_abempty (u_lexer_t *l)
 static int u_uri_knead_authority (u_uri_t *u, char s[U_URI_STRMAX])
 {
     dbg_return_if (u == NULL, ~0);
-    dbg_return_if (strlen(u->host) == 0, ~0);
     dbg_return_if (s == NULL, ~0);
 
+    /* The authority is optional: its empty form is needed only to keep a path 
+     * with an empty first segment from being taken for it. */
+    if (!strlen(u->host) && !strlen(u->userinfo) && !strlen(u->user) && 
+            !strlen(u->port) && strncmp(u->path, "//", 2))
+        return 0;
+
     /* If host is IPv6 literal, automatically add the IPLITERAL flag.
      * XXX Lousy test, we'd better parse it through u_uri_parse_ipliteral() */
     if (strchr(u->host, ':'))
-- 
2.43.0


From bf8adb78fe1d5f0c26181d64a62baaffd43d3422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 048/129] fix: ignore earlier errors when converting text to
 integers

---
 srcs/toolbox/misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..c2e4615 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -721,6 +721,9 @@ int u_atol (const char *nptr, long *pl)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
  
+    /* Reset errno. */
+    errno = 0;
+
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -800,6 +803,9 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
  
+    /* Reset errno. */
+    errno = 0;
+
     tmp = strtoumax(nptr, (char **) NULL, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
-- 
2.43.0


From 839d4883eb62de57da72afb545253d6201863d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:07 +0000
Subject: [PATCH 049/129] fix: refuse text without digits in u_atoumax

---
 srcs/toolbox/misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index c2e4615..4b873a0 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -797,6 +797,7 @@ err:
  */
 int u_atoumax (const char *nptr, uintmax_t *pumax)
 {
+    char *endptr;
     uintmax_t tmp; 
     int saved_errno = errno;
 
@@ -806,10 +807,13 @@ int u_atoumax (const char *nptr, uintmax_t *pumax)
     /* Reset errno. */
     errno = 0;
 
-    tmp = strtoumax(nptr, (char **) NULL, 10);
+    tmp = strtoumax(nptr, &endptr, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
     dbg_err_if (tmp == UINTMAX_MAX && errno == ERANGE);
+
+    /* check if no valid digit string was supplied (see u_atol) */
+    dbg_err_ifm (nptr == endptr, "invalid base10 string: %s", nptr);
         
     *pumax = tmp;
     
-- 
2.43.0


From ab63912e1a1a303164fca88ed50cb032090fd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 050/129] fix: stay inside a token array of one cell

---
 srcs/toolbox/misc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 4b873a0..eac05e1 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -913,15 +913,14 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* the last cell is left to the stopper */
+    for ( ; ap < &tokv[tokv_sz - 1] && (*ap = strsep(&wlist, delim)) != NULL; )
     {
         /* skip empty field */
         if (**ap == '\0')
             continue;
 
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
-            break;
+        ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From bccd9bbad3647fc21c6447b676180a9f284cb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:41 +0000
Subject: [PATCH 051/129] fix: discard log messages that do not fit the buffer
 as a whole

---
 srcs/toolbox/log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..dec82b7 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -99,6 +99,7 @@ static inline const char* u_log_label(int lev)
 static int u_log(int fac, int level, const char *fmt, ...)
 {
     va_list ap;
+    int rc;
     char buf[U_MAX_LOG_LENGTH];
 
     va_start(ap, fmt); 
@@ -107,7 +108,8 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
-- 
2.43.0


From e9475c929ddb6859ef70605688133595c8285f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 052/129] fix: report log messages that are not delivered

---
 srcs/toolbox/log.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index dec82b7..a3d8f1d 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -159,8 +159,8 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
-        goto err; /* message too long */
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
+        goto err; /* message too long (or output error) */
 
     /* init empty strings */
     errmsg[0] = strerr[0] = 0;
@@ -174,12 +174,15 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
 
     /* ok, send the msg to the logger */
     if(flags & LOG_WRITE_FLAG_CTX)
-        u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
                u_log_label(lev), getpid(), file, line, func, msg, errmsg);
     else
-        u_log(fac, lev, "[%s][%d:::] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:::] %s %s", 
                u_log_label(lev), getpid(), msg, errmsg);
 
+    if(rc)
+        goto err;
+
     restore_errno(savederr);
     return 0;
 err:
-- 
2.43.0


From 3846d912a7f9c364407706a853b4a15b77609f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 053/129] fix: read configuration lines whole

---
 srcs/toolbox/config.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..d794615 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1078,25 +1078,29 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
 {
     enum { BUFSZ = 1024 };
     char buf[BUFSZ], *p = NULL;
-    ssize_t len;
+    size_t len;
+    int got = 0;
 
     u_string_clear(ln);
 
     while((p = cb(arg, buf, BUFSZ)) != NULL)
     {
+        got = 1;
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
-        dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
+
+        if(buf[len - 1] == '\n')
+        {
+            dbg_err_if(u_string_append(ln, buf, len - 1));
             break;
-    }
+        }
 
-    nop_err_if(p == NULL); /* eof */
+        /* line's longer the bufsz (or eof); get next line chunk */
+        dbg_err_if(u_string_append(ln, buf, len));
+    }
 
-    return 0;
+    return got ? 0 : 1; /* 1: eof */
 err:
     return ~0;
 }
-- 
2.43.0


From 654b113d6ed87248109931d18028c3fa5afa04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 054/129] fix: report lines that can't be read when loading a
 configuration

---
 srcs/toolbox/config.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index d794615..8a81d5b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1112,7 +1112,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int lineno = 1, rc = 0;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1123,7 +1123,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
+            u_string_clear(line), ++lineno)
     {
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1211,7 +1212,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
     }
-    
+
+    dbg_err_if(rc < 0);
+
     u_string_free(lastkey);
     u_string_free(value);
     u_string_free(key);
-- 
2.43.0


From 9a95fb1ee73cb2fe49a7a0dd0a04a7ac384e56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 055/129] fix: report read errors when loading a configuration
 file

---
 srcs/toolbox/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 8a81d5b..c53388e 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -601,6 +601,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     dbg_err_if(file == NULL);
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(ferror(file));
 
     fclose(file);
 
-- 
2.43.0


From f4829c53e264314e8a1be0d4f1f2bbc0fd908184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 056/129] fix: report read errors when loading a configuration
 file through the driver

---
 srcs/toolbox/config_fs.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config_fs.c b/srcs/toolbox/config_fs.c
index fbd5d06..5f7f441 100644
--- a/srcs/toolbox/config_fs.c
+++ b/srcs/toolbox/config_fs.c
@@ -48,15 +48,18 @@ err:
 
 static int drv_fs_close (void *arg)
 {
-    int rc;
+    int rc, failed;
     FILE *file = (FILE *) arg;
 
     dbg_return_if (file == NULL, ~0);
 
+    /* the file has to be read up to its end, not to an error */
+    failed = ferror(file);
+
     if ((rc = fclose(file)) != 0)
         dbg_strerror(errno);
 
-    return (rc == 0) ? 0 : ~0;
+    return (rc == 0 && !failed) ? 0 : ~0;
 }
 
 static char *drv_fs_gets (void *arg, char *buf, size_t size)
-- 
2.43.0


From 3ab5e97241988e7fc80e056c253f31a23112e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 057/129] fix: don't leak the duplicated descriptor when a
 configuration stream can't be opened

---
 srcs/toolbox/config.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index c53388e..adb0630 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -595,9 +595,13 @@ err:
 int u_config_load (u_config_t *c, int fd, int overwrite)
 {
     FILE *file = NULL;
+    int dfd = -1;
 
     /* must dup because fclose() calls close(2) on fd */
-    file = fdopen(dup(fd), "r");
+    dfd = dup(fd);
+    dbg_err_if(dfd == -1);
+
+    file = fdopen(dfd, "r");
     dbg_err_if(file == NULL);
 
     dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
@@ -607,6 +611,8 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
 
     return 0;
 err:
+    if (file == NULL && dfd != -1)
+        close(dfd);
     U_FCLOSE(file);
     return ~0;
 }
-- 
2.43.0


From 9da6d74d32cb2bf9b7b9d3379d24edf60adc5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 058/129] fix: open configuration groups only right after their
 name

---
 srcs/toolbox/config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index adb0630..c3f38f7 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1218,6 +1218,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                         u_string_c(key), 
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
+
+        /* an open bracket can only follow a no-value key */
+        dbg_err_if(u_string_clear(lastkey));
     }
 
     dbg_err_if(rc < 0);
-- 
2.43.0


From 9c5d3169cff04621776eba0efa34e18e4e1b1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 059/129] fix: match the braces of each configuration text on
 their own

---
 srcs/toolbox/config.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index c3f38f7..8a9d838 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -46,7 +46,7 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, int nested);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
         u_config_t *inckey, int overwrite);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
@@ -569,7 +569,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
 
     return 0;
 err:
@@ -604,7 +604,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     file = fdopen(dfd, "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
     dbg_err_if(ferror(file));
 
     fclose(file);
@@ -907,7 +907,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         dbg_err_if (drv->close(arg));
@@ -996,7 +996,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
 
     *pc = c;
 
@@ -1113,7 +1113,7 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, int nested)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
@@ -1167,13 +1167,13 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!nested,"config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
@@ -1224,6 +1224,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     }
 
     dbg_err_if(rc < 0);
+    crit_err_ifm(nested && rc, "config error: missing '}'");
 
     u_string_free(lastkey);
     u_string_free(value);
@@ -1282,7 +1283,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         crit_err_ifm (drv->close(arg),
-- 
2.43.0


From 54b9bf89666abb69a81546e9a435a42da96b15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 060/129] fix: record configuration include directives once

---
 srcs/toolbox/config.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 8a9d838..44c5974 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1205,19 +1205,18 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
             else                            /* failure is critical */
                 dbg_err_if(u_config_include(c, drv, subkey, overwrite));
         } 
-
-        /* if the valus is empty an open bracket will follow, save the key */
-        if(u_string_len(value) == 0)
+        else if(u_string_len(value) == 0)
         {
+            /* if the valus is empty an open bracket will follow, save the key */
             dbg_err_if(u_string_set(lastkey, ln, p-ln));
             continue;
         }
-
-        /* add to the var list */
-        dbg_err_if(u_config_do_set_key(c, 
-                        u_string_c(key), 
-                        u_string_len(value) ? u_string_c(value) : NULL, 
-                        overwrite, NULL));
+        else
+        {
+            /* add to the var list */
+            dbg_err_if(u_config_do_set_key(c, u_string_c(key), 
+                        u_string_c(value), overwrite, NULL));
+        }
 
         /* an open bracket can only follow a no-value key */
         dbg_err_if(u_string_clear(lastkey));
-- 
2.43.0


From ba10d6c7ac282577c3db6a8421556758029fba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 061/129] fix: end circular includes with an error

---
 srcs/toolbox/config.c | 57 ++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 44c5974..fa3b248 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -22,6 +22,15 @@
 TAILQ_HEAD(u_config_list_s, u_config_s);
 typedef struct u_config_list_s u_config_list_t;
 
+/* what is being loaded: included files and the sections open in them */
+struct u_config_src_s
+{
+    const char *uri;                    /* included file, NULL: a section */
+    int lev;                            /* nesting level                  */
+    const struct u_config_src_s *up;    /* what it is nested in           */
+};
+typedef struct u_config_src_s u_config_src_t;
+
 struct u_config_s
 {
     TAILQ_ENTRY(u_config_s) np; /* next & prev pointers */
@@ -46,9 +55,9 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested);
+        void *arg, int overwrite, const u_config_src_t *src);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite);
+        u_config_t *inckey, int overwrite, const u_config_src_t *src);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
@@ -569,7 +578,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, NULL));
 
     return 0;
 err:
@@ -604,7 +613,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     file = fdopen(dfd, "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, NULL));
     dbg_err_if(ferror(file));
 
     fclose(file);
@@ -907,7 +916,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, NULL));
 
     if(drv->close)
         dbg_err_if (drv->close(arg));
@@ -996,7 +1005,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, NULL));
 
     *pc = c;
 
@@ -1113,9 +1122,11 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite, int nested)
+        void *arg, int overwrite, const u_config_src_t *src)
 {
-    enum { MAX_NEST_LEV = 20 };
+    enum { MAX_NEST_LEV = 64 };
+    int nested = (src && src->uri == NULL);
+    u_config_src_t sect = { NULL, src ? src->lev + 1 : 1, src };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
@@ -1129,6 +1140,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
     dbg_err_if(u_string_create(NULL, 0, &lastkey));
 
     dbg_err_if(drv->gets == NULL);
+    crit_err_ifm(src && src->lev > MAX_NEST_LEV, 
+            "config error: too many nested sections or includes");
 
     for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
             u_string_clear(line), ++lineno)
@@ -1167,7 +1180,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, &sect));
 
             dbg_err_if(u_string_clear(lastkey));
 
@@ -1201,9 +1214,9 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
             /* load the included file */
             if (u_string_c(key)[0] == '-')  /* failure is not critical */
-                dbg_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_if(u_config_include(c, drv, subkey, overwrite, src));
             else                            /* failure is critical */
-                dbg_err_if(u_config_include(c, drv, subkey, overwrite));
+                dbg_err_if(u_config_include(c, drv, subkey, overwrite, src));
         } 
         else if(u_string_len(value) == 0)
         {
@@ -1244,10 +1257,9 @@ err:
 }
 
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
-        u_config_t *inckey, int overwrite)
+        u_config_t *inckey, int overwrite, const u_config_src_t *src)
 {
-    u_config_t *subkey;
-    int i;
+    u_config_src_t inc = { NULL, src ? src->lev + 1 : 1, src };
     const char *p, *path;
     void *arg = NULL;
     char uri[U_FILENAME_MAX + 1];
@@ -1257,12 +1269,6 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     path = u_config_get_value(inckey);
     dbg_err_if(path == NULL);
 
-    for(i = 0; u_config_get_subkey_nth(c, "include", i, &subkey) == 0; ++i)
-    {
-        if(subkey != inckey && !strcmp(path, u_config_get_value(subkey)))
-            crit_err("circular dependency error loading %s", path);
-    }
-
     /* find the end of the key string */
     for(p = path; *p && u_isblank(*p); ++p);
 
@@ -1277,12 +1283,19 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
         dbg_err_if (drv->resolv(p, uri, sizeof(uri)));
 
         p = uri;
-    } 
+    }
+
+    /* a file can't be included while it is being loaded */
+    for(; src; src = src->up)
+        crit_err_ifm(src->uri && !strcmp(src->uri, p),
+            "circular dependency error loading %s", p);
+
+    inc.uri = p;
 
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, &inc));
 
     if(drv->close)
         crit_err_ifm (drv->close(arg),
-- 
2.43.0


From 712deba4e90e8a66e88e0f6c7051da8af43ce9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 062/129] fix: close configuration sources once

---
 srcs/toolbox/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index fa3b248..8013642 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -903,7 +903,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
         int overwrite, u_config_t **pc)
 {
     u_config_t *c = NULL;
-    void *arg = NULL;
+    void *arg = NULL, *opened;
 
     dbg_err_if (uri == NULL);
     dbg_err_if (pc == NULL);
@@ -918,8 +918,9 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
 
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, NULL));
 
+    opened = arg, arg = NULL;
     if(drv->close)
-        dbg_err_if (drv->close(arg));
+        dbg_err_if (drv->close(opened));
 
     *pc = c;
 
-- 
2.43.0


From 40102787a4456db631688787b838cfe1f0f39a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 063/129] fix: close included configuration sources once

---
 srcs/toolbox/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 8013642..90cd4dc 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1262,7 +1262,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 {
     u_config_src_t inc = { NULL, src ? src->lev + 1 : 1, src };
     const char *p, *path;
-    void *arg = NULL;
+    void *arg = NULL, *opened;
     char uri[U_FILENAME_MAX + 1];
 
     dbg_err_if(c == NULL);
@@ -1298,8 +1298,9 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, &inc));
 
+    opened = arg, arg = NULL;
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
+        crit_err_ifm (drv->close(opened),
             "unable to close input file: %s", p);
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
-- 
2.43.0


From a0c9b23b64781ea2a2a013a6d4855a311fdb1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 064/129] fix: release a configuration key that can't be added

---
 srcs/toolbox/config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 90cd4dc..dc3ff8d 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -333,6 +333,8 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    if(child)
+        u_config_free(child);
     return ~0;
 }
 
-- 
2.43.0


From 9067bc9a2bf20b36a535d100a583f7c9f5157205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 065/129] fix: release the first part of a dotted key that
 can't be added

---
 srcs/toolbox/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index dc3ff8d..54035cd 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1066,7 +1066,7 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
     u_config_t *child = NULL;
-    char *p, *child_key;
+    char *p, *child_key = NULL;
 
     if((p = strchr(key, '.')) == NULL)
     {
@@ -1090,6 +1090,7 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
     }
     return 0;
 err:
+    U_FREE(child_key);
     return ~0;
 }
 
-- 
2.43.0


From ed7fe5d2a926659c7e4b9f05351369d6223fe1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 066/129] fix: resolve variable references in the value of the
 root

---
 srcs/toolbox/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 54035cd..a93c193 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -494,7 +494,8 @@ int u_config_set_value (u_config_t *c, const char *val)
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
             root = c->parent;
-            if(u_config_get_subkey(root, u_string_c(var), &ignore))
+            if(root == NULL || 
+                    u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
 
-- 
2.43.0


From 202bc9f2a4e8353e63e50d6a2a1e93e6e5e7cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 067/129] fix: honour the position in lookups of dotted keys

---
 srcs/toolbox/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index a93c193..676667a 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -417,7 +417,7 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         }
 
         if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
+            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From 0d1a9d7ce95842f4430cce39cd5bedbec581f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 068/129] fix: report configurations that can't be saved whole

---
 srcs/toolbox/config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 676667a..c3d1752 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1330,18 +1330,19 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
+                    (c->value ? c->value : "")));
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "{\n"));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "}\n"));
     }
 
     return 0;
-- 
2.43.0


From c908723dedfc60232eca68a4aa6e6bcd7403a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 069/129] fix: don't save optional include directives

---
 srcs/toolbox/config.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index c3d1752..2064459 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -62,6 +62,7 @@ static void u_config_del_key (u_config_t *c, u_config_t *child);
 static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
+static int u_config_is_include (const char *key);
 
 
 /**
@@ -255,7 +256,7 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
     /* "include" directives are skipped since that wouldn't give semantical 
      * equivalence to the dumped object (included key/val's are already 
      * there) */
-    if (c->key && strcmp(c->key, "include"))
+    if (c->key && !u_config_is_include(c->key))
     {
         fprintf(fp, "%s", c->key);
         if (c->value != NULL) 
@@ -1208,8 +1209,7 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
         dbg_err_if(u_string_set(value, p, strlen(p)));
         dbg_err_if(u_string_trim(value));
 
-        if(!strcmp(u_string_c(key), "include") ||     /* forced dependency */
-                !strcmp(u_string_c(key), "-include")) /* optional dependency */
+        if(u_config_is_include(u_string_c(key)))
         {
             crit_err_ifm(u_string_len(value) == 0, "missing include filename");
 
@@ -1329,7 +1329,7 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(c == NULL);
     dbg_err_if(s == NULL);
 
-    if(c->key && strcmp(c->key, "include"))
+    if(c->key && !u_config_is_include(c->key))
         dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
                     (c->value ? c->value : "")));
     
@@ -1350,6 +1350,12 @@ err:
     return ~0;
 }
 
+static int u_config_is_include (const char *key)
+{
+    return (!strcmp(key, "include") ||      /* forced dependency */
+            !strcmp(key, "-include"));      /* optional dependency */
+}
+
 static char *u_config_buf_gets (void *arg, char *buf, size_t size)
 {
     struct u_config_buf_s *g = (struct u_config_buf_s*)arg;
-- 
2.43.0


From 7b5fea56c25ab38d0f78d4ff1f6b6469d35abcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 070/129] fix: escape hash signs when saving a configuration

---
 srcs/toolbox/config.c | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 2064459..1b607fa 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -63,6 +63,8 @@ static int u_config_to_str (u_config_t *c, u_string_t *s);
 static char *u_config_buf_gets (void *arg, char *buf, size_t size);
 static int u_config_remove_comment(u_string_t *line);
 static int u_config_is_include (const char *key);
+static int u_config_append_escaped (u_string_t *s, const char *text);
+static void u_config_print_escaped (FILE *fp, const char *text);
 
 
 /**
@@ -258,9 +260,12 @@ void u_config_print_to_fp (u_config_t *c, FILE *fp, int lev)
      * there) */
     if (c->key && !u_config_is_include(c->key))
     {
-        fprintf(fp, "%s", c->key);
+        u_config_print_escaped(fp, c->key);
         if (c->value != NULL) 
-            fprintf(fp, "\t%s", c->value);
+        {
+            fputc('\t', fp);
+            u_config_print_escaped(fp, c->value);
+        }
         fputs("\n", fp);
     }
 
@@ -1330,8 +1335,13 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && !u_config_is_include(c->key))
-        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
-                    (c->value ? c->value : "")));
+    {
+        dbg_err_if(u_config_append_escaped(s, c->key));
+        dbg_err_if(u_string_aprintf(s, " "));
+        if(c->value)
+            dbg_err_if(u_config_append_escaped(s, c->value));
+        dbg_err_if(u_string_aprintf(s, "\n"));
+    }
     
     if(u_config_has_children(c))
     {
@@ -1350,6 +1360,31 @@ err:
     return ~0;
 }
 
+/* the comment sign has to be escaped in keys and values */
+static int u_config_append_escaped (u_string_t *s, const char *text)
+{
+    for(; *text; ++text)
+    {
+        if(*text == '#')
+            dbg_err_if(u_string_append(s, "\\", 1));
+        dbg_err_if(u_string_append(s, text, 1));
+    }
+
+    return 0;
+err:
+    return ~0;
+}
+
+static void u_config_print_escaped (FILE *fp, const char *text)
+{
+    for(; *text; ++text)
+    {
+        if(*text == '#')
+            fputc('\\', fp);
+        fputc(*text, fp);
+    }
+}
+
 static int u_config_is_include (const char *key)
 {
     return (!strcmp(key, "include") ||      /* forced dependency */
-- 
2.43.0


From 3a278b179fead13124565372490ec72139d9a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 071/129] fix: report read errors and short writes when copying
 files

---
 srcs/toolbox/fs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..5859c11 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -49,8 +49,9 @@ int u_copy (const char *src, const char *dst)
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
     dbg_err_sif(fclose(sfp)); sfp = NULL;
 
-- 
2.43.0


From c0a4efbe457a8f70c087432685f2d6352eafac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 072/129] fix: close copied files once

---
 srcs/toolbox/fs.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 5859c11..5e08b40 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -36,6 +36,7 @@ int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
     size_t c;
+    int rc;
     char buf[4096];
 
     dbg_return_if (src == NULL, ~0);
@@ -53,9 +54,10 @@ int u_copy (const char *src, const char *dst)
     }
     dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
-
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    rc = fclose(sfp); sfp = NULL;
+    dbg_err_sif(rc);
+    rc = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(rc, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From e9581f1ba00ab139d08c1529e3d4221c4dd9b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 073/129] fix: don't copy a file onto itself

---
 srcs/toolbox/fs.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index 5e08b40..b043efa 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -35,6 +35,7 @@
 int u_copy (const char *src, const char *dst)
 {
     FILE *sfp = NULL, *dfp = NULL;
+    struct stat ssb, dsb;
     size_t c;
     int rc;
     char buf[4096];
@@ -45,6 +46,14 @@ int u_copy (const char *src, const char *dst)
     sfp = fopen(src, "rb");
     dbg_err_sifm(sfp == NULL, "unable to open %s for reading", src);
 
+    /* opening for writing would truncate the source */
+    dbg_err_sif(fstat(fileno(sfp), &ssb) == -1);
+    if(stat(dst, &dsb) == 0)
+        dbg_err_ifm(ssb.st_dev == dsb.st_dev && ssb.st_ino == dsb.st_ino, 
+                "%s and %s are the same file", src, dst);
+    else
+        dbg_err_sif(errno != ENOENT);
+
     dfp = fopen(dst, "wb+");
     dbg_err_sifm(dfp == NULL, "unable to open %s for writing", dst);
 
-- 
2.43.0


From 921192792943b77c5cddd329b9c1a4f3d2f06bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 074/129] fix: report moved files whose source can't be removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index b043efa..180f052 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -106,7 +106,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From 16a2e436f0d13d64d2232e2f50560ae6262b3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 075/129] fix: dump empty data, and report dumps that fail to
 reach the file

---
 srcs/toolbox/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index eac05e1..8e852d6 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -500,10 +500,12 @@ inline void u_use_unused_args (char *dummy, ...)
 int u_data_dump (char *data, size_t sz, const char *file)
 {
     FILE *fp = NULL;
+    int rc;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz > 0 && fwrite(data, sz, 1, fp) < 1);
+    rc = fclose(fp), fp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
-- 
2.43.0


From d98791c0d436fbd97122806528e663c19b679b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 076/129] fix: report process ids that fail to reach the file

---
 srcs/toolbox/misc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 8e852d6..bfcfbf3 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -430,12 +430,14 @@ err:
 int u_savepid (const char *pf)
 {
     FILE *pfp = NULL;
+    int rc;
 
     dbg_return_if (pf == NULL, ~0);
 
     dbg_err_sif ((pfp = fopen(pf, "w")) == NULL);
-    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) == 0);
-    fclose(pfp);
+    dbg_err_sif (fprintf(pfp, "%ld\n", (long) getpid()) < 0);
+    rc = fclose(pfp), pfp = NULL;
+    dbg_err_sif (rc);
 
     return 0;
 err:
-- 
2.43.0


From 4a4fea97e348c13634bf31481743809333f69662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 077/129] fix: load empty files

---
 srcs/toolbox/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index bfcfbf3..318257f 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -543,8 +543,8 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz ? sz : 1)) == NULL);
+    dbg_err_sifm (sz > 0 && fread(buf, sz, 1, fp) != 1, "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From 40f12001366858d9a0cedfbab4d7210e6048c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 078/129] fix: load empty files into buffers

---
 srcs/toolbox/buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index ea7a5d6..6455550 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -130,7 +130,7 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
 
     /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+    dbg_err_if (st.st_size > 0 && fread(ubuf->data, st.st_size, 1, fp) != 1);
     ubuf->len = st.st_size;
 
     (void) fclose(fp);
-- 
2.43.0


From 6df9e0a55756d405e99b1dff68e76686654d47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 079/129] fix: terminate buffers loaded from files

---
 srcs/toolbox/buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 6455550..2426707 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -132,6 +132,8 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     /* fill the buffer with the whole file content */
     dbg_err_if (st.st_size > 0 && fread(ubuf->data, st.st_size, 1, fp) != 1);
     ubuf->len = st.st_size;
+    if (ubuf->data)
+        ubuf->data[ubuf->len] = '\0';
 
     (void) fclose(fp);
 
-- 
2.43.0


From 61fb622c7f5c88cb5307832bbdc70a62debc2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 080/129] fix: set environment variables from whole lines

---
 srcs/toolbox/env.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index d95236b..8fc8699 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -12,6 +12,8 @@
 #include <toolbox/env.h>
 #include <toolbox/carpal.h>
 #include <toolbox/misc.h>
+#include <toolbox/memory.h>
+#include <toolbox/str.h>
 
 /**
     \defgroup env Environment
@@ -88,7 +90,10 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char line[BUFSZ], pcmd[BUFSZ], *val;
+    char buf[BUFSZ], pcmd[BUFSZ], *name = NULL, *p;
+    const char *val;
+    int eof = 0;
+    u_string_t *line = NULL;
     FILE *pi = NULL;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
@@ -98,26 +103,44 @@ int u_env_init (const char *prefix, const char *cfile)
 
     dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
 
+    dbg_err_if (u_string_create(NULL, 0, &line));
     dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
 
-    while(fgets(line, BUFSZ-1, pi))
+    while(!eof)
     {
-        if(strncmp(line, prefix, strlen(prefix)) == 0)
+        /* get a whole line, whatever its length */
+        dbg_err_if(u_string_clear(line));
+        while(!(eof = (fgets(buf, BUFSZ, pi) == NULL)))
         {
-            line[strlen(line)-1] = 0;
-            val = strchr(line, '=');
+            if((p = strchr(buf, '\n')) != NULL)
+                *p = 0;
+            dbg_err_if(u_string_append(line, buf, strlen(buf)));
+            if(p != NULL)
+                break;
+        }
+        dbg_err_if(ferror(pi));
+
+        if(strncmp(u_string_c(line), prefix, strlen(prefix)) == 0)
+        {
+            val = strchr(u_string_c(line), '=');
             if(!val)
                 continue; /* should never happen... */
-            *val++ = 0;
-            /* line is the name and val the value */
-            dbg_err_if(setenv(line, val, 1));
+            dbg_err_if((name = u_strndup(u_string_c(line), 
+                            val - u_string_c(line))) == NULL);
+            dbg_err_if(setenv(name, ++val, 1));
+            U_FREE(name);
         }
     }
 
+    u_string_free(line);
+
     pclose(pi);
     return 0;
 err:
     U_PCLOSE(pi);
+    U_FREE(name);
+    if(line)
+        u_string_free(line);
     return ~0;
 }
 
-- 
2.43.0


From d679fdfca78d121bc7e2edd18cf17c8c47178be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 081/129] fix: let the last entry of a user prevail in memory

---
 srcs/toolbox/pwd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..41ca84a 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -628,6 +628,7 @@ static int u_pwd_db_new (u_pwd_t *pwd)
 
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
+    dbg_err_if (u_hmap_opts_unset_option(hopts, U_HMAP_OPTS_NO_OVERWRITE));
             
     return u_hmap_easy_new(hopts, &pwd->db);
 err:
-- 
2.43.0


From 1317fb40060436c3daa7a1274ae7461d2f4f7178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 082/129] fix: release the options of in-memory password
 databases

---
 srcs/toolbox/pwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 41ca84a..3062a4a 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -630,7 +630,11 @@ static int u_pwd_db_new (u_pwd_t *pwd)
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
     dbg_err_if (u_hmap_opts_unset_option(hopts, U_HMAP_OPTS_NO_OVERWRITE));
             
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From c6e056c778404cd7237d0fa76ac9abaab04434d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 083/129] fix: read password lines whole

---
 srcs/toolbox/pwd.c | 58 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 3062a4a..819c27f 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -29,6 +29,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
         u_pwd_rec_t **prec);
 
 /* res ops */
+static int u_pwd_res_line (u_pwd_t *pwd, char *ln, size_t size, size_t *plc);
 static int u_pwd_res_open (u_pwd_t *pwd);
 static void u_pwd_res_close (u_pwd_t *pwd);
 
@@ -460,12 +461,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     u_snprintf(uu, sizeof uu, "%s:", user);
     
     /* read line by line */
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 0; u_pwd_res_line(pwd, ln, sizeof ln, &lc) == 0; )
     {
-        /* skip comments */
-        if (ln[0] == '#')
-            continue;
-
         /* check if we're on user line, in case break the read loop... 
          * this is different from using the in-memory version in case an 
          * entry is duplicated: in-memory matches the last entry, here
@@ -480,10 +477,6 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
-
     /* tokenize line: expect at least 2 fields: user and password */
     dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
             "bad syntax at line %zu (%s)", lc, ln);
@@ -526,6 +519,43 @@ static int u_pwd_res_open (u_pwd_t *pwd)
     return pwd->cb_open(pwd->res_uri, &pwd->res_handler);
 }
 
+/* get next line which is not blank nor a comment, without its terminator;
+ * lines that don't fit are skipped as a whole */
+static int u_pwd_res_line (u_pwd_t *pwd, char *ln, size_t size, size_t *plc)
+{
+    size_t len;
+    int too_long;
+    char rest[U_PWD_LINE_MAX];
+
+    while (pwd->cb_load(ln, size, pwd->res_handler) != NULL)
+    {
+        ++*plc;
+        too_long = 0;
+        len = strlen(ln);
+
+        if (len && ln[len - 1] == '\n')
+            ln[len - 1] = '\0';
+        else if (len + 1 == size)
+        {
+            /* go through what's left of the line, if anything */
+            while (pwd->cb_load(rest, sizeof rest, pwd->res_handler) != NULL)
+            {
+                if (strcmp(rest, "\n"))
+                    too_long = 1;
+                if (strchr(rest, '\n'))
+                    break;
+            }
+        }
+
+        if (too_long)
+            u_info("line %zu is too long", *plc);
+        else if (ln[0] != '\0' && ln[0] != '#')
+            return 0;
+    }
+
+    return ~0;  /* no more lines */
+}
+
 static void u_pwd_res_close (u_pwd_t *pwd)
 {
     nop_return_if (pwd->res_handler == NULL, );
@@ -667,7 +697,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 1; pwd->cb_load(ln, sizeof ln, pwd->res_handler) != NULL; lc++)
+    for (lc = 0; u_pwd_res_line(pwd, ln, sizeof ln, &lc) == 0; )
     {
         /* cleanup strtok rubbish from the previous loop */
         if (toks)
@@ -676,14 +706,6 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             toks = NULL;
         }
 
-        /* skip comment lines */
-        if (ln[0] == '#')
-            continue;
-
-        /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
-
         /* tokenize line */
         dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
         {
-- 
2.43.0


From d332d821776b0a6ac8e90dfa7721e1471e4a054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 084/129] fix: report read errors on password files

---
 srcs/toolbox/pwd.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 819c27f..889e514 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -553,7 +553,11 @@ static int u_pwd_res_line (u_pwd_t *pwd, char *ln, size_t size, size_t *plc)
             return 0;
     }
 
-    return ~0;  /* no more lines */
+    /* a file has to be read up to its end, not to an error */
+    if (pwd->cb_load == __file_load && ferror((FILE *) pwd->res_handler))
+        return ~0;
+
+    return 1;   /* no more lines */
 }
 
 static void u_pwd_res_close (u_pwd_t *pwd)
@@ -686,6 +690,7 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
     size_t lc, ntoks;
+    int rc = 0;
     char ln[U_PWD_LINE_MAX];
     char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
     u_pwd_rec_t *rec = NULL;
@@ -697,7 +702,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    for (lc = 0; u_pwd_res_line(pwd, ln, sizeof ln, &lc) == 0; )
+    for (lc = 0; (rc = u_pwd_res_line(pwd, ln, sizeof ln, &lc)) == 0; )
     {
         /* cleanup strtok rubbish from the previous loop */
         if (toks)
@@ -731,9 +736,11 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         rec = NULL;
     }
 
+    dbg_err_if (rc < 0);
+
     if (toks)
         u_strtok_cleanup(toks, ntoks);
- 
+
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-- 
2.43.0


From ec70b71ffbc1e53397a6004b0313bb75ff713313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 085/129] fix: keep the fields of password records apart

---
 srcs/toolbox/pwd.c | 79 ++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 889e514..e887e6c 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -23,6 +23,7 @@ static int u_pwd_need_reload (u_pwd_t *pwd);
 /* u_pwd_rec_t */
 static int u_pwd_rec_new (const char *user, const char *pass, 
         const char *opaque, u_pwd_rec_t **prec);
+static int u_pwd_rec_split (char *ln, char **user, char **pass, char **opaque);
 static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec);
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
@@ -445,9 +446,9 @@ err:
 static int u_pwd_retr_res (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
-    size_t lc, got_it = 0, ntoks;
-    char ln[U_PWD_LINE_MAX], uu[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* expected line fmt is: "name:password[:opaque]\n" */
+    size_t lc, got_it = 0;
+    char ln[U_PWD_LINE_MAX];
+    char *name, *pass, *opaque;
     u_pwd_rec_t *rec = NULL;
 
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -457,17 +458,22 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* open master db */
     dbg_err_if (u_pwd_res_open(pwd));
 
-    /* do suitable search string for strstr(3) */
-    u_snprintf(uu, sizeof uu, "%s:", user);
     
     /* read line by line */
     for (lc = 0; u_pwd_res_line(pwd, ln, sizeof ln, &lc) == 0; )
     {
+        /* expected line fmt is: "name:password[:opaque]\n" */
+        dbg_ifb (u_pwd_rec_split(ln, &name, &pass, &opaque))
+        {
+            u_info("bad syntax at line %zu", lc);
+            continue;
+        }
+
         /* check if we're on user line, in case break the read loop... 
          * this is different from using the in-memory version in case an 
          * entry is duplicated: in-memory matches the last entry, here
          * we would get the first one */
-        if (strstr(ln, uu) == ln)
+        if (strcmp(name, user) == 0)
         {
             got_it = 1;
             break;
@@ -477,16 +483,8 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     /* check if we've reached here due to simple loop exhaustion */
     dbg_err_ifm (!got_it, "user %s not found", user);
 
-    /* tokenize line: expect at least 2 fields: user and password */
-    dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
-            "bad syntax at line %zu (%s)", lc, ln);
-
     /* create new record */
-    dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                &rec));
-
-    /* dispose u_strtok rubbish */
-    u_strtok_cleanup(toks, ntoks);
+    dbg_err_if (u_pwd_rec_new(name, pass, opaque, &rec));
 
     /* dispose resource handler (if a 'close' method has been set) */
     u_pwd_res_close(pwd);
@@ -498,12 +496,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
 err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
-
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     u_pwd_res_close(pwd);
-
     return ~0;
 }
 
@@ -610,6 +603,25 @@ err:
     return ~0;
 }
 
+/* separate (in place) the fields of a record, user and password being 
+ * mandatory; an empty opaque field is the same as none */
+static int u_pwd_rec_split (char *ln, char **user, char **pass, char **opaque)
+{
+    char *p = ln;
+
+    *user = strsep(&p, ":");
+    *pass = strsep(&p, ":");
+    *opaque = strsep(&p, ":");
+
+    if (**user == '\0' || *pass == NULL || **pass == '\0')
+        return ~0;
+
+    if (*opaque && **opaque == '\0')
+        *opaque = NULL;
+
+    return 0;
+}
+
 static int u_pwd_retr_mem (u_pwd_t *pwd, const char *user, 
         u_pwd_rec_t **prec)
 {
@@ -689,10 +701,10 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
-    size_t lc, ntoks;
+    size_t lc;
     int rc = 0;
     char ln[U_PWD_LINE_MAX];
-    char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
+    char *name, *pass, *opaque;
     u_pwd_rec_t *rec = NULL;
     
     dbg_return_if (pwd->res_uri == NULL, ~0);
@@ -704,23 +716,15 @@ static int u_pwd_db_load (u_pwd_t *pwd)
 
     for (lc = 0; (rc = u_pwd_res_line(pwd, ln, sizeof ln, &lc)) == 0; )
     {
-        /* cleanup strtok rubbish from the previous loop */
-        if (toks)
-        {
-            u_strtok_cleanup(toks, ntoks);
-            toks = NULL;
-        }
-
-        /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        /* expected line fmt is: "name:password[:opaque]\n" */
+        dbg_ifb (u_pwd_rec_split(ln, &name, &pass, &opaque))
         {
-            u_info("bad syntax at line %zu (%s)", lc, ln);
+            u_info("bad syntax at line %zu", lc);
             continue;
         }
 
         /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
+        dbg_ifb (u_pwd_rec_new(name, pass, opaque, &rec))
         {
             u_info("could not create record for entry at line %zu", lc);
             continue;
@@ -738,9 +742,6 @@ static int u_pwd_db_load (u_pwd_t *pwd)
 
     dbg_err_if (rc < 0);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
-
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
@@ -751,11 +752,7 @@ err:
     if (rec)
         u_pwd_rec_free(pwd, rec);
 
-    if (toks)
-        u_strtok_cleanup(toks, ntoks);
- 
     u_pwd_res_close(pwd);
-
     return ~0;
 }
 
-- 
2.43.0


From 86af5ef53d99b86b33ce0b35a9ac0442af159938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 086/129] fix: reload password databases as a whole

---
 srcs/toolbox/pwd.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index e887e6c..196ab89 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -427,19 +427,26 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
-    
+    old = pwd->db, pwd->db = NULL;
+
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old)
+        u_hmap_easy_free(old);
+
     return 0;
 err:
+    /* get back to the old snapshot, if any */
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old;
     return ~0;
 }
 
@@ -659,11 +666,15 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
         return 0;
 
-    /* update notified: set .last_mod */
-    pwd->last_mod = update_timestamp;
-    
     /* reload db to memory */
-    return u_pwd_load(pwd);
+    dbg_err_if (u_pwd_load(pwd));
+
+    /* update done: set .last_mod */
+    pwd->last_mod = update_timestamp;
+
+    return 0;
+err:
+    return ~0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
@@ -727,14 +738,14 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         dbg_ifb (u_pwd_rec_new(name, pass, opaque, &rec))
         {
             u_info("could not create record for entry at line %zu", lc);
-            continue;
+            goto err;
         }
 
         /* push rec to db */
         dbg_ifb (u_pwd_db_push(pwd, rec))
         {
             u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
+            goto err;
         }
 
         rec = NULL;
-- 
2.43.0


From ba7e055dbce30131dda3025951412dabf29ef3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 087/129] fix: load in-memory password databases that have no
 notifications

---
 srcs/toolbox/pwd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 196ab89..822eb58 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -660,7 +660,10 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
 
     /* if needed parameters are not set return immediately (no error) */
     nop_return_if (!pwd->in_memory, 0);
-    nop_return_if (pwd->cb_notify == NULL, 0);
+    
+    /* without notifications the db is loaded once */
+    if (pwd->cb_notify == NULL)
+        return pwd->db ? 0 : u_pwd_load(pwd);
 
     /* in case no update has been notified return */
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
-- 
2.43.0


From 35d545d0fe351c2d2ecd3b5c46be7844bcfbd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 088/129] fix: terminate hashed passwords

---
 srcs/toolbox/pwd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 822eb58..cd75435 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -260,7 +260,7 @@ int u_pwd_auth_user (u_pwd_t *pwd, const char *user, const char *password)
     if (pwd->cb_hash)
     {
         /* create a buffer that fits the specific hash function */
-        dbg_err_if ((__p = u_zalloc(pwd->hash_len)) == NULL);
+        dbg_err_if ((__p = u_zalloc(pwd->hash_len + 1)) == NULL);
         (void) pwd->cb_hash(password, strlen(password), __p);
     }
     else
-- 
2.43.0


From 6e1df3f81f1693a5918ed027a854c38144f8dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 089/129] fix: keep the blocking mode of sockets connected at
 once

---
 srcs/toolbox/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..0f0f96c 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -520,7 +520,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+        goto end;
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
@@ -578,6 +579,7 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
+end:
     if (timeout)
         (void) u_net_unset_nonblocking(sd);
 
-- 
2.43.0


From 32298c60eaf8798bfcd426cc06e77c4eb9aaae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 090/129] fix: keep non-blocking sockets so when connecting

---
 srcs/toolbox/net.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 0f0f96c..4c0bc5b 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -496,7 +496,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc;
+    int rc, blocking = 0;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
@@ -507,6 +507,10 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
 
     if (timeout)
     {
+#ifdef HAVE_FCNTL
+        dbg_err_sif ((rc = fcntl(sd, F_GETFL, 0)) == -1);
+        blocking = !(rc & O_NONBLOCK);
+#endif  /* HAVE_FCNTL */
         dbg_err_if (u_net_set_nonblocking(sd));
         dbg_err_sif (gettimeofday(&tstart, NULL) == -1);
     }
@@ -580,12 +584,12 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     }
 
 end:
-    if (timeout)
+    if (blocking)
         (void) u_net_unset_nonblocking(sd);
 
     return 0;
 err:
-    if (timeout)
+    if (blocking)
         (void) u_net_unset_nonblocking(sd);
 
     return (errno == ETIMEDOUT) ? -2 : -1;
-- 
2.43.0


From f4fed98cf4779727c224957044bd6d15009455a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 091/129] fix: report the error of the connection attempt

---
 srcs/toolbox/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 4c0bc5b..0035931 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -496,7 +496,7 @@ int u_connect (int sd, const struct sockaddr *addr, u_socklen_t addrlen)
 int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         struct timeval *timeout)
 {
-    int rc, blocking = 0;
+    int rc, saved_errno, blocking = 0;
     u_socklen_t rc_len = sizeof rc;
     struct timeval tstart, tcopy, *ptcopy = timeout ? &tcopy : NULL;
     fd_set writefds;
@@ -589,8 +589,10 @@ end:
 
     return 0;
 err:
+    saved_errno = errno;
     if (blocking)
         (void) u_net_unset_nonblocking(sd);
+    errno = saved_errno;
 
     return (errno == ETIMEDOUT) ? -2 : -1;
 }
-- 
2.43.0


From 31667d9e8e301ccedc5abe8caeaaebe652d8638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 092/129] fix: don't select descriptors that don't fit

---
 srcs/toolbox/net.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 0035931..ca87665 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -531,6 +531,14 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
+#ifndef OS_WIN
+    if (sd >= (int) FD_SETSIZE)
+    {
+        errno = EINVAL;
+        dbg_err("can't wait on socket %d", sd);
+    }
+#endif  /* !OS_WIN */
+
     FD_ZERO(&writefds);
     FD_SET(sd, &writefds);
 
-- 
2.43.0


From 8558cbef041c84b01fe8b0c525652f07f5159cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 093/129] fix: don't release twice UNIX addresses that can't be
 resolved

---
 srcs/toolbox/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ca87665..71d15e6 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1175,13 +1175,13 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
     dbg_err_ifm (u_strlcpy(sunix->sun_path, path, sizeof sunix->sun_path), 
             "%s too long", path);
 
+    /* set cname to what was provided as 'path' by the caller */
+    dbg_err_sif ((cname = u_strdup(path)) == NULL);
+
     ai->ai_protocol = 0;    /* override previous setting if any */
     ai->ai_addr = (struct sockaddr *) sunix;
     ai->ai_addrlen = sizeof *sunix;
     ai->ai_next = NULL;
-
-    /* set cname to what was provided as 'path' by the caller */
-    dbg_err_sif ((cname = u_strdup(path)) == NULL);
     ai->ai_canonname = cname;
 
     return 0;
-- 
2.43.0


From 66c2553538edf7a3e1562bcc77d04e41f6fd6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 094/129] fix: enable the SCTP events asked for only

---
 srcs/toolbox/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 71d15e6..193087d 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -985,6 +985,8 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0


From fb9ef1b19984f363c6d76e0851aa28fb3b79fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 095/129] fix: let '*' in for the port of URIs

---
 srcs/toolbox/uri.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 6875547..4318337 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -497,7 +497,7 @@ err:
 }
 
 /* Much more relaxed than requested: we want to let service names, not just
- * port numbers.  See /etc/services. */
+ * port numbers (see /etc/services) and '*'. */
 static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 {
     char c;
@@ -510,7 +510,8 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+    while (isalnum((int) c) || c == '_' || c == '-' || c == '.' || 
+            c == '*')
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-- 
2.43.0


From eb3510b5a9aa289d17d77a12816ec54a2ef5f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 096/129] fix: resolve addresses with both wildcards

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 193087d..dd62e1c 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1242,7 +1242,7 @@ static int ai_resolv (const char *host, const char *port, const char *path,
      * Handle '*' for both host and port.
      */
     hostname = !strcmp(host, "*") ? NULL : host;
-    servname = !strcmp(port, "*") ? NULL : port;
+    servname = !strcmp(port, "*") ? "0" : port;
 
     memset(&hints, 0, sizeof hints);
 
-- 
2.43.0


From 564b513c8c8f05b03ed6b3c65a98c020cd3ca2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 097/129] fix: refuse network addresses without host, port or
 path

---
 srcs/toolbox/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index dd62e1c..abad20b 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1168,7 +1168,7 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
 
     u_unused_args(dummy1, dummy2);
 
-    dbg_return_if (path == NULL, ~0);
+    dbg_return_if (path == NULL || *path == '\0', ~0);
     dbg_return_if (ai == NULL, ~0);
 
     dbg_err_sif ((sunix = u_zalloc(sizeof *sunix)) == NULL);
@@ -1235,8 +1235,8 @@ static int ai_resolv (const char *host, const char *port, const char *path,
                 proto, pai);
     }
 
-    dbg_return_if (host == NULL, ~0);
-    dbg_return_if (port == NULL, ~0);
+    dbg_return_if (host == NULL || *host == '\0', ~0);
+    dbg_return_if (port == NULL || *port == '\0', ~0);
 
     /* 
      * Handle '*' for both host and port.
-- 
2.43.0


From 8bdc13f25858599a4d8b87c5af22ca2d012848ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 098/129] fix: refuse network addresses with a port out of
 range

---
 srcs/toolbox/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index abad20b..dfa0399 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1220,7 +1220,7 @@ static void ai_free (u_addrinfo_t *ai)
 static int ai_resolv (const char *host, const char *port, const char *path,
         int family, int type, int proto, int passive, u_addrinfo_t **pai)
 {
-    int e;
+    int e, n;
     const char *hostname, *servname;
     struct addrinfo hints, *ai = NULL;
 
@@ -1244,6 +1244,11 @@ static int ai_resolv (const char *host, const char *port, const char *path,
     hostname = !strcmp(host, "*") ? NULL : host;
     servname = !strcmp(port, "*") ? "0" : port;
 
+    /* numeric ports are not checked by all resolvers */
+    if (strspn(servname, "0123456789") == strlen(servname))
+        dbg_err_ifm (u_atoi(servname, &n) || n > 65535, 
+                "%s out of range", servname);
+
     memset(&hints, 0, sizeof hints);
 
     hints.ai_flags = passive ? AI_PASSIVE : 0;
-- 
2.43.0


From 5e0df461c12410be7f03e6da103d2c8e1b173282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 099/129] fix: print UNIX addresses that fill their path

---
 srcs/toolbox/net.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index dfa0399..7701d36 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -810,7 +810,8 @@ const char *u_sa_ntop (const struct sockaddr *sa, char *d, size_t dlen)
         case AF_UNIX:
         {
             const struct sockaddr_un *su = (const struct sockaddr_un *) sa;
-            dbg_if (u_strlcpy(d, su->sun_path, dlen));
+            dbg_if (u_snprintf(d, dlen, "%.*s", 
+                        (int) sizeof su->sun_path, su->sun_path));
             break;
         }
 #endif  /* !NO_UNIXSOCK */
-- 
2.43.0


From 946a8e6643ad5205774abf23eec121e816f61c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:23 +0000
Subject: [PATCH 100/129] fix: return -1 when there is no address to make a
 socket of

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 7701d36..fc065a2 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -277,7 +277,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
-- 
2.43.0


From 6f40e713aa0d633b45aa7112795972d655722319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 101/129] fix: record each test dependency once

---
 srcs/toolbox/test.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 237ce56..e06baf2 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -984,7 +984,7 @@ static int u_test_obj_dep_add (u_test_dep_t *td, u_test_obj_t *to)
 
     /* See if the dependency isn't already recorded, in which case
      * insert it into the dependency list for this test case/suite. */
-    if (u_test_dep_search(&to->deps, to->id) == NULL)
+    if (u_test_dep_search(&to->deps, td->id) == NULL)
     {
         LIST_INSERT_HEAD(&to->deps, td, links);
     }
-- 
2.43.0


From 4aaf53f90d96a3034f628c5edabdb5596f79c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 102/129] fix: count the parallel test cases of each chunk

---
 srcs/toolbox/test.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index e06baf2..5c1af89 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1262,6 +1262,8 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
             tc = TC_HANDLE(tptr);
 
         resched:
+            parallel = 0;       /* Reset parallel counter. */
+
             for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
             {
                 if (to->rank == r)
@@ -1298,10 +1300,7 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
             /* If 'tptr' was set, it means that we need to restart. */
             if (tptr != NULL)
-            {
-                parallel = 0;       /* Reset parallel counter. */
                 goto resched;       /* Go to sched again. */
-            }
         }
     }
 
-- 
2.43.0


From 745790978ec3790f3300acf55185a5cfaf82a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 103/129] fix: end the scheduling of chunks with skipped test
 cases only

---
 srcs/toolbox/test.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 5c1af89..5f73e9e 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1266,6 +1266,11 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
 
             for (to = tptr; to != NULL; to = LIST_NEXT(to, links))
             {
+                /* Make sure 'tptr' is unset, so that, in case we go out on 
+                 * loop exhaustion, the reaper branch knows that we don't need
+                 * to be restarted. */
+                tptr = NULL;
+
                 if (to->rank == r)
                 {
                     /* Avoid scheduling a TO that has failed dependencies. */
@@ -1288,11 +1293,6 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         goto reap;
                     }
                 }
-                    
-                /* Make sure 'tptr' is unset, so that, in case we go out on 
-                 * loop exhaustion, the reaper branch knows that we don't need
-                 * to be restarted. */
-                tptr = NULL;
             }
 
         reap:
-- 
2.43.0


From c17d0bce8cf6bd5ba4082777e81652245b28aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:26 +0000
Subject: [PATCH 104/129] fix: report test cases that can't be spawned as
 aborted

---
 srcs/toolbox/test.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 5f73e9e..977e0ee 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1550,6 +1550,8 @@ static int u_test_case_exec (u_test_case_t *tc)
     {
         case -1:
             u_warn("test case %s spawn failed: %s", tc->o.id, strerror(errno));
+            tc->o.status = U_TEST_ABORTED;
+            tc->o.stop = time(NULL);
             return ~0;
         case 0:
             exit(tc->func(tc));
-- 
2.43.0


From 7ca1f7b7399c8c903a94abbe6bc39eda69a05398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 105/129] fix: take test cases that can't be waited for as
 aborted

---
 srcs/toolbox/test.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 977e0ee..d6913be 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -170,6 +170,7 @@ static int u_test_case_exec (u_test_case_t *tc);
 
 /* Test cases routines. */
 static int u_test_cases_reap (TO *h);
+static void u_test_cases_lost (TO *h);
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid);
 
 /* Test suite routines. */
@@ -1329,12 +1330,17 @@ static int u_test_cases_reap (TO *h)
         if ((child = wait(&status)) == -1)
 #endif
         {
-            /* Interrupted (should be by user interaction) or no more child 
-             * processes */
-            if (errno == EINTR || errno == ECHILD)
-                break;
-            else    /* THIS IS BAD */
-                con_err_sifm (1, "wait3 failed badly, test aborted");
+            /* Go out if interrupted by user, retry on any other signal. */
+            if (errno == EINTR)
+            {
+                if (g_interrupted)
+                    break;
+                continue;
+            }
+
+            /* The status of the children we are waiting for is lost. */
+            u_test_cases_lost(h);
+            break;
         }
 
         if ((tc = u_test_cases_search_by_pid(h, child)) == NULL)
@@ -1394,6 +1400,28 @@ err:
 #endif  /* U_TEST_SANDBOX_ENABLED */
 }
 
+/* Set the test cases that we're not able to wait for as aborted. */
+static void u_test_cases_lost (TO *h)
+{
+    u_test_obj_t *to;
+    u_test_case_t *tc;
+
+    LIST_FOREACH (to, &h->objs, links)
+    {
+        if (tc = TC_HANDLE(to), tc->pid != U_TEST_CASE_PID_INITIALIZER)
+        {
+            CHAT("the outcome of test case %s is lost\n", to->id);
+            tc->pid = U_TEST_CASE_PID_INITIALIZER;
+            to->status = U_TEST_ABORTED;
+            to->stop = time(NULL);
+        }
+    }
+
+    h->nchildren = 0;
+
+    return;
+}
+
 static u_test_case_t *u_test_cases_search_by_pid (TO *h, pid_t pid)
 {
     u_test_obj_t *to;
-- 
2.43.0


From f4fda9b5de1a89fc7da24c87451c57782280b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 106/129] fix: report test cases with unknown exit codes as
 aborted

---
 srcs/toolbox/test.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index d6913be..186d531 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1365,8 +1365,9 @@ static int u_test_cases_reap (TO *h)
              * We expect a compliant test case to return one of U_TEST_FAILURE
              * or U_TEST_SUCCESS. */
             tc->o.status = WEXITSTATUS(status);
-            dbg_if (tc->o.status != U_TEST_SUCCESS && 
-                    tc->o.status != U_TEST_FAILURE);
+            if (tc->o.status != U_TEST_SUCCESS && 
+                    tc->o.status != U_TEST_FAILURE)
+                tc->o.status = U_TEST_ABORTED;
         }
         else if (WIFSIGNALED(status))
         {
@@ -1564,7 +1565,8 @@ static int u_test_case_exec (u_test_case_t *tc)
      * syscall.  See u_test_new(). */
     if (!tc->pts->pt->sandboxed)
     {
-        dbg_if ((rc = tc->func(tc)) != U_TEST_SUCCESS && rc != U_TEST_FAILURE);
+        if ((rc = tc->func(tc)) != U_TEST_SUCCESS && rc != U_TEST_FAILURE)
+            rc = U_TEST_ABORTED;
 
         /* Update test case stats. */
         tc->o.status = rc;
@@ -1582,7 +1584,9 @@ static int u_test_case_exec (u_test_case_t *tc)
             tc->o.stop = time(NULL);
             return ~0;
         case 0:
-            exit(tc->func(tc));
+            if ((rc = tc->func(tc)) != U_TEST_SUCCESS && rc != U_TEST_FAILURE)
+                rc = U_TEST_ABORTED;
+            exit(rc);
         default:
             break;
     }
-- 
2.43.0


From dec2a9509fcc8bc6e33642e9b8d5c4c529914242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:27 +0000
Subject: [PATCH 107/129] fix: count the test cases of skipped suites

---
 srcs/toolbox/test.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 186d531..f627048 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1239,8 +1239,12 @@ static int u_test_obj_scheduler (TO *h, int (*sched)(u_test_obj_t *))
                         /* Update test cases status. */
                         if (to->what == U_TEST_SUITE_T)
                         {
-                            (void) u_test_suite_update_all_status(TS_HANDLE(to),
+                            u_test_suite_t *ts = TS_HANDLE(to);
+
+                            (void) u_test_suite_update_all_status(ts,
                                     U_TEST_SKIPPED);
+                            (void) u_test_syn_update(&ts->syn, 
+                                    &ts->u_test_cases);
                         }
 
                         continue;
-- 
2.43.0


From c42ec251572672d58cf748d0d079b3f74a314cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 108/129] fix: don't release the pointers a BST has for keys
 unless told to

---
 srcs/toolbox/bst.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 9cbb1de..a1902fc 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -410,8 +410,10 @@ int u_bst_set_keyattr (u_bst_t *bst, u_bst_type_t kt, size_t ks)
     bst->keytype = kt;
     bst->keysize = ks;
 
-    if (kt == U_BST_TYPE_OPAQUE)
+    if (kt != U_BST_TYPE_PTR)
         bst->keyfree = u_bst_genfree;
+    else if (bst->keyfree == u_bst_genfree)
+        bst->keyfree = NULL;
 
     return 0;
 }
-- 
2.43.0


From 3dba89108d44b47ec6bae7bc6d36f89926e413ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 109/129] fix: release the copies of string values of BSTs

---
 srcs/toolbox/bst.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index a1902fc..e62143e 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -439,8 +439,10 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
     bst->valtype = vt;
     bst->valsize = vs;
 
-    if (vt == U_BST_TYPE_OPAQUE)
+    if (vt != U_BST_TYPE_PTR)
         bst->valfree = u_bst_genfree;
+    else if (bst->valfree == u_bst_genfree)
+        bst->valfree = NULL;
 
     return 0;
 }
-- 
2.43.0


From d128842d23f35c83749d37cad0ce90b657dc9913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 110/129] fix: leave the pointers of a failed BST push to the
 caller

---
 srcs/toolbox/bst.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index e62143e..0ca4fc3 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -599,6 +599,12 @@ static int u_bst_node_new (u_bst_t *bst, const void *key, const void *val,
 
     return 0;
 err:
+    /* Only the copies made here are ours. */
+    if (node && bst->keytype == U_BST_TYPE_PTR)
+        node->key = NULL;
+    if (node && bst->valtype == U_BST_TYPE_PTR)
+        node->val = NULL;
+
     u_bst_node_do_free(bst, node);
     return ~0;
 }
-- 
2.43.0


From b074cb281b95c83f2d0eafbfbc84ac8f56f70da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 111/129] fix: keep the pair that a failed hmap copy could not
 put

---
 srcs/toolbox/hmap.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 896698a..d48c950 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1568,7 +1568,9 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
 {
     u_hmap_o_t *obj;
+    u_hmap_q_t *pqe;
     size_t i;
+    int rc;
 
     dbg_err_if (to == NULL);
     dbg_err_if (from == NULL);
@@ -1579,11 +1581,27 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
         {
             /* the object belongs to the destination from now on */
             LIST_REMOVE(obj, next);
-            if (obj->pqe)
-                dbg_err_if (__queue_del(from, obj));
-            from->sz--;
+            pqe = obj->pqe;
+            obj->pqe = NULL;
             obj->hmap = to;
-            dbg_err_if (u_hmap_put(to, obj, NULL));
+            rc = u_hmap_put(to, obj, NULL);
+
+            if (rc && rc != U_HMAP_ERR_EXISTS)
+            {
+                /* not taken: it stays where it was */
+                obj->pqe = pqe;
+                obj->hmap = from;
+                LIST_INSERT_HEAD(&from->hmap[i], obj, next);
+                goto err;
+            }
+
+            if (pqe)
+            {
+                TAILQ_REMOVE(&from->pcy.queue, pqe, next);
+                __q_o_free(pqe);
+            }
+            from->sz--;
+            dbg_err_if (rc);
         }
     }
 
-- 
2.43.0


From 87115ae0c00924d4cda324a646279c1692c040b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:50 +0000
Subject: [PATCH 112/129] fix: get array elements by position whatever the
 names

---
 srcs/toolbox/json.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index aa2506e..c41c794 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -834,8 +834,13 @@ u_json_t *u_json_array_get_nth (u_json_t *jo, unsigned int n)
     if (jo->map)
     {
         char elem_fqn[U_JSON_FQN_SZ] = { '\0' };
-        dbg_if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n));
-        return u_json_cache_get(jo, elem_fqn);
+
+        /* Names may be too long, or ambiguous (e.g. because of keys with dots
+         * or brackets), in which case the list tells. */
+        if (u_snprintf(elem_fqn, sizeof elem_fqn, "%s[%u]", jo->fqn, n) == 0
+                && (elem = (u_json_t *) u_hmap_easy_get(jo->map, elem_fqn))
+                && elem->parent == jo)
+            return elem;
     }
     
     /* Too bad if we don't have cache in place: we have to go through the 
-- 
2.43.0


From 6eed4ce46cf294d09c9ec90c3ce9f88c78bcbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:50 +0000
Subject: [PATCH 113/129] fix: don't index json values by truncated names

---
 srcs/toolbox/json.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index c41c794..8df807d 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -763,7 +763,8 @@ u_json_t *u_json_cache_get (u_json_t *jo, const char *name)
 
     /* If 'name' is relative, we need to prefix it with the parent name 
      * space. */
-    dbg_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name));
+    dbg_return_if (jo->fqn[0] == '\0', NULL);    /* Unnamed, see do_index. */
+    dbg_return_if (u_snprintf(fqn, sizeof fqn, "%s%s", jo->fqn, name), NULL);
 
     return (u_json_t *) u_hmap_easy_get(jo->map, fqn);
 }
@@ -1819,6 +1820,7 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 {
     u_json_t *p;
     u_hmap_t *hmap = (u_hmap_t *) map;
+    int toolong = 0;
 
     u_unused_args(l);
 
@@ -1830,12 +1832,14 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        dbg_if ((toolong = u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", 
+                p->fqn, jo->key)));
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        dbg_if ((toolong = u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", 
+                p->fqn, p->icur)));
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
@@ -1846,8 +1850,13 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     /* The elements of an array are counted from scratch each time. */
     jo->icur = 0;
 
+    /* Nodes whose name is too long, and those below them, go unnamed. */
+    if (toolong || (p && p->fqn[0] == '\0'))
+        jo->fqn[0] = '\0';
+
     /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    if (jo->fqn[0] != '\0')
+        dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-- 
2.43.0


From 8a75f98cb6937d00c92a7e807ae6f24b0f1efa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:50 +0000
Subject: [PATCH 114/129] fix: fail indexing json when memory runs out

---
 srcs/toolbox/json.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 8df807d..80e0ae1 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -13,6 +13,13 @@
 #include <toolbox/memory.h>
 #include <toolbox/lexer.h>
 
+/* What indexing hands over to each visited node, and its outcome. */
+struct u_json_index_s
+{
+    u_hmap_t *map;
+    int failed;
+};
+
 /* Internal representation of any JSON value. */
 struct u_json_s
 {
@@ -81,7 +88,7 @@ static const char *u_json_type_str (int type);
 /* Objects misc stuff. */
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
-static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_index (u_json_t *jo, size_t l, void *args);
 static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
@@ -680,6 +687,7 @@ int u_json_index (u_json_t *jo)
 {
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
+    struct u_json_index_s args;
 
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map, 0);     /* If already cached, return ok. */
@@ -696,7 +704,10 @@ int u_json_index (u_json_t *jo)
     jo->icur = 0;
 
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, hmap);
+    args.map = hmap;
+    args.failed = 0;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, &args);
+    dbg_err_if (args.failed);
 
     /* Attach the associative array to the top level object. */
     jo->map = hmap, hmap = NULL;
@@ -706,7 +717,10 @@ err:
     if (opts)
         u_hmap_opts_free(opts);
     if (hmap)
+    {
+        u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
         u_hmap_easy_free(hmap);
+    }
     return ~0;
 }
 
@@ -1816,10 +1830,10 @@ static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
-static void u_json_do_index (u_json_t *jo, size_t l, void *map)
+static void u_json_do_index (u_json_t *jo, size_t l, void *args)
 {
     u_json_t *p;
-    u_hmap_t *hmap = (u_hmap_t *) map;
+    struct u_json_index_s *a = (struct u_json_index_s *) args;
     int toolong = 0;
 
     u_unused_args(l);
@@ -1856,11 +1870,13 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
 
     /* Insert node into the hmap. */
     if (jo->fqn[0] != '\0')
-        dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+        if (u_hmap_easy_put(a->map, jo->fqn, (const void *) jo) 
+                == U_HMAP_ERR_FAIL)
+            a->failed = 1;
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-    jo->map = map;
+    jo->map = a->map;
 
 #ifdef U_JSON_IDX_DEBUG
     u_con("%p => %s (%s) = %s", jo, jo->fqn, U_JSON_OBJ_NAME(jo), jo->val);
-- 
2.43.0


From df9ba08436e835ce3491848473fb864aea91dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:30 +0000
Subject: [PATCH 115/129] fix: read the environment file that was named

---
 srcs/toolbox/env.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 8fc8699..8f73de9 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -90,10 +90,10 @@ int u_env_init (const char *prefix, const char *cfile)
 {
     enum { BUFSZ = 1024 };
     struct stat sb;
-    char buf[BUFSZ], pcmd[BUFSZ], *name = NULL, *p;
-    const char *val;
+    char buf[BUFSZ], *name = NULL, *p;
+    const char *val, *c;
     int eof = 0;
-    u_string_t *line = NULL;
+    u_string_t *line = NULL, *pcmd = NULL;
     FILE *pi = NULL;
 
     dbg_return_if (cfile == NULL || prefix == NULL, ~0);
@@ -101,10 +101,16 @@ int u_env_init (const char *prefix, const char *cfile)
     /* if 'cfile' does not exist bail out */
     dbg_err_sifm (stat(cfile, &sb) == -1, "%s", cfile);
 
-    dbg_err_if (u_snprintf(pcmd, BUFSZ, ". %s 2>/dev/null && env", cfile));
+    /* Quote the file name, and keep the shell from searching it in the PATH. */
+    dbg_err_if (u_string_create(NULL, 0, &pcmd));
+    dbg_err_if (u_string_cat(pcmd, cfile[0] == '/' ? ". '" : ". './"));
+    for (c = cfile; *c != '\0'; ++c)
+        dbg_err_if (*c == '\'' ? u_string_cat(pcmd, "'\\''") : 
+                u_string_append(pcmd, c, 1));
+    dbg_err_if (u_string_cat(pcmd, "' 2>/dev/null && env"));
 
     dbg_err_if (u_string_create(NULL, 0, &line));
-    dbg_err_if ((pi = popen(pcmd, "r")) == NULL);
+    dbg_err_if ((pi = popen(u_string_c(pcmd), "r")) == NULL);
 
     while(!eof)
     {
@@ -133,6 +139,7 @@ int u_env_init (const char *prefix, const char *cfile)
     }
 
     u_string_free(line);
+    u_string_free(pcmd);
 
     pclose(pi);
     return 0;
@@ -141,6 +148,8 @@ err:
     U_FREE(name);
     if(line)
         u_string_free(line);
+    if(pcmd)
+        u_string_free(pcmd);
     return ~0;
 }
 
-- 
2.43.0


From ae1d024f1c099128a3d1a71b051b75a3e6403c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:31 +0000
Subject: [PATCH 116/129] fix: fail loading an environment file that the shell
 can't read

---
 srcs/toolbox/env.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/env.c b/srcs/toolbox/env.c
index 8f73de9..e149b56 100644
--- a/srcs/toolbox/env.c
+++ b/srcs/toolbox/env.c
@@ -92,7 +92,7 @@ int u_env_init (const char *prefix, const char *cfile)
     struct stat sb;
     char buf[BUFSZ], *name = NULL, *p;
     const char *val, *c;
-    int eof = 0;
+    int eof = 0, rc;
     u_string_t *line = NULL, *pcmd = NULL;
     FILE *pi = NULL;
 
@@ -138,10 +138,13 @@ int u_env_init (const char *prefix, const char *cfile)
         }
     }
 
-    u_string_free(line);
-    u_string_free(pcmd);
+    u_string_free(line), line = NULL;
+    u_string_free(pcmd), pcmd = NULL;
+
+    /* Unless the file is sourced cleanly nothing is printed. */
+    rc = pclose(pi), pi = NULL;
+    dbg_err_ifm (rc != 0 && (rc != -1 || errno != ECHILD), "%s", cfile);
 
-    pclose(pi);
     return 0;
 err:
     U_PCLOSE(pi);
-- 
2.43.0


From ed2f38fc1ab5c34162d0933fd13efdda528ad389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 117/129] fix: match any character in the fnmatch replacement

---
 srcs/missing/fnmatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 4c0bf06..82a59de 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -59,7 +59,7 @@ static inline int foldcase(int ch, int flags)
 int fnmatch (const char *pattern, const char *string, int flags)
 {
 	const char *stringstart;
-	char c, test;
+	int c, test;
 
 	for (stringstart = string;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
@@ -143,7 +143,7 @@ int fnmatch (const char *pattern, const char *string, int flags)
 static const char *rangematch (const char *pattern, int test, int flags)
 {
 	int negate, ok;
-	char c, c2;
+	int c, c2;
 
 	/*
 	 * A bracket expression starting with an unquoted circumflex
-- 
2.43.0


From 919607f143566a266601043cf689869f49c6f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 118/129] fix: take a bracket that comes first as one of the
 list in the fnmatch replacement

---
 srcs/missing/fnmatch.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index 82a59de..d8b137a 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -155,7 +155,13 @@ static const char *rangematch (const char *pattern, int test, int flags)
 	if ((negate = (*pattern == '!' || *pattern == '^')) != 0)
 		++pattern;
 	
-	for (ok = 0; (c = FOLDCASE(*pattern++, flags)) != ']';) {
+	/*
+	 * A right bracket shall lose its special meaning and represent
+	 * itself in a bracket expression if it occurs first in the list.
+	 */
+	ok = 0;
+	c = FOLDCASE(*pattern++, flags);
+	do {
 		if (c == '\\' && !(flags & FNM_NOESCAPE))
 			c = FOLDCASE(*pattern++, flags);
 		if (c == EOS)
@@ -172,6 +178,6 @@ static const char *rangematch (const char *pattern, int test, int flags)
 				ok = 1;
 		} else if (c == test)
 			ok = 1;
-	}
+	} while ((c = FOLDCASE(*pattern++, flags)) != ']');
 	return (ok == negate ? NULL : pattern);
 }
-- 
2.43.0


From 6b61990bb106364f4b298a515782a5eeeace058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 119/129] fix: match leading periods explicitly in the fnmatch
 replacement

---
 srcs/missing/fnmatch.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/srcs/missing/fnmatch.c b/srcs/missing/fnmatch.c
index d8b137a..e2e0112 100644
--- a/srcs/missing/fnmatch.c
+++ b/srcs/missing/fnmatch.c
@@ -45,6 +45,7 @@
 #define	EOS	'\0'
 
 static const char *rangematch(const char *, int, int);
+static int fnmatch1(const char *, const char *, const char *, int);
 
 static inline int foldcase(int ch, int flags)
 {
@@ -58,10 +59,15 @@ static inline int foldcase(int ch, int flags)
 
 int fnmatch (const char *pattern, const char *string, int flags)
 {
-	const char *stringstart;
+	return fnmatch1(pattern, string, string, flags);
+}
+
+static int fnmatch1 (const char *pattern, const char *string, 
+    const char *stringstart, int flags)
+{
 	int c, test;
 
-	for (stringstart = string;;)
+	for (;;)
 		switch (c = FOLDCASE(*pattern++, flags)) {
 		case EOS:
 			if ((flags & FNM_LEADING_DIR) && *string == '/')
@@ -105,8 +111,8 @@ int fnmatch (const char *pattern, const char *string, int flags)
 
 			/* General case, use recursion. */
 			while ((test = FOLDCASE(*string, flags)) != EOS) {
-				if (!fnmatch(pattern, string,
-					     flags & ~FNM_PERIOD))
+				if (!fnmatch1(pattern, string, stringstart,
+					     flags))
 					return (0);
 				if (test == '/' && flags & FNM_PATHNAME)
 					break;
@@ -118,6 +124,10 @@ int fnmatch (const char *pattern, const char *string, int flags)
 				return (FNM_NOMATCH);
 			if (*string == '/' && flags & FNM_PATHNAME)
 				return (FNM_NOMATCH);
+			if (*string == '.' && (flags & FNM_PERIOD) &&
+			    (string == stringstart ||
+			    ((flags & FNM_PATHNAME) && *(string - 1) == '/')))
+				return (FNM_NOMATCH);
 			if ((pattern =
 			    rangematch(pattern, FOLDCASE(*string, flags),
 				       flags)) == NULL)
-- 
2.43.0


From fe71a98296402ab81487bfe44af56139d4085bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:50 +0000
Subject: [PATCH 120/129] fix: convert times without touching the environment
 in the timegm replacement

---
 srcs/missing/timegm.c | 46 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/srcs/missing/timegm.c b/srcs/missing/timegm.c
index 2a2f59a..cc1172f 100644
--- a/srcs/missing/timegm.c
+++ b/srcs/missing/timegm.c
@@ -5,29 +5,35 @@
 
 #ifndef HAVE_TIMEGM
 
-#include <stdlib.h>
-#include <stdio.h>
-
 time_t timegm(struct tm *tm)
 {
+    static const int yday[] = 
+        { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
+    long long mon, year, days, prev;
+    struct tm *utc;
     time_t ret;
-    char *tz;
-    
-    /* save current timezone and set UTC */
-    tz = getenv("TZ");
-    putenv("TZ=UTC");   /* use Coordinated Universal Time (i.e. zero offset) */
-    tzset();
-    
-    ret = mktime(tm);
-    if(tz)
-    {
-        char buf[256];
-        snprintf(buf, sizeof(buf), "TZ=%s", tz);
-        putenv(buf);
-    } else
-        putenv("TZ=");
-    tzset();
-    
+
+    /* Months out of range are carried over to the year. */
+    mon = tm->tm_mon;
+    year = 1900LL + tm->tm_year + mon / 12;
+    if ((mon %= 12) < 0)
+        mon += 12, --year;
+
+    /* Leap days up to the year before (or this one, from March on), counted 
+     * from year -400 * n so that divisions never see a negative number. */
+    prev = year - (mon < 2) + 400LL * 10000000LL;
+    days = 365LL * (year - 1970) + prev / 4 - prev / 100 + prev / 400 
+        - 97LL * 10000000LL - 477;
+    days += yday[mon] + (tm->tm_mday - 1LL);
+
+    ret = (time_t) (((days * 24 + tm->tm_hour) * 60 + tm->tm_min) * 60 
+            + tm->tm_sec);
+
+    /* Fill in the rest, and carry over what was out of range. */
+    if ((utc = gmtime(&ret)) == NULL)
+        return (time_t) -1;
+    *tm = *utc;
+
     return ret;
 }
 
-- 
2.43.0


From b8b2363dd1375aaae1cf7a82a31d05272d8efd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:45 +0000
Subject: [PATCH 121/129] fix: sleep for as long as asked however long that is

---
 srcs/toolbox/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 318257f..3faff93 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -689,7 +689,7 @@ int u_sleep(unsigned int secs)
 #ifdef OS_WIN
     Sleep(secs * 1000);
 #else
-    int sleep_for, c;
+    unsigned int sleep_for, c;
 
     for (sleep_for = secs; sleep_for > 0; sleep_for = c)
     {
-- 
2.43.0


From 0c92738a387174247abdce92efba96d1b03bba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:28 +0000
Subject: [PATCH 122/129] fix: keep a config value until the new one is ready

---
 srcs/toolbox/config.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 1b607fa..822df3b 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -462,17 +462,11 @@ int u_config_set_value (u_config_t *c, const char *val)
 {
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
+    char *newval = NULL;
     u_string_t *var = NULL, *value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
-
     if(val)
     {
         dbg_err_if(u_string_create(NULL, 0, &var));
@@ -515,13 +509,17 @@ int u_config_set_value (u_config_t *c, const char *val)
 
         u_string_trim(value); /* remove leading and trailing spaces */
 
-        c->value = u_strdup(u_string_c(value));;
-        dbg_err_if(c->value == NULL);
+        newval = u_strdup(u_string_c(value));
+        dbg_err_if(newval == NULL);
 
         u_string_free(value);
         u_string_free(var);
     }
 
+    /* replace the previous value, if any (val may be part of it) */
+    U_FREE(c->value);
+    c->value = newval;
+
     return 0;
 err:
     if(value)
-- 
2.43.0


From f6612c1bd69b80b9ad67c8849fb859d4e00a5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 123/129] fix: write names in json objects only

---
 srcs/toolbox/json.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 80e0ae1..753b226 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1164,9 +1164,8 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
 {
     u_json_t *child;
 
-    /* Optional key. */
-    if (strlen(jo->key) ||
-            (jo->parent && jo->parent->type == U_JSON_TYPE_OBJECT))
+    /* Only members of objects have a key. */
+    if (jo->parent && jo->parent->type == U_JSON_TYPE_OBJECT)
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
-- 
2.43.0


From beea9679b573661fe2a8a29b7e84b10ba8e69600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:42 +0000
Subject: [PATCH 124/129] fix: refuse json names that can't be written

---
 srcs/toolbox/json.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 753b226..fbc6bcb 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -106,6 +106,7 @@ static int u_json_new_atom (u_json_type_t type, const char *key,
         const char *val, char check, u_json_t **pjo);
 
 static int u_json_set_depth (u_json_t *jo, unsigned int depth);
+static int u_json_is_string (const char *s);
 
 /**
     \defgroup json JSON
@@ -447,7 +448,9 @@ err:
  *
  *  \param  jo  Pointer to a ::u_json_t object
  *  \param  key Pointer to the key string.  In case \p key \c NULL the value
- *              is reset to the empty string.
+ *              is reset to the empty string.  It must be in the form in which
+ *              it is written between the quotes, i.e. with special characters
+ *              escaped.
  *
  *  \retval ~0  on failure
  *  \retval  0  on success
@@ -456,6 +459,7 @@ int u_json_set_key (u_json_t *jo, const char *key)
 {
     dbg_return_if (jo == NULL, ~0);
     dbg_return_ifm (jo->map, ~0, "Cannot set key of a cached object");
+    dbg_return_if (key && !u_json_is_string(key), ~0);
 
     dbg_return_if (u_strlcpy(jo->key, key ? key : "", sizeof jo->key), ~0);
 
@@ -1991,6 +1995,30 @@ err:
     return ~0;
 }
 
+/* Tell if 's' can be put between quotes as is. */
+static int u_json_is_string (const char *s)
+{
+    int i;
+
+    for (; *s != '\0'; ++s)
+    {
+        if (*s == '"' || (unsigned char) *s < 0x20)
+            return 0;
+
+        if (*s != '\\')
+            continue;
+
+        if (*++s == '\0' || strchr("\"\\/bfnrtu", *s) == NULL)
+            return 0;
+
+        for (i = 0; *s == 'u' && i < 4; ++i)
+            if (!isxdigit((unsigned char) s[i + 1]))
+                return 0;
+    }
+
+    return 1;
+}
+
 static int u_json_set_depth (u_json_t *jo, unsigned int depth)
 {
     /* Don't let'em smash our stack. */
-- 
2.43.0


From 74241ab2e8b602dc97aecb7bb8fb14745ba20e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 125/129] fix: tell when the test report can't be written

---
 srcs/toolbox/test.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index f627048..da10e1f 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1608,7 +1608,8 @@ static int u_test_case_exec (u_test_case_t *tc)
 
 static int u_test_reporter (u_test_t *t)
 {
-    FILE *fp;
+    FILE *fp = NULL;
+    int rc;
     u_test_obj_t *tso, *tco;
     u_test_suite_t *ts;
 
@@ -1638,10 +1639,19 @@ static int u_test_reporter (u_test_t *t)
 
     dbg_err_if (t->reporters.t_cb(fp, t, U_TEST_REP_TAIL));
 
-    (void) fclose(fp);
+    /* The report may not have reached the file as yet. */
+    dbg_err_sif (fflush(fp) == EOF || ferror(fp));
+
+    if (fp != stdout)
+    {
+        rc = fclose(fp), fp = NULL;
+        dbg_err_sif (rc == EOF);
+    }
 
     return 0;
 err:
+    if (fp && fp != stdout)
+        (void) fclose(fp);
     return ~0;
 }
 
-- 
2.43.0


From 85fda242bd0a7e223dc905a32255ff4889fb59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 126/129] fix: escape names in the XML test report

---
 srcs/toolbox/test.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index da10e1f..977b386 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -200,6 +200,7 @@ static int u_test_syn_update (u_test_syn_t *syn, TO *h);
 
 /* Misc routines. */
 static const char *u_test_status_str (int status);
+static void u_test_xml_puts (const char *s, FILE *fp);
 static int u_test_init (u_test_t *t);
 static int u_test_signals (void);
 static void u_test_interrupted (int signo);
@@ -1763,7 +1764,9 @@ static int u_test_report_xml (FILE *fp, u_test_t *t, u_test_rep_tag_t tag)
     if (tag == U_TEST_REP_HEAD)
     {
         (void) fprintf(fp, "<?xml version=\"1.0\"?>\n");
-        (void) fprintf(fp, "<test id=\"%s\">\n", t->id);
+        (void) fprintf(fp, "<test id=\"");
+        u_test_xml_puts(t->id, fp);
+        (void) fprintf(fp, "\">\n");
 
         /* Add synoptical info. */
         (void) fprintf(fp, "\t<total>%u</total>\n", syn->total);
@@ -1773,7 +1776,9 @@ static int u_test_report_xml (FILE *fp, u_test_t *t, u_test_rep_tag_t tag)
         (void) fprintf(fp, "\t<skipped>%u</skipped>\n", syn->skip);
 
         /* Host info. */
-        (void) fprintf(fp, "\t<host>%s</host>\n", t->host);
+        (void) fprintf(fp, "\t<host>");
+        u_test_xml_puts(t->host, fp);
+        (void) fprintf(fp, "</host>\n");
     }
 
     if (tag == U_TEST_REP_TAIL)
@@ -1797,7 +1802,9 @@ static int u_test_suite_report_xml (FILE *fp, u_test_suite_t *ts,
     {
         status = ts->o.status;
 
-        (void) fprintf(fp, "\t<test_suite id=\"%s\">\n", ts->o.id);
+        (void) fprintf(fp, "\t<test_suite id=\"");
+        u_test_xml_puts(ts->o.id, fp);
+        (void) fprintf(fp, "\">\n");
 
         /* Status first. */
         (void) fprintf(fp, "\t\t<status>%s</status>\n", 
@@ -1838,7 +1845,9 @@ static int u_test_case_report_xml (FILE *fp, u_test_case_t *tc)
 
     status = tc->o.status;
 
-    (void) fprintf(fp, "\t\t<test_case id=\"%s\">\n", tc->o.id);
+    (void) fprintf(fp, "\t\t<test_case id=\"");
+    u_test_xml_puts(tc->o.id, fp);
+    (void) fprintf(fp, "\">\n");
 
     (void) fprintf(fp, "\t\t\t<status>%s</status>\n", 
             u_test_status_str(status));
@@ -1869,6 +1878,23 @@ static int u_test_case_report_xml (FILE *fp, u_test_case_t *tc)
     return 0;
 }
 
+static void u_test_xml_puts (const char *s, FILE *fp)
+{
+    for (; *s != '\0'; ++s)
+    {
+        switch (*s)
+        {
+            case '<':   (void) fputs("&lt;", fp);   break;
+            case '>':   (void) fputs("&gt;", fp);   break;
+            case '&':   (void) fputs("&amp;", fp);  break;
+            case '"':   (void) fputs("&quot;", fp); break;
+            default:    (void) fputc(*s, fp);       break;
+        }
+    }
+
+    return;
+}
+
 static const char *u_test_status_str (int status)
 {
     switch (status)
-- 
2.43.0


From 5617cff256915144bdc56fb356b66a918a085088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 127/129] fix: refuse names too long for the test report file

---
 srcs/toolbox/test.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/test.c b/srcs/toolbox/test.c
index 977b386..fb95682 100644
--- a/srcs/toolbox/test.c
+++ b/srcs/toolbox/test.c
@@ -1919,7 +1919,8 @@ static int u_test_getopt (int ac, char *av[], u_test_t *t)
         switch (c)
         {
             case 'o':   /* Report file. */
-                (void) u_strlcpy(t->outfn, optarg, sizeof t->outfn);
+                if (u_test_set_outfn(t, optarg))
+                    u_test_usage(av[0], "bad report file");
                 break;
             case 'f':   /* Report format. */
                 if (u_test_set_outfmt(t, optarg))
-- 
2.43.0


From 3ff849124da06ca9c2f32a00fe9fa42ee896549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:20 +0000
Subject: [PATCH 128/129] fix: free a resolved address once when its name
 cannot be copied

---
 srcs/toolbox/net.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index fc065a2..b1ea7de 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1343,14 +1343,15 @@ static int resolv_sin (const char *host, const char *port,
             dbg_err("invalid host name: \'%s\'", host);
     }
 
-    ai->ai_addr = (struct sockaddr *) sin;
-    ai->ai_addrlen = sizeof *sin;
-    ai->ai_next = NULL;
-
     /* set cname to what was provided as 'host' by the caller */
     dbg_err_sif ((cname = u_strdup(host)) == NULL);
     ai->ai_canonname = cname;
 
+    /* the caller frees what has been put in 'ai' on error */
+    ai->ai_addr = (struct sockaddr *) sin;
+    ai->ai_addrlen = sizeof *sin;
+    ai->ai_next = NULL;
+
     return 0;
 err:
     U_FREE(sin);
@@ -1416,14 +1417,15 @@ static int resolv_sin6 (const char *host, const char *port,
         }
     }
 
-    ai->ai_addr = (struct sockaddr *) sin6;
-    ai->ai_addrlen = sizeof *sin6;
-    ai->ai_next = NULL;
-
     /* set cname to what was provided as 'host' by the caller */
     dbg_err_sif ((cname = u_strdup(host)) == NULL);
     ai->ai_canonname = cname;
 
+    /* the caller frees what has been put in 'ai' on error */
+    ai->ai_addr = (struct sockaddr *) sin6;
+    ai->ai_addrlen = sizeof *sin6;
+    ai->ai_next = NULL;
+
     return 0;
 err:
     U_FREE(sin6);
-- 
2.43.0


From a795c4b2be047b125799f6b9b3305bb1c086cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:52 +0000
Subject: [PATCH 129/129] fix: make room in limited maps without chains for all
 the pairs allowed

---
 srcs/toolbox/hmap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index d48c950..e1ac446 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -589,6 +589,14 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     dbg_err_if (__pcy_setup(c));
 
     c->size = c->opts->size;
+
+    /* hmaps with a discard policy are never resized: if there are no chains,
+     * there must be a slot for each of the elements allowed, another one for
+     * an element put before one is discarded and the one that isn't probed */
+    if (c->opts->policy != U_HMAP_PCY_NONE &&
+            c->opts->type == U_HMAP_TYPE_LINEAR && c->size < c->opts->max + 2)
+        c->size = c->opts->max + 2;
+
     dbg_err_if (__next_prime(&c->size, c->size, &c->px));
     c->threshold = (size_t) (U_HMAP_RATE_FULL * c->size);
 
-- 
2.43.0

