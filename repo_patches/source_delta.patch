From 5ca05b1bc2bb3106759d9cb43accec8f493afc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 01/13] fix: keep a put's key alive until it is logged

The reply code replaces request[2], which may release the key's memory
before the log record is written.
---
 mtd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 0118285..786d86e 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -968,7 +968,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        String key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
         request[2] = q.run_put(tree->table(), request[2].as_s(),
@@ -982,7 +982,8 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        String key(request[2].as_s());
+        Str value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
-- 
2.43.0


From 3cfbfb5c8aafe9de82175e7e709bdda2f3fdfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 02/13] fix: build a TCP reply before leaving the RCU section

Get and scan replies refer to row memory, which may be reclaimed once
the thread's RCU section ends.
---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 786d86e..e68da53 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1157,9 +1157,10 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
+                // the reply may refer to row memory
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
+                ti->rcu_stop();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
                         ready.push_back(c);
-- 
2.43.0


From 7952aefff57643498bf47b5d4a7d0b650ecb68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 03/13] fix: parse only the received part of a UDP request

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index e68da53..4f131a5 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1215,7 +1215,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
-- 
2.43.0


From 621d90a26ebf51327462e39cd8d76587ab863374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 04/13] fix: do not declare a log epoch flushed when fsync
 failed

---
 log.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 15d9553..a58f680 100644
--- a/log.cc
+++ b/log.cc
@@ -273,7 +273,8 @@ void* loginfo::run() {
             release();
             ssize_t r = write(fd, x_buf, x_pos);
             always_assert(r == ssize_t(x_pos));
-            fsync(fd);
+            r = fsync(fd);
+            always_assert(r == 0);
             flushed_epoch_ = x_epoch;
             // printf("log %d %d\n", ti_->index(), x_pos);
             nb = x_pos;
-- 
2.43.0


From fa24e39ca2486fe5af5412f521b908b99f528856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 05/13] fix: replay a logged removal as a removal marker, not
 as columns

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index a58f680..ed50e73 100644
--- a/log.cc
+++ b/log.cc
@@ -551,7 +551,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From dd1215d196bfcfa6aea5cfe02bd25eaed4d24569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 06/13] fix: do not report a removal marker as a removed key

---
 kvrow.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..097c0f2 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -241,10 +241,11 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
 template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
-    bool found = lp.find_locked(ti);
+    // a removal marker left by log replay means the key is not there
+    bool found = lp.find_locked(ti) && !row_is_marker(lp.value());
     if (found)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     return found;
 }
 
-- 
2.43.0


From 173afcd245ef2781711fc92bccb44152019dbe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 07/13] fix: answer a get of an absent key without a value

---
 kvrow.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kvrow.hh b/kvrow.hh
index 097c0f2..4399891 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -134,7 +134,8 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
         }
         req.resize(2);
         emit_fields(lp.value(), req, ti);
-    }
+    } else
+        req.resize(2);
 }
 
 template <typename R> template <typename T>
-- 
2.43.0


From d6db65cb039e5b8c7dd779eee7d2b68462af3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 08/13] fix: check a delta record's size before reading its
 header

---
 log.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index ed50e73..51be52a 100644
--- a/log.cc
+++ b/log.cc
@@ -473,7 +473,8 @@ logrecord::extract(const char *buf, const char *end)
         val.assign(lk->buf_ + lk->keylen_, lk->size_ - sizeof(*lk) - lk->keylen_);
     } else if (command == logcmd_modify) {
         const logrec_kvdelta *lk = reinterpret_cast<const logrec_kvdelta *>(buf);
-        if (unlikely(lk->keylen_ > MASSTREE_MAXKEYLEN
+        if (unlikely(lk->size_ < sizeof(*lk)
+                     || lk->keylen_ > MASSTREE_MAXKEYLEN
                      || sizeof(*lk) + lk->keylen_ > lk->size_))
             goto fail;
         ts = lk->ts_;
-- 
2.43.0


From 1d899128f90cc89861464faee4af44063473a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 09/13] fix: replay log records whose key is empty

---
 log.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index 51be52a..8b7d172 100644
--- a/log.cc
+++ b/log.cc
@@ -728,12 +728,12 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        // skip entries that carry no key
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) {
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 93f72668424d1c604bf3e33f008ff977fc40bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 10/13] fix: reject malformed requests and overlong keys
 instead of crashing on them

---
 mtd.cc | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 4f131a5..e2ca66b 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -955,8 +955,48 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+// check that a data request has the arguments its command needs: a key no
+// longer than the tree and the log can handle, and well-formed columns
+static bool check_request(const Json& request) {
+    if (!request[1].is_i())
+        return false;
+    int command = request[1].as_i();
+    if (command != Cmd_Get && command != Cmd_Put && command != Cmd_Replace
+        && command != Cmd_Remove && command != Cmd_Scan)
+        return true;
+    if (request.size() < 3 || !request[2].is_s()
+        || request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    if (command == Cmd_Replace)
+        return request.size() > 3 && request[3].is_s();
+    if (command == Cmd_Put) {
+        // columns must be strictly increasing
+        int64_t last = -1;
+        for (int i = 3; i + 1 < request.size(); i += 2) {
+            if (!request[i].is_i() || request[i].as_i() <= last
+                || request[i].as_i() > SHRT_MAX || !request[i + 1].is_s())
+                return false;
+            last = request[i].as_i();
+        }
+        return true;
+    }
+    if (command == Cmd_Scan
+        && (request.size() < 4 || !request[3].is_i() || request[3].as_i() <= 0))
+        return false;
+    if (command == Cmd_Get || command == Cmd_Scan)
+        for (int i = command == Cmd_Get ? 3 : 4; i < request.size(); ++i)
+            if (!request[i].is_i())
+                return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
+    if (!check_request(request)) {
+        request.resize(2);
+        request[1] = -1;
+        return -1;
+    }
     int command = request[1].as_i();
     if (command == Cmd_Checkpoint) {
         // force checkpoint
-- 
2.43.0


From 52ba58710e0145bbb78f62a78068215f0ae6407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:28 +0000
Subject: [PATCH 11/13] fix: release a checkpoint's buffer with its kvout

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index e2ca66b..55889e7 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1586,7 +1586,7 @@ conc_filecheckpoint(threadinfo *ti)
             ckp_gen.value(), ti->index());
     writecheckpoint(path, c, t0);
     c->count = 0;
-    free(c->vals);
+    free_kvout(c->vals);
 }
 
 static Json
-- 
2.43.0


From 221fcd1869e42dacc7abe0bec28db82cdbe9fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:17 +0000
Subject: [PATCH 12/13] fix: treat a log without a file as empty, not as
 garbage, during recovery

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 55889e7..1ba5a96 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1425,7 +1425,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
-- 
2.43.0


From 1c5cde0e2d23ccf6a4658f59e3a472a73158be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:32 +0000
Subject: [PATCH 13/13] fix: wait for unapplied requests of earlier epochs
 before a checkpoint

---
 mtd.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 1ba5a96..4b08a32 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1697,6 +1697,13 @@ void* conc_checkpointer(void* x) {
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
+      // Wait out requests that belong to an earlier epoch, but have not
+      // changed the tree yet: the checkpoint must contain their effects,
+      // since replay starts at min_epoch.
+      for (int i = 0; i < nlogger; ++i) {
+          logs->log(i).acquire();
+          logs->log(i).release();
+      }
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-- 
2.43.0

