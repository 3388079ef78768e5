From bd2cd040c0d2fbeff93cec314f3c4c180b6cd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 01/31] fix: forget an unregistered exe in the lists kept
 between scan and model update

---
 preload-src/src/handling/exe.c   | 2 ++
 preload-src/src/monitoring/spy.c | 9 +++++++++
 preload-src/src/monitoring/spy.h | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..d138c39 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,7 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
 
 
 /* Check if executable is currently running */
@@ -179,6 +180,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
   g_hash_table_steal (state->exes, exe->path);
+  preload_spy_forget_exe (exe);
 
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..8e1fae4 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,15 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+/* called before an exe is freed: drop it from the lists kept between
+ * preload_spy_scan() and preload_spy_update_model(). */
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  state->running_exes = g_slist_remove_all (state->running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..0f93150 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -2,8 +2,10 @@
 #define SPY_H
 
 #include <glib.h>
+#include "state.h"
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
+void preload_spy_forget_exe (preload_exe_t *exe);
 
 #endif
-- 
2.43.0


From 11af34451690042f94e7e8c051512c0cdca43f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 02/31] fix: forget an unregistered exe in the VOMM tree,
 context and history

---
 preload-src/src/algorithm/vomm.c | 32 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  6 ++++++
 preload-src/src/handling/exe.c   |  2 ++
 3 files changed, 40 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..450ff1e 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -153,6 +153,38 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+static void vomm_prune_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer key, value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, &key, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_prune_exe(child, exe);
+    }
+}
+
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!vomm_system.root) return;
+
+    /* The current context goes back to the root if it is in a removed subtree */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+    vomm_prune_exe(vomm_system.root, exe);
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..ae48220 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -32,6 +32,12 @@ void vomm_cleanup(void);
  */
 void vomm_update(preload_exe_t *exe);
 
+/* 
+ * Forget an executable that is about to be freed: its nodes, everything
+ * learned below them and its entries in the recent history.
+ */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index d138c39..fa2b327 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -27,6 +27,7 @@
 #include "markov.h"
 #include "state.h"
 #include "spy.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -181,6 +182,7 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
   preload_spy_forget_exe (exe);
+  vomm_forget_exe (exe);
 
   preload_exe_free (exe);
 }
-- 
2.43.0


From 911bf4313f1c4d1f9efc50cf8f40a15c6557ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 03/31] fix: fail the save when its last buffered data cannot
 be written

---
 preload-src/src/handling/state_io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..2e87c5b 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -669,6 +669,16 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  if (!errmsg) {
+    /* the last buffered data must have reached the file before it may
+     * replace the old one */
+    GError *err = NULL;
+    if (G_IO_STATUS_NORMAL != g_io_channel_flush (f, &err)) {
+      errmsg = g_strdup_printf ("cannot write %s: %s", tmpfile,
+				err ? err->message : "incomplete write");
+      g_clear_error (&err);
+    }
+  }
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 8338e09ac6f31bae0e0e9bf55cd7945c0a097580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 04/31] fix: sync the new state file before renaming it over
 the old one

---
 preload-src/src/handling/state_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 2e87c5b..b2d3a7a 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -680,6 +680,10 @@ preload_state_write_file (const char *statefile)
     }
   }
   g_io_channel_unref (f);
+
+  /* the data must be on disk before the rename is */
+  if (!errmsg && 0 > fsync (fd))
+    errmsg = g_strdup_printf ("cannot sync %s: %s", tmpfile, strerror (errno));
   
   if (errmsg) {
     g_unlink (tmpfile);
-- 
2.43.0


From 4c7901b9a6bbc9e7ee4c6ad3aa492a3eadda5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 05/31] fix: do not cut long file URIs when reading the state
 file

---
 preload-src/src/handling/state_io.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index b2d3a7a..2bdb5b1 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -35,6 +35,10 @@
 
 
 
+/* room for the URI of a path of up to FILELEN bytes, each escaped as %XX */
+#define URILEN		2048
+#define URILENSTR	"2047"
+
 #define TAG_PRELOAD     "PRELOAD"
 #define TAG_MAP         "MAP"
 #define TAG_BADEXE      "BADEXE"
@@ -60,7 +64,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN];
 } read_context_t;
 
 
@@ -77,7 +81,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -123,7 +127,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -154,7 +158,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
-- 
2.43.0


From d1c068e7bf5b467941fea4653c061dc6f192d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 06/31] fix: take paths in /proc/PID/maps whole, including
 spaces and the deleted mark

---
 preload-src/src/monitoring/proc.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..ddbcfc0 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -58,7 +58,7 @@ sanitize_file (char *file)
   }
 
   /* and (non-prelinked) deleted files */
-  if (strstr (file, "(deleted)"))
+  if (g_str_has_suffix (file, " (deleted)"))
     return FALSE;
 
   return TRUE;
@@ -91,7 +91,8 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
   char name[32] = {0};
   FILE *in;
   size_t size = 0;
-  char buffer[1024] = {0};
+  char *buffer = NULL;
+  size_t buffer_size = 0;
 
   if (exemaps)
     *exemaps = g_ptr_array_new ();
@@ -105,16 +106,25 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       return 0;
     }
   
-  while (fgets (buffer, sizeof (buffer) - 1, in))
+  while (getline (&buffer, &buffer_size, in) > 0)
     {
-      char file[FILELEN] = {0};
+      char *file;
       long start = 0, end = 0, offset = 0, length = 0;
-      int count;
+      int count, path_pos = 0;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
-		      &start, &end, &offset, file);
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %n",
+		      &start, &end, &offset, &path_pos);
 
-      if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
+      if (count != 3 || !path_pos)
+        continue;
+
+      /* the rest of the line is the path, spaces included */
+      file = buffer + path_pos;
+      file[strcspn (file, "\n")] = '\0';
+      if (strlen (file) >= FILELEN) /* too long for us */
+        continue;
+
+      if (!sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
 
       length = end - start;
@@ -153,6 +163,7 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       }
     }
 
+  free (buffer);
   fclose (in);
 
   return size;
-- 
2.43.0


From 15988699f38eab912aa2411d37a259282caa58bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 07/31] fix: keep the VOMM model loaded from the state file
 when starting

---
 preload-src/src/algorithm/vomm.c |  4 ++++
 preload-src/src/algorithm/vomm.h |  1 +
 preload-src/src/handling/state.c | 10 ++++------
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 450ff1e..56db488 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -67,6 +67,10 @@ gboolean vomm_init(void) {
     return TRUE;
 }
 
+gboolean vomm_is_initialized(void) {
+    return vomm_system.root != NULL;
+}
+
 void vomm_cleanup(void) {
     if (vomm_system.root) {
         vomm_node_free(vomm_system.root);
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index ae48220..4aae81a 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -21,6 +21,7 @@ typedef struct _vomm_system_t vomm_system_t;
 
 /* Core Functions */
 gboolean vomm_init(void);
+gboolean vomm_is_initialized(void);
 void vomm_cleanup(void);
 
 /* 
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..f1aae44 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -58,15 +58,12 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
 
   preload_exe_t *exe;
 
+  /* programs already running when we start are no observed launches: their
+   * launch has been recorded in the loaded VOMM model, if we saw it */
   exe = g_hash_table_lookup (state->exes, path);
   if (exe) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
-    
-    /* VOMM Update Hook: Record execution event */
-    if (preload_is_vomm_algorithm()) {
-        vomm_update(exe);
-    }
   }
 }
 
@@ -242,7 +239,8 @@ preload_state_autosave (gpointer G_GNUC_UNUSED user_data)
 void
 preload_state_run (const char *statefile)
 {
-  if (preload_is_vomm_algorithm()) {
+  /* keep the VOMM model loaded from the state file, if there was one */
+  if (preload_is_vomm_algorithm() && !vomm_is_initialized()) {
       if (!vomm_init()) {
           g_warning("Failed to initialize VOMM algorithm");
       } else {
-- 
2.43.0


From 970b8297be8b08048470f0f1b9c85493954b423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 08/31] fix: bound the depth of VOMM contexts to MAX_VOMM_DEPTH

---
 preload-src/src/algorithm/vomm.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 56db488..d65a814 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -92,6 +92,14 @@ void vomm_cleanup(void) {
  */
 #define MAX_VOMM_DEPTH 5
 
+/* Helper: number of launches in the context a node stands for */
+static int vomm_node_depth(const vomm_node_t *node) {
+    int depth = 0;
+    for (; node && node->parent; node = node->parent)
+        depth++;
+    return depth;
+}
+
 void vomm_update(preload_exe_t *exe) {
     if (!exe) return;
     
@@ -117,7 +125,8 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    if (!vomm_system.current_context ||
+        vomm_node_depth(vomm_system.current_context) >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
@@ -525,6 +534,11 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (vomm_node_depth(parent_node) >= MAX_VOMM_DEPTH) {
+        g_debug("[VOMM] Node id=%" G_GINT64_FORMAT " is too deep. Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
-- 
2.43.0


From b59535f4fb5d20aae1c6ee1b9d7c2ef4ed3e9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 09/31] fix: make VOMM predictions raise the need of a program
 instead of lowering it

---
 preload-src/src/algorithm/vomm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index d65a814..148debc 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -235,7 +235,8 @@ static void predict_ppm(vomm_node_t *node) {
         const double epsilon = 1e-9;
         child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        /* lnprob is the log of the probability of NOT being needed */
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -260,8 +261,8 @@ static void predict_dg_fallback(vomm_node_t *node) {
         if (child->count > 0) {
              /* Weak bid for all neighbors */
              /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             child->exe->lnprob += log(1.0 - 0.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.0 - 0.1));
         }
     }
 }
-- 
2.43.0


From 976ff5e11d637d30d17d586e67796f542d581d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 10/31] fix: list a program with several processes once as
 running at start-up

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index f1aae44..9db53ed 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -61,7 +61,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   /* programs already running when we start are no observed launches: their
    * launch has been recorded in the loaded VOMM model, if we saw it */
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && !g_slist_find (state->running_exes, exe)) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
   }
-- 
2.43.0


From 621360a0361fa7e6047c41ef82e09000f152b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 11/31] fix: start the residence time of loaded markovs at the
 loaded time

---
 preload-src/src/handling/state_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 2bdb5b1..1a4d351 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -247,6 +247,7 @@ read_markov (read_context_t *rc)
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
+  markov->change_timestamp = state->time;
 
   for (markov_state = 0; markov_state < 4; markov_state++) {
     double x;
-- 
2.43.0


From 7240d854381f9df892d18d3b14530ca7d930a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 12/31] fix: record state changes before pairing newly
 discovered exes

---
 preload-src/src/monitoring/spy.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index 8e1fae4..e9c1270 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -207,16 +207,16 @@ preload_spy_update_model (gpointer data)
 {
   int period;
 
-  /* register newly discovered exes */
-  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
-  g_hash_table_destroy (new_exes);
-  new_exes = NULL;  /* Prevent double-free on next scan */
-
-  /* and adjust states for those changing */
+  /* adjust states for those changing, before the new exes are paired with them */
   g_slist_foreach (state_changed_exes, (GFunc)exe_changed_callback, data);
   g_slist_free (state_changed_exes);
   state_changed_exes = NULL;  /* Prevent double-free on next scan */
 
+  /* and register newly discovered exes */
+  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
+  g_hash_table_destroy (new_exes);
+  new_exes = NULL;  /* Prevent double-free on next scan */
+
   /* do some accounting */
   period = (int)(state->time - state->last_accounting_timestamp);
   g_hash_table_foreach (state->exes, (GHFunc)running_exe_inc_time, GINT_TO_POINTER (period));
-- 
2.43.0


From 2c3953b8d224cd0262dd452c0f123938d7172a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 13/31] fix: do not shrink a merged readahead request to a
 nested region

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..adf1fe4 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -311,7 +311,8 @@ preload_readahead (preload_map_t **files, int file_count)
 	  0 == strcmp (path, files[i]->path))
         {
 	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  if (files[i]->offset + files[i]->length > offset + length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 7ecc79a2b2a859e5df115c832543004911707b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 14/31] fix: do not wait forever when there are no children
 left

---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index adf1fe4..89bbab2 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -118,6 +118,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno != EINTR)
+	procs = 0; /* nobody left to wait for */
     }
 }
 
-- 
2.43.0


From 8a9d37e622a06d3866c625faf4d3b0fe33abc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 15/31] fix: do not lose a transition that happens at the time
 the markov was loaded

---
 preload-src/src/algorithm/markov.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..734ce59 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -87,13 +87,11 @@ preload_markov_state_changed (preload_markov_t *markov)
 {
   int old_state, new_state;
 
-  if (markov->change_timestamp == state->time)
-    return; /* already taken care of */
-
   old_state = markov->state;
   new_state = markov_compute_state (markov);
 
-  g_return_if_fail (old_state != new_state);
+  if (old_state == new_state)
+    return; /* already taken care of */
 
   markov->weight[old_state][old_state]++;
   markov->time_to_leave[old_state] += ((state->time - markov->change_timestamp)
-- 
2.43.0


From 531de0b418bed7b38cf5037322f2182d2914fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 16/31] fix: sort by the disk block found instead of always the
 inode

---
 preload-src/src/handling/readahead.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 89bbab2..5920d1e 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -24,6 +24,7 @@
 #include "readahead.h"
 #include "log.h"
 #include "conf.h"
+#include "state.h"
 
 #include <sys/ioctl.h>
 #include <sys/wait.h>
@@ -64,7 +65,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
@@ -243,9 +245,19 @@ process_file(const char *path, size_t offset, size_t length)
 static void
 sort_by_block_or_inode (preload_map_t **files, int file_count)
 {
+  static int known_strategy = -1;
   int i;
   gboolean need_block = FALSE;
 
+  /* blocks and inode numbers do not compare: start over if the strategy
+   * was reconfigured */
+  if (known_strategy != (int)conf->system.sortstrategy)
+    {
+      for (i=0; i<(int)state->maps_arr->len; i++)
+	((preload_map_t *)g_ptr_array_index (state->maps_arr, i))->block = -1;
+      known_strategy = conf->system.sortstrategy;
+    }
+
   /* first see if any file doesn't have block/inode info */
   for (i=0; i<file_count; i++)
     if (files[i]->block == -1)
-- 
2.43.0


From 1f7ed6df4b93fe2c7049e8edbad19cfe32f309da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 17/31] fix: do nothing but a write in the signal handler

---
 preload-src/src/daemon/preload.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..33f8511 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -32,6 +32,7 @@
 
 #include <signal.h>
 #include <grp.h>
+#include <glib-unix.h>
 
 /* variables */
 
@@ -109,15 +110,37 @@ sig_handler_sync (gpointer data)
   return FALSE;
 }
 
+/* A signal may arrive at any instruction, so the handler only writes the
+ * signal number to a pipe that the main loop watches. */
+static int sig_pipe[2];
+
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+  unsigned char c = sig;
+
+  (void) write (sig_pipe[1], &c, 1);
+  errno = saved_errno;
+}
+
+static gboolean
+sig_pipe_readable (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
+{
+  unsigned char c;
+
+  while (read (fd, &c, 1) == 1)
+    sig_handler_sync (GINT_TO_POINTER ((int)c));
+  return TRUE;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (0 > pipe2 (sig_pipe, O_CLOEXEC | O_NONBLOCK))
+    g_error ("cannot create signal pipe: %s", strerror (errno));
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_pipe_readable, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From eb818895488a5f63cd7501da844ee2fddb0683b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:23 +0000
Subject: [PATCH 18/31] fix: save what a model update learned after a save that
 followed its scan

---
 preload-src/src/handling/state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 9db53ed..45cf0b5 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -179,6 +179,7 @@ preload_state_tick2 (gpointer data)
   if (state->model_dirty) {
     g_debug ("state updating begin");
     preload_spy_update_model (data);
+    state->dirty = TRUE; /* a save may have come between the scan and now */
     state->model_dirty = FALSE;
     g_debug ("state updating end");
   }
-- 
2.43.0


From fe6b421c50224d6c6a43e482788116bf5b985636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 19/31] fix: advance the model time by the time waited when on
 battery

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 45cf0b5..a3e4e52 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -198,7 +198,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From a3109c6bb0889a7af53b7e5e4b01c66560cb25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 20/31] fix: refuse a state file with a markov of a program
 with itself

---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 1a4d351..7efa2e3 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -240,7 +240,7 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
-- 
2.43.0


From 1edc677330032d8bdb7b84d71e411caad62e9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 21/31] fix: skip duplicate VOMM nodes in the state file
 instead of freeing the first

---
 preload-src/src/algorithm/vomm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 148debc..952326b 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -540,6 +540,12 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    if (g_hash_table_lookup(parent_node->children, exe->path)) {
+        /* Replacing the first one would free a node that others may refer to */
+        g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT ". Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
-- 
2.43.0


From d9b5097d274e846132c4e020803f02a06bdff3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 22/31] fix: do not abort on inconsistent times in the state
 file

---
 preload-src/src/algorithm/markov.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 734ce59..fad2671 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -171,7 +171,8 @@ preload_markov_correlation (preload_markov_t *markov)
   b = markov->b->time;
   ab = markov->time;
 
-  if (a == 0 || a == t || b == 0 || b == t)
+  /* the times come from the state file, so expect anything */
+  if (a <= 0 || a >= t || b <= 0 || b >= t)
     correlation = 0;
   else {
     numerator = ((double)t*ab) - ((double)a * b);
@@ -179,8 +180,7 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
-  return correlation;
+  return CLAMP (correlation, -1.0, 1.0);
 }
 
 
-- 
2.43.0


From 0e917f5d0be0c27766d4fd507984af827a170bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 23/31] fix: honour the documented configuration key
 system.processes

---
 preload-src/src/config/conf.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..e963d56 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -95,6 +95,17 @@ preload_conf_load (const char *conffile, gboolean fail)
 #include "confkeys.h"
 #undef confkey
 
+      /* the documented name of maxprocs is "processes" */
+      if (g_key_file_has_key (f, "system", "processes", NULL)) {
+	newconf.system.maxprocs = g_key_file_get_integer (f, "system", "processes", &e);
+	if (e) {
+	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
+		 "system", "processes", e->message);
+	  g_error_free (e);
+	  return;
+	}
+      }
+
       g_key_file_free (f);
       g_debug ("loading conf done");
     }
-- 
2.43.0


From 266393a26ba9fda520d6125d0ab5724d8cc17083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 24/31] fix: use the defaults for a group missing from the
 configuration file

---
 preload-src/src/config/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index e963d56..7a91823 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -83,7 +83,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND && \
+		   e->code != G_KEY_FILE_ERROR_GROUP_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
-- 
2.43.0


From 2b00c0e7df389f0d8ae299d73b780dbcd65f43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 25/31] fix: start the VOMM algorithm when a reload switches to
 it

---
 preload-src/src/daemon/preload.c |  1 +
 preload-src/src/handling/state.c | 10 +++++++++-
 preload-src/src/handling/state.h |  1 +
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 33f8511..14c29f9 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -93,6 +93,7 @@ sig_handler_sync (gpointer data)
   switch (GPOINTER_TO_INT (data)) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
+      preload_state_init_algorithm ();
       preload_log_reopen (ctx->logfile);
       break;
     case SIGUSR1:
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index a3e4e52..544fb94 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -237,8 +237,9 @@ preload_state_autosave (gpointer G_GNUC_UNUSED user_data)
 }
 
 
+/* get the configured prediction algorithm going */
 void
-preload_state_run (const char *statefile)
+preload_state_init_algorithm (void)
 {
   /* keep the VOMM model loaded from the state file, if there was one */
   if (preload_is_vomm_algorithm() && !vomm_is_initialized()) {
@@ -249,6 +250,13 @@ preload_state_run (const char *statefile)
           vomm_hydrate_from_state();
       }
   }
+}
+
+
+void
+preload_state_run (const char *statefile)
+{
+  preload_state_init_algorithm ();
   g_timeout_add (0, preload_state_tick, NULL);
   if (statefile) {
     autosave_statefile = g_strdup (statefile);
diff --git a/preload-src/src/handling/state.h b/preload-src/src/handling/state.h
index 190c676..64e6b8a 100644
--- a/preload-src/src/handling/state.h
+++ b/preload-src/src/handling/state.h
@@ -68,6 +68,7 @@ extern preload_state_t state[1];
 void preload_state_load (const char *statefile);
 void preload_state_save (const char *statefile);
 void preload_state_dump_log (void);
+void preload_state_init_algorithm (void);
 void preload_state_run (const char *statefile);
 void preload_state_free (void);
 
-- 
2.43.0


From ad557b616117ce44e61d854c23fa3e6fe9226001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 26/31] fix: do not overflow the size of a huge region in the
 memory budget

---
 preload-src/src/algorithm/prophet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..412b390 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)((v) / 1024 + ((v) % 1024 != 0)))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
-- 
2.43.0


From 0c9a45b8e5293c495e86462606311e657501e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 27/31] fix: free the rejected configuration when a reload
 fails

---
 preload-src/src/config/conf.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 7a91823..9c76ed7 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -30,6 +30,15 @@
 
 preload_conf_t conf[1];
 
+/* free what a configuration owns */
+static void
+free_conf (preload_conf_t *conf)
+{
+  g_strfreev (conf->system.mapprefix);
+  g_strfreev (conf->system.exeprefix);
+  g_free (conf->system.prediction_algorithm);
+}
+
 static void
 set_default_conf (preload_conf_t *conf)
 {
@@ -65,6 +74,9 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
+	g_error_free (e);
+	g_key_file_free (f);
+	free_conf (&newconf);
 	return;
       }
 
@@ -88,6 +100,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
+	  g_key_file_free (f); \
+	  free_conf (&newconf); \
 	  return; \
 	} else { \
 	  g_error_free (e); \
@@ -103,6 +117,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
 		 "system", "processes", e->message);
 	  g_error_free (e);
+	  g_key_file_free (f);
+	  free_conf (&newconf);
 	  return;
 	}
       }
@@ -112,9 +128,7 @@ preload_conf_load (const char *conffile, gboolean fail)
     }
 
   /* free the old configuration */
-  g_strfreev (conf->system.mapprefix);
-  g_strfreev (conf->system.exeprefix);
-  g_free (conf->system.prediction_algorithm);
+  free_conf (conf);
 
   *conf = newconf;
 }
-- 
2.43.0


From be045c4272c7c1b30a332e3a50729dae95692509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 28/31] fix: do not leak the file URI when writing the state
 fails

---
 preload-src/src/handling/state_io.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 7efa2e3..2284cee 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -493,14 +493,14 @@ write_map (preload_map_t *map, gpointer G_GNUC_UNUSED data, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_MAP);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lu\t%lu\t%d\t%s",
 		   map->seq, (long long)map->update_time, (long)map->offset, (long)map->length, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_MAP);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -517,14 +517,14 @@ write_badexe (gpointer key, gpointer value, gpointer user_data)
   if (!uri)
     return;
 
-  write_tag (TAG_BADEXE);
   g_string_printf (wc->line,
 		   "%d\t%d\t%s",
 		   update_time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_BADEXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -537,14 +537,14 @@ write_exe (gpointer G_GNUC_UNUSED key, preload_exe_t *exe, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_EXE);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lld\t%d\t%s",
 		   exe->seq, (long long)exe->update_time, (long long)exe->time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_EXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
-- 
2.43.0


From aa7435dad7b659c1d26c90b86d4c73cdf45c0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 29/31] fix: do not register a program with the maps of another
 one its process has executed meanwhile

---
 preload-src/src/monitoring/proc.c | 45 ++++++++++++++++++++++---------
 preload-src/src/monitoring/proc.h |  2 ++
 preload-src/src/monitoring/spy.c  |  3 +++
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index ddbcfc0..062d32c 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -180,6 +180,37 @@ all_digits (const char *s)
   return TRUE;
 }
 
+/* read the path of the executable a process runs.  returns FALSE if there is
+ * none, or it is not to be considered. */
+static gboolean
+read_exe_path (const char *pid, char exe_buffer[FILELEN])
+{
+  char name[32] = {0};
+  int len;
+
+  g_snprintf (name, sizeof (name) - 1, "/proc/%s/exe", pid);
+
+  len = readlink (name, exe_buffer, FILELEN);
+
+  if (len <= 0 /* error occured */
+      || len == FILELEN /* name didn't fit completely */)
+    return FALSE;
+
+  exe_buffer[len] = '\0';
+
+  return sanitize_file (exe_buffer) && accept_file (exe_buffer, conf->system.exeprefix);
+}
+
+gboolean
+proc_runs_exe (pid_t pid, const char *path)
+{
+  char name[16] = {0};
+  char exe_buffer[FILELEN] = {0};
+
+  g_snprintf (name, sizeof (name), "%d", (int)pid);
+  return read_exe_path (name, exe_buffer) && 0 == strcmp (exe_buffer, path);
+}
+
 void
 proc_foreach (GHFunc func, gpointer user_data)
 {
@@ -196,25 +227,13 @@ proc_foreach (GHFunc func, gpointer user_data)
       if (entry->d_name && all_digits (entry->d_name))
       {
 	  pid_t pid;
-	  char name[32] = {0};
 	  char exe_buffer[FILELEN] = {0};
-	  int len;
 
 	  pid = atoi (entry->d_name);
 	  if (pid == selfpid)
 	    continue;
 
-	  g_snprintf (name, sizeof (name) - 1, "/proc/%s/exe", entry->d_name);
-
-	  len = readlink (name, exe_buffer, sizeof (exe_buffer));
-
-	  if (len <= 0 /* error occured */
-	      || len == sizeof (exe_buffer) /* name didn't fit completely */)
-	    continue;
-
-	  exe_buffer[len] = '\0';
-
-	  if (!sanitize_file (exe_buffer) || !accept_file (exe_buffer, conf->system.exeprefix))
+	  if (!read_exe_path (entry->d_name, exe_buffer))
 	    continue;
 
 	  func (GUINT_TO_POINTER (pid), exe_buffer, user_data);
diff --git a/preload-src/src/monitoring/proc.h b/preload-src/src/monitoring/proc.h
index ec98afc..0e44152 100644
--- a/preload-src/src/monitoring/proc.h
+++ b/preload-src/src/monitoring/proc.h
@@ -37,6 +37,8 @@ void proc_get_memstat (preload_memory_t *mem);
 size_t proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps);
 
 /* foreach process running, passes pid as key and exe path as value */
+gboolean proc_runs_exe (pid_t pid, const char *path);
+
 void proc_foreach (GHFunc func, gpointer user_data);
 
 #endif
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index e9c1270..8a77095 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -94,6 +94,9 @@ new_exe_callback (gpointer key, gpointer value, gpointer G_GNUC_UNUSED user_data
   gboolean want_it;
   size_t size;
 
+  if (!proc_runs_exe (pid, path)) /* process died or runs something else now */
+    return;
+
   size = proc_get_maps (pid, NULL, NULL);
 
   if (!size) /* process died or something */
-- 
2.43.0


From 7a2ee41166630efea52303b7e78440b1736901df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 30/31] fix: do not truncate inode numbers when ordering
 requests by them

---
 preload-src/src/handling/map.h       | 2 +-
 preload-src/src/handling/readahead.c | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/handling/map.h b/preload-src/src/handling/map.h
index bd973a4..7c5b9b8 100644
--- a/preload-src/src/handling/map.h
+++ b/preload-src/src/handling/map.h
@@ -28,7 +28,7 @@ typedef struct _preload_map_t
   int refcount; /* number of exes linking to this. */
   double lnprob; /* log-probability of NOT being needed in next period. */
   gint64 seq; /* unique map sequence number. */
-  int block; /* on-disk location of the start of the map. */
+  gint64 block; /* on-disk location of the start of the map. */
   int priv; /* for private local use of functions. */
 } preload_map_t;
 
diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 5920d1e..4715887 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -65,10 +65,10 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  if (!block)
-    block = buf.st_ino;
-
-  file->block = block;
+  if (block)
+    file->block = block;
+  else
+    file->block = buf.st_ino;
 
   close (fd);
 }
-- 
2.43.0


From 901cb5bbd10a0efe31644b52584e894528423394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 31/31] fix: do not crash dumping a configuration with an empty
 prefix list

---
 preload-src/src/config/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 9c76ed7..7db34cc 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -155,7 +155,7 @@ preload_conf_dump_log (void)
 	fprintf (stderr, "%s", v);
 #define print_string_list(v, unit) G_STMT_START {\
 	  char **p = v; \
-	  if (p) \
+	  if (p && *p) \
 	    fprintf (stderr, "%s", *p++); \
 	  while (p && *p) \
 	    fprintf (stderr, ";%s", *p++); \
-- 
2.43.0

