From c0ff0e692ac9f73c39645e30c03e586c1e08506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 01/43] fix: upgrade databases without a revision in notmuch
 new

A database written before NOTMUCH_FEATURE_LAST_MOD has revision 0, and
so has one whose creation was interrupted before its features were
recorded.  notmuch new took revision 0 to mean that there is nothing to
upgrade, and then failed on every run with "Operation requires a
database upgrade".
---
 notmuch-new.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 4a53e3e..2c1f63e 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -1205,6 +1205,13 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	    return EXIT_FAILURE;
     }
 
+    /* A revision of 0 does not mean that there is nothing to upgrade:
+     * databases from before NOTMUCH_FEATURE_LAST_MOD have no
+     * revision, and neither does a database whose creation was
+     * interrupted before its features were recorded. */
+    if (_maybe_upgrade (notmuch, &add_files_state))
+	return EXIT_FAILURE;
+
     if (notmuch_database_get_revision (notmuch, NULL) == 0) {
 	int count = 0;
 	count_files (mail_root, &count, &add_files_state);
@@ -1216,9 +1223,6 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 
 	add_files_state.total_files = count;
     } else {
-	if (_maybe_upgrade (notmuch, &add_files_state))
-	    return EXIT_FAILURE;
-
 	add_files_state.total_files = 0;
     }
 
-- 
2.43.0


From 0a11fa27ee803e1c83ee0ee49687d1192f22d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/43] fix: never create over an existing database

DB_CREATE_OR_OPEN makes Xapian overwrite the database when checking for
its existence fails, for example with a transient EIO or EACCES.  Pass
it only when notmuch means to create a database.
---
 lib/open.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/open.cc b/lib/open.cc
index 463e38b..611a2ac 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -6,10 +6,15 @@
 #include "lastmod-fp.h"
 #include "path-util.h"
 
+/* Only ask Xapian to create a database when that is the intention:
+ * with DB_CREATE_OR_OPEN, it overwrites an existing database if it
+ * (perhaps transiently) fails to see it. */
 #if HAVE_XAPIAN_DB_RETRY_LOCK
-#define DB_ACTION (Xapian::DB_CREATE_OR_OPEN | Xapian::DB_RETRY_LOCK)
+#define DB_ACTION (Xapian::DB_OPEN | Xapian::DB_RETRY_LOCK)
+#define DB_CREATE_ACTION (Xapian::DB_CREATE_OR_OPEN | Xapian::DB_RETRY_LOCK)
 #else
-#define DB_ACTION Xapian::DB_CREATE_OR_OPEN
+#define DB_ACTION Xapian::DB_OPEN
+#define DB_CREATE_ACTION Xapian::DB_CREATE_OR_OPEN
 #endif
 
 notmuch_status_t
@@ -485,6 +490,7 @@ static notmuch_status_t
 _finish_open (notmuch_database_t *notmuch,
 	      const char *profile,
 	      notmuch_database_mode_t mode,
+	      bool create,
 	      GKeyFile *key_file,
 	      char **message_ptr)
 {
@@ -500,7 +506,7 @@ _finish_open (notmuch_database_t *notmuch,
 
 	if (mode == NOTMUCH_DATABASE_MODE_READ_WRITE) {
 	    notmuch->writable_xapian_db = new Xapian::WritableDatabase (notmuch->xapian_path,
-									DB_ACTION);
+									create ? DB_CREATE_ACTION : DB_ACTION);
 	    notmuch->xapian_db = notmuch->writable_xapian_db;
 	} else {
 	    notmuch->xapian_db = new Xapian::Database (notmuch->xapian_path);
@@ -659,7 +665,7 @@ notmuch_database_open_with_config (const char *database_path,
     if (status)
 	goto DONE;
 
-    status = _finish_open (notmuch, profile, mode, key_file, &message);
+    status = _finish_open (notmuch, profile, mode, false, key_file, &message);
 
   DONE:
     if (key_file)
@@ -798,6 +804,7 @@ notmuch_database_create_with_config (const char *database_path,
     status = _finish_open (notmuch,
 			   profile,
 			   NOTMUCH_DATABASE_MODE_READ_WRITE,
+			   true,
 			   key_file,
 			   &message);
     if (status)
@@ -902,7 +909,7 @@ _maybe_load_config_from_database (notmuch_database_t *notmuch,
     if (_notmuch_choose_xapian_path (notmuch, database_path, &notmuch->xapian_path, &message))
 	return NOTMUCH_STATUS_NO_DATABASE;
 
-    (void) _finish_open (notmuch, profile, NOTMUCH_DATABASE_MODE_READ_ONLY, key_file, &message);
+    (void) _finish_open (notmuch, profile, NOTMUCH_DATABASE_MODE_READ_ONLY, false, key_file, &message);
 
     return NOTMUCH_STATUS_SUCCESS;
 }
-- 
2.43.0


From 0e58786ecbea24561da60e2de14c35e1419e3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 03/43] fix: do not free a directory twice when deleting it
 fails

---
 notmuch-new.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 2c1f63e..272348f 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -1010,11 +1010,11 @@ _remove_directory (notmuch_database_t *notmuch,
 	    goto DONE;
     }
 
-    status = notmuch_directory_delete (directory);
+    /* This destroys directory, also when it fails. */
+    return notmuch_directory_delete (directory);
 
   DONE:
-    if (status)
-	notmuch_directory_destroy (directory);
+    notmuch_directory_destroy (directory);
     return status;
 }
 
-- 
2.43.0


From f5111d64022e36c8dee1198ff1b81bfa6299dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/43] fix: restore: do not crash on properties of a missing
 message

---
 notmuch-restore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 1cce004..553862c 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -81,6 +81,13 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
 			       notmuch_database_find_message (notmuch, id, &message)))
 	goto DONE;
 
+    if (message == NULL) {
+	fprintf (stderr, "Warning: cannot set properties of missing message: %s\n", id);
+	/* As for tags, we consider this a non-fatal error. */
+	ret = EXIT_SUCCESS;
+	goto DONE;
+    }
+
     if (print_status_database ("notmuch restore", notmuch,
 			       notmuch_message_remove_all_properties (message, NULL)))
 	goto DONE;
-- 
2.43.0


From dbbb8e2b4e3129eecdf594190e2533ea5b016ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 05/43] fix: report a read error in a mail file as an error

---
 lib/message-file.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/message-file.c b/lib/message-file.c
index 68f646a..c641169 100644
--- a/lib/message-file.c
+++ b/lib/message-file.c
@@ -159,6 +159,18 @@ _notmuch_message_file_parse (notmuch_message_file_t *message)
     g_mime_parser_set_scan_from (parser, is_mbox);
 
     message->message = g_mime_parser_construct_message (parser, NULL);
+
+    /* GMime takes a read error for the end of the input, so ask the
+     * stream whether it can be read where the parser has stopped. */
+    if (! g_mime_stream_eos (message->stream)) {
+	char c;
+
+	if (g_mime_stream_read (message->stream, &c, 1) < 0) {
+	    status = NOTMUCH_STATUS_FILE_ERROR;
+	    goto DONE;
+	}
+    }
+
     if (! message->message) {
 	status = NOTMUCH_STATUS_FILE_NOT_EMAIL;
 	goto DONE;
-- 
2.43.0


From 0ea8d3615b1234803eebdab2bda9717d3a9fe50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 06/43] fix: new: scan a directory again after failing to read
 a file in it

---
 notmuch-new.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 272348f..c005a47 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -501,6 +501,7 @@ add_files (notmuch_database_t *notmuch,
     time_t stat_time;
     struct stat st;
     bool is_maildir;
+    int vanished_files;
 
     if (stat (path, &st)) {
 	fprintf (stderr, "Error reading directory %s: %s\n",
@@ -642,6 +643,8 @@ add_files (notmuch_database_t *notmuch,
 	db_subdirs = notmuch_directory_get_child_directories (directory);
     }
 
+    vanished_files = state->vanished_files;
+
     /* Pass 2: Scan for new files, removed files, and removed directories. */
     for (i = 0; i < num_fs_entries && ! interrupted; i++) {
 	entry = fs_entries[i];
@@ -780,8 +783,11 @@ add_files (notmuch_database_t *notmuch,
      * when we stat'ed the directory, we skip updating the mtime in
      * the database because a message could be delivered later in this
      * same second.  This may lead to unnecessary re-scans, but it
-     * avoids overlooking messages. */
-    if (fs_mtime != stat_time)
+     * avoids overlooking messages.
+     *
+     * Neither do we update it if a file could not be read, so that
+     * the next run tries that file again. */
+    if (fs_mtime != stat_time && state->vanished_files == vanished_files)
 	_filename_list_add (state->directory_mtimes, path)->mtime = fs_mtime;
 
   DONE:
-- 
2.43.0


From b973ea0b075d229a964b18f5955ba90eddfb5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 07/43] fix: do not report success when committing changes
 fails

---
 notmuch-new.c     | 25 +++++++++++++++++--------
 notmuch-reindex.c |  8 +++++++-
 notmuch-restore.c | 12 ++++++++++--
 notmuch-tag.c     |  9 ++++++++-
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index c005a47..1f31dc9 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -952,7 +952,7 @@ remove_filename (notmuch_database_t *notmuch,
 		 const char *path,
 		 add_files_state_t *add_files_state)
 {
-    notmuch_status_t status;
+    notmuch_status_t status, end_status;
     notmuch_message_t *message;
 
     status = notmuch_database_begin_atomic (notmuch);
@@ -974,8 +974,8 @@ remove_filename (notmuch_database_t *notmuch,
     notmuch_message_destroy (message);
 
   DONE:
-    notmuch_database_end_atomic (notmuch);
-    return status;
+    end_status = notmuch_database_end_atomic (notmuch);
+    return status ? status : end_status;
 }
 
 /* Recursively remove all filenames from the database referring to
@@ -1296,10 +1296,16 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 
     for (f = add_files_state.directory_mtimes->head; f && ! interrupted; f = f->next) {
 	notmuch_directory_t *directory;
-	status = notmuch_database_get_directory (notmuch, f->filename, &directory);
-	if (status == NOTMUCH_STATUS_SUCCESS && directory) {
-	    notmuch_directory_set_mtime (directory, f->mtime);
+	ret = notmuch_database_get_directory (notmuch, f->filename, &directory);
+	if (ret)
+	    goto DONE;
+	if (directory) {
+	    /* When this fails, everything that was not committed yet
+	     * is lost, so do not record further directories as done. */
+	    ret = notmuch_directory_set_mtime (directory, f->mtime);
 	    notmuch_directory_destroy (directory);
+	    if (ret)
+		goto DONE;
 	}
     }
 
@@ -1314,12 +1320,15 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (add_files_state.verbosity >= VERBOSITY_NORMAL)
 	print_results (&add_files_state);
 
+    /* Commit changes. */
+    status = notmuch_database_close (notmuch);
+    if (! ret)
+	ret = status;
+
     if (ret)
 	fprintf (stderr, "Note: A fatal error was encountered: %s\n",
 		 notmuch_status_to_string (ret));
 
-    notmuch_database_close (notmuch);
-
     if (hooks && ! ret && ! interrupted)
 	ret = notmuch_run_hook (notmuch, "post-new");
 
diff --git a/notmuch-reindex.c b/notmuch-reindex.c
index e9a6545..8231784 100644
--- a/notmuch-reindex.c
+++ b/notmuch-reindex.c
@@ -131,7 +131,13 @@ notmuch_reindex_command (notmuch_database_t *notmuch, int argc, char *argv[])
 
     ret = reindex_query (notmuch, query_string, indexopts);
 
-    notmuch_database_destroy (notmuch);
+    /* Commit changes. */
+    status = notmuch_database_destroy (notmuch);
+    if (status) {
+	fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		 notmuch_status_to_string (status));
+	ret = EXIT_FAILURE;
+    }
 
     return ret || interrupted ? EXIT_FAILURE : EXIT_SUCCESS;
 }
diff --git a/notmuch-restore.c b/notmuch-restore.c
index 553862c..36845fd 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -458,8 +458,16 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (line_ctx != NULL)
 	talloc_free (line_ctx);
 
-    if (notmuch)
-	notmuch_database_destroy (notmuch);
+    if (notmuch) {
+	/* Commit changes. */
+	notmuch_status_t status = notmuch_database_destroy (notmuch);
+
+	if (status) {
+	    fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		     notmuch_status_to_string (status));
+	    ret = EXIT_FAILURE;
+	}
+    }
 
     if (input) {
 	errnum = gzclose_r (input);
diff --git a/notmuch-tag.c b/notmuch-tag.c
index 71ff06b..400e2f3 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -228,6 +228,7 @@ notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[])
     const char *input_file_name = NULL;
     int opt_index;
     int ret;
+    notmuch_status_t status;
     notmuch_bool_t synchronize_flags;
 
     /* Set up our handler for SIGINT */
@@ -308,7 +309,13 @@ notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[])
     else
 	ret = tag_query (notmuch, notmuch, query_string, tag_ops, tag_flags);
 
-    notmuch_database_destroy (notmuch);
+    /* Commit changes. */
+    status = notmuch_database_destroy (notmuch);
+    if (status) {
+	fprintf (stderr, "Error: failed to commit database changes: %s\n",
+		 notmuch_status_to_string (status));
+	ret = EXIT_FAILURE;
+    }
 
     if (input != stdin)
 	fclose (input);
-- 
2.43.0


From d806067aaf93d8e0c5e64808fcc8e387db0cb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 08/43] fix: do not crash when upgrading the database fails

---
 lib/database.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index 737a3f3..d08233c 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -839,11 +839,11 @@ handle_sigalrm (unused (int signal))
  * so far and 'total' the overall number of messages that will be
  * converted.
  */
-notmuch_status_t
-notmuch_database_upgrade (notmuch_database_t *notmuch,
-			  void (*progress_notify)(void *closure,
-						  double progress),
-			  void *closure)
+static notmuch_status_t
+_notmuch_database_do_upgrade (notmuch_database_t *notmuch,
+			      void (*progress_notify)(void *closure,
+						      double progress),
+			      void *closure)
 {
     void *local = talloc_new (NULL);
     Xapian::TermIterator t, t_end;
@@ -1107,6 +1107,20 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
     return status;
 }
 
+notmuch_status_t
+notmuch_database_upgrade (notmuch_database_t *notmuch,
+			  void (*progress_notify)(void *closure,
+						  double progress),
+			  void *closure)
+{
+    try {
+	return _notmuch_database_do_upgrade (notmuch, progress_notify, closure);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (notmuch, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+}
+
 notmuch_status_t
 notmuch_database_begin_atomic (notmuch_database_t *notmuch)
 {
-- 
2.43.0


From c4e269f50ea554e513a4fe27c7a773a9e4e0851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 09/43] fix: report a failure to write a changed message
 instead of crashing

Xapian commits by itself after a number of changes, so replacing a
document can fail like a commit does.  The exception was not caught when
tags were thawed, removed or synchronised to maildir flags, when
properties changed, when one of several files of a message was removed,
and while reindexing.
---
 lib/database.cc         |  7 +++++--
 lib/message-property.cc |  6 +++---
 lib/message.cc          | 46 ++++++++++++++++++++++++++++++++++-------
 lib/notmuch-private.h   |  3 +++
 4 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index d08233c..273d07c 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1473,8 +1473,11 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
 	}
 	if (status == NOTMUCH_STATUS_SUCCESS)
 	    status = _notmuch_message_delete (message);
-	else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
-	    _notmuch_message_sync (message);
+	else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
+	    notmuch_status_t sync_status = _notmuch_message_try_sync (message);
+	    if (sync_status)
+		status = sync_status;
+	}
 
 	notmuch_message_destroy (message);
     }
diff --git a/lib/message-property.cc b/lib/message-property.cc
index 7f52034..5337127 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -111,12 +111,12 @@ _notmuch_message_modify_property (notmuch_message_t *message, const char *key, c
 	return COERCE_STATUS (private_status,
 			      "Unhandled error modifying message property");
     if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
+	status = _notmuch_message_try_sync (message);
 
     if (term)
 	talloc_free (term);
 
-    return NOTMUCH_STATUS_SUCCESS;
+    return status;
 }
 
 notmuch_status_t
@@ -157,7 +157,7 @@ _notmuch_message_remove_all_properties (notmuch_message_t *message, const char *
     }
 
     if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
+	return _notmuch_message_try_sync (message);
 
     return NOTMUCH_STATUS_SUCCESS;
 }
diff --git a/lib/message.cc b/lib/message.cc
index 46638f8..4bd9036 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1372,6 +1372,21 @@ _notmuch_message_sync (notmuch_message_t *message)
     message->modified = false;
 }
 
+/* Like _notmuch_message_sync, but report a failure to write (or to
+ * commit, as Xapian commits by itself every now and then) instead of
+ * throwing an exception. */
+notmuch_status_t
+_notmuch_message_try_sync (notmuch_message_t *message)
+{
+    try {
+	_notmuch_message_sync (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+    return NOTMUCH_STATUS_SUCCESS;
+}
+
 /* Delete a message document from the database, leaving a ghost
  * message in its place */
 notmuch_status_t
@@ -1438,7 +1453,7 @@ _notmuch_message_delete (notmuch_message_t *message)
 	if (private_status == NOTMUCH_PRIVATE_STATUS_NO_DOCUMENT_FOUND) {
 	    private_status = _notmuch_message_initialize_ghost (ghost, tid);
 	    if (! private_status)
-		_notmuch_message_sync (ghost);
+		private_status = (notmuch_private_status_t) _notmuch_message_try_sync (ghost);
 	} else if (private_status == NOTMUCH_PRIVATE_STATUS_SUCCESS) {
 	    /* this is deeply weird, and we should not have gotten
 	     * into this state.  is there a better error message to
@@ -2094,7 +2109,10 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
 		continue;
 	    }
 
-	    _notmuch_message_sync (message);
+	    new_status = _notmuch_message_try_sync (message);
+	    /* Hold on to only the first error. */
+	    if (! status && new_status)
+		status = new_status;
 	}
 
 	talloc_free (filename_new);
@@ -2135,10 +2153,10 @@ notmuch_message_remove_all_tags (notmuch_message_t *message)
     }
 
     if (! message->frozen)
-	_notmuch_message_sync (message);
+	status = _notmuch_message_try_sync (message);
 
     talloc_free (tags);
-    return NOTMUCH_STATUS_SUCCESS;
+    return status;
 }
 
 notmuch_status_t
@@ -2167,7 +2185,7 @@ notmuch_message_thaw (notmuch_message_t *message)
     if (message->frozen > 0) {
 	message->frozen--;
 	if (message->frozen == 0)
-	    _notmuch_message_sync (message);
+	    return _notmuch_message_try_sync (message);
 	return NOTMUCH_STATUS_SUCCESS;
     } else {
 	return NOTMUCH_STATUS_UNBALANCED_FREEZE_THAW;
@@ -2232,9 +2250,9 @@ _notmuch_message_frozen (notmuch_message_t *message)
     return message->frozen;
 }
 
-notmuch_status_t
-notmuch_message_reindex (notmuch_message_t *message,
-			 notmuch_indexopts_t *indexopts)
+static notmuch_status_t
+_notmuch_message_do_reindex (notmuch_message_t *message,
+			     notmuch_indexopts_t *indexopts)
 {
     notmuch_database_t *notmuch = NULL;
     notmuch_status_t ret = NOTMUCH_STATUS_SUCCESS;
@@ -2356,3 +2374,15 @@ notmuch_message_reindex (notmuch_message_t *message,
     /* XXX TODO destroy orig_filenames? */
     return ret;
 }
+
+notmuch_status_t
+notmuch_message_reindex (notmuch_message_t *message,
+			 notmuch_indexopts_t *indexopts)
+{
+    try {
+	return _notmuch_message_do_reindex (message, indexopts);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+}
diff --git a/lib/notmuch-private.h b/lib/notmuch-private.h
index 367e23e..9680012 100644
--- a/lib/notmuch-private.h
+++ b/lib/notmuch-private.h
@@ -354,6 +354,9 @@ _notmuch_message_upgrade_last_mod (notmuch_message_t *message);
 void
 _notmuch_message_sync (notmuch_message_t *message);
 
+notmuch_status_t
+_notmuch_message_try_sync (notmuch_message_t *message);
+
 notmuch_status_t
 _notmuch_message_delete (notmuch_message_t *message);
 
-- 
2.43.0


From 494933dbfd52b9c5359215298ab71735f6288dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 10/43] fix: insert: recognise a "From " line that arrives in
 pieces

When the first read returned exactly "From ", the delivery failed
because of an empty write; when it returned less, the line was not
rewritten.
---
 notmuch-insert.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index e44607a..f1269db 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -288,6 +288,21 @@ copy_fd (int fdout, int fdin)
 	    return false;
 	}
 
+	/* The first line may arrive in pieces. */
+	while (first && remain < 5 && ! interrupted) {
+	    ssize_t more = read (fdin, buf + remain, sizeof (buf) - remain);
+	    if (more == 0)
+		break;
+	    if (more < 0) {
+		if (errno == EINTR)
+		    continue;
+		fprintf (stderr, "Error: reading from standard input: %s\n",
+			 strerror (errno));
+		return false;
+	    }
+	    remain += more;
+	}
+
 	if (first && remain >= 5 && 0 == strncmp (buf, "From ", 5)) {
 	    if (! write_buf (header, fdout, strlen (header)))
 		return false;
@@ -297,7 +312,7 @@ copy_fd (int fdout, int fdin)
 
 	first = false;
 
-	if (! write_buf (p, fdout, remain))
+	if (remain > 0 && ! write_buf (p, fdout, remain))
 	    return false;
 	empty = false;
     }
-- 
2.43.0


From 4c6739d28349bbcdfb3d7f110104e4fa67132db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 11/43] fix: insert: add and tag the message in one transaction

If Xapian committed by itself after the message had been added and the
rest could not be saved, the database was left with a message whose file
had been removed again.
---
 notmuch-insert.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index f1269db..93ebe6a 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -594,8 +594,18 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	return EXIT_FAILURE;
     }
 
-    /* Index the message. */
-    status = add_file (notmuch, newpath, tag_ops, synchronize_flags, keep, indexopts);
+    /* Index the message. Adding it and tagging it is one change: when
+     * saving that fails, nothing may stay in the database. */
+    status = notmuch_database_begin_atomic (notmuch);
+    if (status == NOTMUCH_STATUS_SUCCESS) {
+	notmuch_status_t end_status;
+
+	status = add_file (notmuch, newpath, tag_ops, synchronize_flags, keep, indexopts);
+
+	end_status = notmuch_database_end_atomic (notmuch);
+	if (! status)
+	    status = end_status;
+    }
 
     /* Commit changes. */
     close_status = notmuch_database_close (notmuch);
-- 
2.43.0


From f4f454e503e63101e4f0496a45ba5f9ad8b40f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 12/43] fix: insert: remove the delivered file after a failure
 even if it was renamed

Flag synchronisation may have renamed the new file before the failure,
in which case the message stayed in the maildir although its delivery
was reported to have failed.
---
 notmuch-insert.c | 50 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index 93ebe6a..1d0cd90 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -401,6 +401,39 @@ maildir_write_new (const void *ctx, int fdin, const char *maildir, bool world_re
     return NULL;
 }
 
+/*
+ * Flag synchronization may have renamed the file delivered as 'path'
+ * within its maildir. Return its current name as recorded in
+ * 'message', or 'path' if it was not renamed.
+ */
+static const char *
+renamed_path (const void *ctx, notmuch_message_t *message, const char *path)
+{
+    const char *base = strrchr (path, '/') + 1;
+    size_t base_len = strlen (base);
+    size_t maildir_len = base - path - strlen ("new/");
+    notmuch_filenames_t *filenames;
+
+    for (filenames = notmuch_message_get_filenames (message);
+	 notmuch_filenames_valid (filenames);
+	 notmuch_filenames_move_to_next (filenames)) {
+	const char *filename = notmuch_filenames_get (filenames);
+	const char *filename_base = strrchr (filename, '/');
+
+	if (filename_base &&
+	    (size_t) (filename_base + 1 - filename) == maildir_len + strlen ("cur/") &&
+	    strncmp (filename, path, maildir_len) == 0 &&
+	    strncmp (filename_base + 1, base, base_len) == 0 &&
+	    filename_base[1 + base_len] == ':') {
+	    path = talloc_strdup (ctx, filename);
+	    break;
+	}
+    }
+    notmuch_filenames_destroy (filenames);
+
+    return path;
+}
+
 /*
  * Add the specified message file to the notmuch database, applying
  * tags in tag_ops. If synchronize_flags is true, the tags are
@@ -412,14 +445,18 @@ maildir_write_new (const void *ctx, int fdin, const char *maildir, bool world_re
  * success status is returned; otherwise such errors cause the message
  * to be removed from the database. Failure to add the message to the
  * database results in error status regardless of keep.
+ *
+ * On return *path_ptr is the name the file has now.
  */
 static notmuch_status_t
-add_file (notmuch_database_t *notmuch, const char *path, tag_op_list_t *tag_ops,
+add_file (const void *ctx, notmuch_database_t *notmuch, const char **path_ptr,
+	  tag_op_list_t *tag_ops,
 	  bool synchronize_flags, bool keep,
 	  notmuch_indexopts_t *indexopts)
 {
     notmuch_message_t *message;
     notmuch_status_t status;
+    const char *path = *path_ptr;
 
     status = notmuch_database_index_file (notmuch, path, indexopts, &message);
     if (status == NOTMUCH_STATUS_SUCCESS) {
@@ -448,11 +485,7 @@ add_file (notmuch_database_t *notmuch, const char *path, tag_op_list_t *tag_ops,
 		     keep ? "Warning" : "Error",
 		     path, notmuch_status_to_string (status));
 
-	/*
-	 * Note: Unfortunately a failed maildir flag sync might
-	 * already have renamed the file, in which case the cleanup
-	 * path may fail.
-	 */
+	path = *path_ptr = renamed_path (ctx, message, path);
     }
 
   DONE:
@@ -494,7 +527,7 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
     bool world_readable = false;
     notmuch_bool_t synchronize_flags;
     char *maildir;
-    char *newpath;
+    const char *newpath;
     int opt_index;
     notmuch_indexopts_t *indexopts = notmuch_database_get_default_indexopts (notmuch);
 
@@ -600,7 +633,7 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (status == NOTMUCH_STATUS_SUCCESS) {
 	notmuch_status_t end_status;
 
-	status = add_file (notmuch, newpath, tag_ops, synchronize_flags, keep, indexopts);
+	status = add_file (local, notmuch, &newpath, tag_ops, synchronize_flags, keep, indexopts);
 
 	end_status = notmuch_database_end_atomic (notmuch);
 	if (! status)
@@ -622,7 +655,6 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	if (keep) {
 	    status = NOTMUCH_STATUS_SUCCESS;
 	} else {
-	    /* If maildir flag sync failed, this might fail. */
 	    if (unlink (newpath)) {
 		fprintf (stderr, "Warning: failed to remove '%s' from maildir "
 			 "after errors: %s. Please run 'notmuch new' to fix.\n",
-- 
2.43.0


From eeeb097acda0f86516ee8c40d32c800c7042594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 13/43] fix: tag: do not skip messages in s-expression queries

A message was only changed when every one of the tag changes applied to
it, and a tag with a quote or backslash broke the query.
---
 notmuch-tag.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index 400e2f3..e1685c1 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -88,6 +88,28 @@ _optimize_tag_query_infix (void *ctx, const char *orig_query_string,
     return query_string;
 }
 
+/* Write 'str' as a quoted string of the s-expression query syntax. */
+static char *
+_quote_sexp_string (void *ctx, const char *str)
+{
+    char *quoted = talloc_size (ctx, 2 * strlen (str) + 3);
+    char *s = quoted;
+
+    if (quoted == NULL)
+	return NULL;
+
+    *s++ = '"';
+    for (; *str; str++) {
+	if (*str == '"' || *str == '\\')
+	    *s++ = '\\';
+	*s++ = *str;
+    }
+    *s++ = '"';
+    *s = '\0';
+
+    return quoted;
+}
+
 static char *
 _optimize_tag_query (void *ctx, const char *orig_query_string,
 		     notmuch_query_syntax_t stx,
@@ -102,15 +124,21 @@ _optimize_tag_query (void *ctx, const char *orig_query_string,
     if (tag_op_list_size (list) == 0)
 	return talloc_strdup (ctx, orig_query_string);
 
-    query_string = talloc_asprintf (ctx, "(and %s", orig_query_string);
+    query_string = talloc_asprintf (ctx, "(and %s (or", orig_query_string);
     for (size_t i = 0; i < tag_op_list_size (list) && query_string; i++) {
+	char *quoted = _quote_sexp_string (ctx, tag_op_list_tag (list, i));
+
+	if (quoted == NULL)
+	    return NULL;
+
 	query_string = talloc_asprintf_append_buffer (
-	    query_string, tag_op_list_isremove (list, i) ? " (tag \"%s\")" : " (not (tag \"%s\"))",
-	    tag_op_list_tag (list, i));
+	    query_string, tag_op_list_isremove (list, i) ? " (tag %s)" : " (not (tag %s))",
+	    quoted);
+	talloc_free (quoted);
     }
 
     if (query_string)
-	query_string = talloc_strdup_append_buffer (query_string, ")");
+	query_string = talloc_strdup_append_buffer (query_string, "))");
 
     return query_string;
 }
-- 
2.43.0


From 7d952ddd6191412ab3b3675ab58fe4221cfda305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 14/43] fix: restore: treat ghosts as missing messages

---
 notmuch-restore.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 36845fd..1d0cc61 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -57,6 +57,28 @@ process_config_line (notmuch_database_t *notmuch, const char *line)
     return ret;
 }
 
+/* Find a message, but not a ghost, which only stands for a message
+ * that others refer to. */
+static notmuch_status_t
+find_real_message (notmuch_database_t *notmuch, const char *message_id,
+		   notmuch_message_t **message)
+{
+    notmuch_status_t status;
+    notmuch_bool_t is_ghost;
+
+    status = notmuch_database_find_message (notmuch, message_id, message);
+    if (status || *message == NULL)
+	return status;
+
+    status = notmuch_message_get_flag_st (*message, NOTMUCH_MESSAGE_FLAG_GHOST, &is_ghost);
+    if (status || is_ghost) {
+	notmuch_message_destroy (*message);
+	*message = NULL;
+    }
+
+    return status;
+}
+
 static int
 process_properties_line (notmuch_database_t *notmuch, const char *line)
 {
@@ -78,7 +100,7 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     }
 
     if (print_status_database ("notmuch restore", notmuch,
-			       notmuch_database_find_message (notmuch, id, &message)))
+			       find_real_message (notmuch, id, &message)))
 	goto DONE;
 
     if (message == NULL) {
@@ -146,7 +168,7 @@ tag_message (unused (void *ctx),
     notmuch_message_t *message = NULL;
     int ret = 0;
 
-    status = notmuch_database_find_message (notmuch, message_id, &message);
+    status = find_real_message (notmuch, message_id, &message);
     if (status) {
 	fprintf (stderr, "Error applying tags to message %s: %s\n",
 		 message_id, notmuch_status_to_string (status));
-- 
2.43.0


From 53d21782833971035c8774b54c86e76b163ecbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 15/43] fix: do not let ghosts match subqueries of thread and
 other fields

---
 lib/query.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/query.cc b/lib/query.cc
index 1c60c12..d87cce6 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -842,7 +842,9 @@ _notmuch_query_expand (notmuch_database_t *notmuch, const char *field, Xapian::Q
 	Xapian::MSet mset;
 
 	enquire.set_weighting_scheme (Xapian::BoolWeight ());
-	enquire.set_query (subquery);
+	/* Ghosts and directories are not messages */
+	enquire.set_query (Xapian::Query (Xapian::Query::OP_FILTER, subquery,
+					  Xapian::Query (std::string (_find_prefix ("type")) + "mail")));
 
 	mset = enquire.get_mset (0, notmuch->xapian_db->get_doccount ());
 
-- 
2.43.0


From 1576c9ed1722b2d3e62b8e7691a5fd3f4b996c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 16/43] fix: reindex: do not delete messages whose files cannot
 be read right now

Only a file that is gone may be dropped. Any other failure to open or
read it ended in the message being deleted with all its tags.
---
 lib/message-file.c |  3 +++
 lib/message.cc     | 12 +++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/message-file.c b/lib/message-file.c
index c641169..258dd88 100644
--- a/lib/message-file.c
+++ b/lib/message-file.c
@@ -59,6 +59,7 @@ _notmuch_message_file_open_ctx (notmuch_database_t *notmuch,
 				void *ctx, const char *filename)
 {
     notmuch_message_file_t *message;
+    int saved_errno;
 
     message = talloc_zero (ctx, notmuch_message_file_t);
     if (unlikely (message == NULL))
@@ -93,10 +94,12 @@ _notmuch_message_file_open_ctx (notmuch_database_t *notmuch,
     return message;
 
   FAIL:
+    saved_errno = errno;
     if (errno)
 	_notmuch_database_log (notmuch, "Error opening %s: %s\n",
 			       filename, strerror (errno));
     _notmuch_message_file_close (message);
+    errno = saved_errno;
 
     return NULL;
 }
diff --git a/lib/message.cc b/lib/message.cc
index 4bd9036..90713e9 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2313,8 +2313,13 @@ _notmuch_message_do_reindex (notmuch_message_t *message,
 	const char *filename = notmuch_filenames_get (orig_filenames);
 
 	message_file = _notmuch_message_file_open (notmuch, filename);
-	if (message_file == NULL)
-	    continue;
+	if (message_file == NULL) {
+	    /* Only a file that is gone can be dropped. */
+	    if (errno == ENOENT || errno == ENOTDIR)
+		continue;
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+	    goto DONE;
+	}
 
 	ret = _notmuch_message_file_get_headers (message_file,
 						 &from, &subject, &to, &date,
@@ -2345,9 +2350,6 @@ _notmuch_message_do_reindex (notmuch_message_t *message,
 	    _notmuch_message_set_header_values (message, date, from, subject);
 
 	ret = _notmuch_message_index_file (message, indexopts, message_file);
-
-	if (ret == NOTMUCH_STATUS_FILE_ERROR)
-	    continue;
 	if (ret)
 	    goto DONE;
 
-- 
2.43.0


From 9d7c58eaa0d542b8a31dcfbc9d15899afb2ae54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 17/43] fix: tag: fail when the batch input cannot be read

A read error was taken for the end of the input, and a line cut short by
it was even executed.
---
 notmuch-tag.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index e1685c1..4c12365 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -218,6 +218,10 @@ tag_file (void *ctx, notmuch_database_t *notmuch, tag_op_flag_t flags,
     while ((line_len = getline (&line, &line_size, input)) != -1 &&
 	   ! interrupted) {
 
+	/* The line may be cut short. */
+	if (ferror (input))
+	    break;
+
 	ret = parse_tag_line (ctx, line, TAG_FLAG_NONE,
 			      &query_string, tag_ops);
 
@@ -237,6 +241,11 @@ tag_file (void *ctx, notmuch_database_t *notmuch, tag_op_flag_t flags,
 	    break;
     }
 
+    if (ferror (input)) {
+	fprintf (stderr, "Error reading input: %s\n", strerror (errno));
+	ret = 1;
+    }
+
     if (line)
 	free (line);
 
-- 
2.43.0


From 9d67e050d39ecac863857ec02c3001c2446e4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 18/43] fix: restore: do not crash on incomplete config and
 properties lines

---
 notmuch-restore.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 1d0cc61..31be486 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -36,7 +36,11 @@ process_config_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     key_p = strtok_len_c (line, delim, &key_len);
-    val_p = strtok_len_c (key_p + key_len, delim, &val_len);
+    val_p = key_p ? strtok_len_c (key_p + key_len, delim, &val_len) : NULL;
+    if (val_p == NULL) {
+	fprintf (stderr, "unparsable config line %s\n", line);
+	goto DONE;
+    }
 
     key = talloc_strndup (local, key_p, key_len);
     val = talloc_strndup (local, val_p, val_len);
@@ -93,6 +97,10 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     id_p = strtok_len_c (line, delim, &id_len);
+    if (id_p == NULL) {
+	fprintf (stderr, "unparsable properties line %s\n", line);
+	goto DONE;
+    }
     id = talloc_strndup (local, id_p, id_len);
     if (hex_decode_inplace (id) != HEX_SUCCESS) {
 	fprintf (stderr, "hex decoding failure on line %s\n", line);
@@ -119,7 +127,7 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     while ((tok = strtok_len_c (tok + tok_len, delim, &tok_len)) != NULL) {
 	char *key, *value;
 	size_t off = strcspn (tok, "=");
-	if (off > tok_len) {
+	if (off >= tok_len) {
 	    fprintf (stderr, "unparsable token %s\n", tok);
 	    goto DONE;
 	}
-- 
2.43.0


From fed05f7326fc16b37210fa6da85f272792303e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 19/43] fix: do not let exceptions escape from flag
 synchronisation

---
 lib/message.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 90713e9..c00d58b 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2056,8 +2056,8 @@ _new_maildir_filename (void *ctx,
     return filename_new;
 }
 
-notmuch_status_t
-notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
+static notmuch_status_t
+_tags_to_maildir_flags (notmuch_message_t *message)
 {
     notmuch_filenames_t *filenames;
     const char *filename;
@@ -2124,6 +2124,17 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
     return status;
 }
 
+notmuch_status_t
+notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
+{
+    try {
+	return _tags_to_maildir_flags (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+}
+
 notmuch_status_t
 notmuch_message_remove_all_tags (notmuch_message_t *message)
 {
-- 
2.43.0


From 8228607e97e376ac7acdb658767ee3f1c030ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 20/43] fix: config: fail when the configuration file cannot be
 loaded

---
 notmuch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/notmuch.c b/notmuch.c
index 814b9e4..416a4a1 100644
--- a/notmuch.c
+++ b/notmuch.c
@@ -573,6 +573,7 @@ main (int argc, char *argv[])
 	case NOTMUCH_STATUS_NO_CONFIG:
 	    if (! (command->mode & NOTMUCH_COMMAND_CONFIG_CREATE)) {
 		fputs ("Try running 'notmuch setup' to create a configuration.\n", stderr);
+		ret = EXIT_FAILURE;
 		goto DONE;
 	    }
 	    break;
-- 
2.43.0


From 740e875ea95263315201cd1627f11ba0cbcabc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 21/43] fix: show: stop when a message cannot be read in mbox
 format

---
 notmuch-show.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/notmuch-show.c b/notmuch-show.c
index 7fb40ce..e681c13 100644
--- a/notmuch-show.c
+++ b/notmuch-show.c
@@ -897,7 +897,7 @@ format_part_mbox (const void *ctx, unused (sprinter_t *sp), mime_node_t *node,
 
     char *line = NULL;
     ssize_t line_size;
-    ssize_t line_len;
+    util_status_t status;
 
     if (! message)
 	INTERNAL_ERROR ("format_part_mbox requires a root part");
@@ -919,12 +919,19 @@ format_part_mbox (const void *ctx, unused (sprinter_t *sp), mime_node_t *node,
 
     printf ("From %s %s", from, date_asctime);
 
-    while ((line_len = gz_getline (message, &line, &line_size, file)) != UTIL_EOF ) {
+    while ((status = gz_getline (message, &line, &line_size, file)) == UTIL_SUCCESS) {
 	if (_is_from_line (line))
 	    putchar ('>');
 	printf ("%s", line);
     }
 
+    if (status != UTIL_EOF) {
+	fprintf (stderr, "Failed to read %s: %s\n",
+		 filename, gz_error_string (status, file));
+	gzclose (file);
+	return NOTMUCH_STATUS_FILE_ERROR;
+    }
+
     printf ("\n");
 
     gzclose (file);
-- 
2.43.0


From d4e3f1008edd3a6264de611d30d994239d59c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 22/43] fix: do not crash when the tags of a message cannot be
 read

---
 lib/messages.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/messages.c b/lib/messages.c
index eec0a16..a6a2b8d 100644
--- a/lib/messages.c
+++ b/lib/messages.c
@@ -172,6 +172,11 @@ notmuch_messages_collect_tags (notmuch_messages_t *messages)
 
     while ((msg = notmuch_messages_get (messages))) {
 	msg_tags = notmuch_message_get_tags (msg);
+	if (msg_tags == NULL) {
+	    g_hash_table_destroy (htable);
+	    talloc_free (tags);
+	    return NULL;
+	}
 	while ((tag = notmuch_tags_get (msg_tags))) {
 	    g_hash_table_insert (htable, xstrdup (tag), NULL);
 	    notmuch_tags_move_to_next (msg_tags);
-- 
2.43.0


From 51a9c14f8313d4457a722961d0ee4fd48cb949f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 23/43] fix: do not replace other files when synchronising
 maildir flags

---
 lib/message.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/message.cc b/lib/message.cc
index c00d58b..6261ae4 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2086,8 +2086,13 @@ _tags_to_maildir_flags (notmuch_message_t *message)
 
 	if (strcmp (filename, filename_new)) {
 	    int err;
+	    struct stat st;
 	    notmuch_status_t new_status;
 
+	    /* Do not replace another file that has this name. */
+	    if (lstat (filename_new, &st) == 0 || errno != ENOENT)
+		continue;
+
 	    err = rename (filename, filename_new);
 	    if (err)
 		continue;
-- 
2.43.0


From 998d9882f60daed9145a8a1dd91cf473867d9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 24/43] fix: compact: put the database back when the new one
 cannot be moved into place

---
 lib/database.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index 273d07c..6b6b9cc 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -700,6 +700,11 @@ notmuch_database_compact_db (notmuch_database_t *notmuch,
 	_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
 			       compact_xapian_path, xapian_path, strerror (errno));
 	ret = NOTMUCH_STATUS_FILE_ERROR;
+
+	/* Do not leave without a database. */
+	if (rename (backup_path, xapian_path))
+	    _notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
+				   backup_path, xapian_path, strerror (errno));
 	goto DONE;
     }
 
-- 
2.43.0


From 04ed4a188f0f57fe42e749b442d1a2cb07cc1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 25/43] fix: do not save a message that lost a name in a failed
 flag synchronisation

---
 lib/message.cc | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 6261ae4..83b55b1 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2097,27 +2097,22 @@ _tags_to_maildir_flags (notmuch_message_t *message)
 	    if (err)
 		continue;
 
+	    /* After an error the message may lack one of its names, so
+	     * do not go on to other files, which would save it. */
 	    new_status = _notmuch_message_remove_filename (message,
 							   filename);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status
-		&& new_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
+	    if (! new_status || new_status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
+		new_status = _notmuch_message_add_filename (message,
+							    filename_new);
+	    if (new_status) {
+		(void) rename (filename_new, filename);
 		status = new_status;
-		continue;
-	    }
-
-	    new_status = _notmuch_message_add_filename (message,
-							filename_new);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status) {
-		status = new_status;
-		continue;
+		break;
 	    }
 
-	    new_status = _notmuch_message_try_sync (message);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status)
-		status = new_status;
+	    status = _notmuch_message_try_sync (message);
+	    if (status)
+		break;
 	}
 
 	talloc_free (filename_new);
-- 
2.43.0


From f186c4ead950ebf609d36e95ad1cd915d03b66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:15 +0000
Subject: [PATCH 26/43] fix: let waiting writers and the compacted database
 share one lock

A writer that waits for the database lock while the database is
compacted got the lock of the old database, but then opened the new
one, where somebody else could hold the lock at the same time. Two
writers at once lose changes and corrupt the database.
---
 lib/database.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index 6b6b9cc..b233973 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -543,6 +543,23 @@ rmtree (const char *path)
     return nftw (path, unlink_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+/* Give the compacted database the lock file of the current one, which
+ * we have locked. Whoever is waiting for that lock will then find the
+ * compacted database, and must exclude those who open it later on.
+ */
+static void
+_share_lock_file (void *ctx, const char *xapian_path, const char *compact_xapian_path)
+{
+    const char *from = talloc_asprintf (ctx, "%s/flintlock", xapian_path);
+    const char *to = talloc_asprintf (ctx, "%s/flintlock", compact_xapian_path);
+
+    if (! from || ! to)
+	return;
+
+    (void) unlink (to);
+    (void) link (from, to);
+}
+
 class NotmuchCompactor : public Xapian::Compactor
 {
     notmuch_compact_status_cb_t status_cb;
@@ -689,6 +706,8 @@ notmuch_database_compact_db (notmuch_database_t *notmuch,
 	goto DONE;
     }
 
+    _share_lock_file (local, xapian_path, compact_xapian_path);
+
     if (rename (xapian_path, backup_path)) {
 	_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
 			       xapian_path, backup_path, strerror (errno));
-- 
2.43.0


From 00ab45b3d80066649a739071c6b154a2b04f6301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 27/43] fix: never be without a database while switching to the
 compacted one

Between the two renames other programs found no database, and notmuch
new created an empty one there, so that all tags were lost from view.
Exchange both databases in one step where the system can.
---
 lib/database.cc | 58 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index b233973..aca0bad 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -26,6 +26,8 @@
 #include <sys/time.h>
 #include <sys/stat.h>
 #include <signal.h>
+#include <stdio.h>
+#include <fcntl.h>
 #include <ftw.h>
 
 #include <glib.h>               /* g_free, GPtrArray, GHashTable */
@@ -543,6 +545,18 @@ rmtree (const char *path)
     return nftw (path, unlink_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+/* Exchange two names in one step, if the system can do that. */
+static int
+_exchange_paths (const char *a, const char *b)
+{
+#ifdef RENAME_EXCHANGE
+    return renameat2 (AT_FDCWD, a, AT_FDCWD, b, RENAME_EXCHANGE);
+#else
+    errno = ENOSYS;
+    return -1;
+#endif
+}
+
 /* Give the compacted database the lock file of the current one, which
  * we have locked. Whoever is waiting for that lock will then find the
  * compacted database, and must exclude those who open it later on.
@@ -708,23 +722,37 @@ notmuch_database_compact_db (notmuch_database_t *notmuch,
 
     _share_lock_file (local, xapian_path, compact_xapian_path);
 
-    if (rename (xapian_path, backup_path)) {
-	_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
-			       xapian_path, backup_path, strerror (errno));
-	ret = NOTMUCH_STATUS_FILE_ERROR;
-	goto DONE;
-    }
-
-    if (rename (compact_xapian_path, xapian_path)) {
-	_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
-			       compact_xapian_path, xapian_path, strerror (errno));
-	ret = NOTMUCH_STATUS_FILE_ERROR;
+    if (_exchange_paths (compact_xapian_path, xapian_path) == 0) {
+	/* There was no moment without a database, in which other
+	 * programs would find none or create an empty one. */
+	if (! keep_backup) {
+	    backup_path = compact_xapian_path;
+	} else if (rename (compact_xapian_path, backup_path)) {
+	    _notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
+				   xapian_path, backup_path, strerror (errno));
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+	    (void) _exchange_paths (compact_xapian_path, xapian_path);
+	    goto DONE;
+	}
+    } else {
+	if (rename (xapian_path, backup_path)) {
+	    _notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
+				   xapian_path, backup_path, strerror (errno));
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+	    goto DONE;
+	}
 
-	/* Do not leave without a database. */
-	if (rename (backup_path, xapian_path))
+	if (rename (compact_xapian_path, xapian_path)) {
 	    _notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
-				   backup_path, xapian_path, strerror (errno));
-	goto DONE;
+				   compact_xapian_path, xapian_path, strerror (errno));
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+
+	    /* Do not leave without a database. */
+	    if (rename (backup_path, xapian_path))
+		_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
+				       backup_path, xapian_path, strerror (errno));
+	    goto DONE;
+	}
     }
 
     if (! keep_backup) {
-- 
2.43.0


From c0e4a338e32a7e84f17a2f6db8744493f238c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 28/43] fix: do not use a database whose version cannot be read

notmuch_database_get_version hides Xapian exceptions.  When a reader
opened the database while two changes were committed, the first read of
a table raised DatabaseModifiedError there, and everything read later
came from what the failed read had left in Xapian's cursor: count and
search exited with success and reported an empty database.
---
 lib/database-private.h |  5 +++++
 lib/database.cc        | 21 +++++++++++++--------
 lib/open.cc            |  2 +-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/database-private.h b/lib/database-private.h
index 61232f1..c237af5 100644
--- a/lib/database-private.h
+++ b/lib/database-private.h
@@ -341,6 +341,11 @@ _notmuch_features
 _notmuch_database_parse_features (const void *ctx, const char *features, unsigned int version,
 				  char mode, char **incompat_out);
 
+/* As notmuch_database_get_version, but throw Xapian exceptions: after
+ * one, what the database still returns cannot be relied on. */
+unsigned int
+_notmuch_database_read_version (notmuch_database_t *notmuch);
+
 char *
 _notmuch_database_print_features (const void *ctx, unsigned int features);
 
diff --git a/lib/database.cc b/lib/database.cc
index aca0bad..b136ff2 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -827,20 +827,14 @@ notmuch_database_get_path (notmuch_database_t *notmuch)
 }
 
 unsigned int
-notmuch_database_get_version (notmuch_database_t *notmuch)
+_notmuch_database_read_version (notmuch_database_t *notmuch)
 {
     unsigned int version;
     string version_string;
     const char *str;
     char *end;
 
-    try {
-	version_string = notmuch->xapian_db->get_metadata ("version");
-    } catch (const Xapian::Error &error) {
-	LOG_XAPIAN_EXCEPTION (notmuch, error);
-	return 0;
-    }
-
+    version_string = notmuch->xapian_db->get_metadata ("version");
     if (version_string.empty ())
 	return 0;
 
@@ -855,6 +849,17 @@ notmuch_database_get_version (notmuch_database_t *notmuch)
     return version;
 }
 
+unsigned int
+notmuch_database_get_version (notmuch_database_t *notmuch)
+{
+    try {
+	return _notmuch_database_read_version (notmuch);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (notmuch, error);
+	return 0;
+    }
+}
+
 notmuch_bool_t
 notmuch_database_needs_upgrade (notmuch_database_t *notmuch)
 {
diff --git a/lib/open.cc b/lib/open.cc
index 611a2ac..e671b80 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -515,7 +515,7 @@ _finish_open (notmuch_database_t *notmuch,
 	/* Check version.  As of database version 3, we represent
 	 * changes in terms of features, so assume a version bump
 	 * means a dramatically incompatible change. */
-	version = notmuch_database_get_version (notmuch);
+	version = _notmuch_database_read_version (notmuch);
 	if (version > NOTMUCH_DATABASE_VERSION) {
 	    IGNORE_RESULT (asprintf (&message,
 				     "Error: Notmuch database at %s\n"
-- 
2.43.0


From 94c606477351c9be3cf68ffdea2b6614128747a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 29/43] fix: config set: refuse what the configuration file
 cannot represent

A ';' in one of several values, a newline in a name, or a value that
is not valid UTF-8 left a file that no later command could load, and
an invalid section or item name was silently ignored (or, with an empty
section, reported only as a failed assertion of GLib).
---
 notmuch-config.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/notmuch-config.c b/notmuch-config.c
index 8123e43..f74f839 100644
--- a/notmuch-config.c
+++ b/notmuch-config.c
@@ -463,7 +463,7 @@ _item_split (char *item, char **group, char **key)
     *group = item;
 
     period = strchr (item, '.');
-    if (period == NULL || *(period + 1) == '\0') {
+    if (period == NULL || period == item || *(period + 1) == '\0') {
 	fprintf (stderr,
 		 "Invalid configuration name: %s\n"
 		 "(Should be of the form <section>.<item>)\n", item);
@@ -595,6 +595,29 @@ _set_db_config (notmuch_database_t *notmuch, const char *key, int argc, char **a
     return EXIT_SUCCESS;
 }
 
+/* Check that the changed configuration can be read back, in
+ * particular the given item: some names and values (such as a ';' in
+ * one of several values) cannot be represented in the file, and it
+ * must not be replaced by one that no command could load any more.
+ */
+static bool
+_conffile_readable (notmuch_conffile_t *config, const char *group, const char *key)
+{
+    GKeyFile *copy = g_key_file_new ();
+    gsize length = 0;
+    char *data, *value = NULL;
+
+    data = g_key_file_to_data (config->key_file, &length, NULL);
+    if (data && g_key_file_load_from_data (copy, data, length, G_KEY_FILE_NONE, NULL))
+	value = g_key_file_get_string (copy, group, key, NULL);
+
+    g_free (data);
+    g_free (value);
+    g_key_file_free (copy);
+
+    return value != NULL;
+}
+
 static int
 notmuch_config_command_set (notmuch_database_t *notmuch,
 			    int argc, char *argv[])
@@ -669,7 +692,13 @@ notmuch_config_command_set (notmuch_database_t *notmuch,
 	break;
     }
 
-    ret = notmuch_conffile_save (config);
+    if (argc > 0 && ! _conffile_readable (config, group, key)) {
+	fprintf (stderr, "Error: cannot represent %s.%s in the configuration file\n",
+		 group, key);
+	ret = 1;
+    } else {
+	ret = notmuch_conffile_save (config);
+    }
 
     notmuch_conffile_close (config);
 
-- 
2.43.0


From f446314206cdc512f83e712555e4d4790d5f3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 30/43] fix: find properties whose key starts with a capital
 letter or ':'

Xapian puts a ':' between the prefix and such a term, which notmuch does
not do when it stores it.
---
 lib/prefix.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/prefix.cc b/lib/prefix.cc
index 06e2333..95604f4 100644
--- a/lib/prefix.cc
+++ b/lib/prefix.cc
@@ -48,7 +48,8 @@ prefix_t prefix_table[] = {
       NOTMUCH_FIELD_PROCESSOR },
     { "path",                   "P",            NOTMUCH_FIELD_EXTERNAL |
       NOTMUCH_FIELD_PROCESSOR | NOTMUCH_FIELD_STRIP_TRAILING_SLASH },
-    { "property",               "XPROPERTY",    NOTMUCH_FIELD_EXTERNAL },
+    { "property",               "XPROPERTY",    NOTMUCH_FIELD_EXTERNAL |
+      NOTMUCH_FIELD_PROCESSOR },
     /*
      * Unconditionally add ':' to reduce potential ambiguity with
      * overlapping prefixes and/or terms that start with capital
@@ -118,6 +119,23 @@ _notmuch_database_prefix (notmuch_database_t *notmuch, const char *name)
     return NULL;
 }
 
+/* Left to itself, Xapian would look for terms with a ':' behind the
+ * prefix for keys that start with a capital letter or a ':'. */
+class PropertyFieldProcessor : public Xapian::FieldProcessor {
+    std::string term_prefix;
+
+public:
+    PropertyFieldProcessor (const char *term_prefix_)
+	: term_prefix (term_prefix_)
+    {
+    };
+
+    Xapian::Query operator() (const std::string & str)
+    {
+	return Xapian::Query (term_prefix + str);
+    }
+};
+
 static void
 _setup_query_field_default (const prefix_t *prefix, notmuch_database_t *notmuch)
 {
@@ -141,6 +159,8 @@ _setup_query_field (const prefix_t *prefix, notmuch_database_t *notmuch)
 	    fp = (new QueryFieldProcessor (*notmuch->query_parser, notmuch))->release ();
 	else if (STRNCMP_LITERAL (prefix->name, "thread") == 0)
 	    fp = (new ThreadFieldProcessor (*notmuch->query_parser, notmuch))->release ();
+	else if (STRNCMP_LITERAL (prefix->name, "property") == 0)
+	    fp = (new PropertyFieldProcessor (prefix->prefix))->release ();
 	else if (STRNCMP_LITERAL (prefix->name, "sexp") == 0)
 	    fp = (new SexpFieldProcessor (notmuch))->release ();
 	else
-- 
2.43.0


From ae49949878c797ee09d49ee208dd5b2109b8dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 31/43] fix: do not strip a trailing slash from tags and
 message ids in queries

That is only meant for the names of directories.
---
 lib/regexp-fields.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/regexp-fields.cc b/lib/regexp-fields.cc
index 3a77526..ce2f073 100644
--- a/lib/regexp-fields.cc
+++ b/lib/regexp-fields.cc
@@ -240,7 +240,8 @@ RegexpFieldProcessor::operator() (const std::string & str)
 	    std::string query_str;
 	    std::string term;
 
-	    if (str.length () > 1 && str.at (str.size () - 1) == '/')
+	    if ((options & NOTMUCH_FIELD_STRIP_TRAILING_SLASH) &&
+		str.length () > 1 && str.at (str.size () - 1) == '/')
 		query_str = str.substr (0, str.size () - 1);
 	    else
 		query_str = str;
-- 
2.43.0


From f02e28d66897af6e7cee3dfa653e952517e05f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 32/43] fix: restore: take the format from the first line of
 the dump

A message-id with a '(' in the first line that names a message made a dump
in batch-tag format look like one in sup format, and no tags were restored.
---
 notmuch-restore.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 31be486..2751d31 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -374,6 +374,14 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	    goto DONE;
 	}
 
+	/* the first line of a dump may tell its format */
+	if (input_format == DUMP_FORMAT_AUTO) {
+	    if (STRNCMP_LITERAL (line, "#notmuch-dump batch-tag:") == 0)
+		input_format = DUMP_FORMAT_BATCH_TAG;
+	    else if (STRNCMP_LITERAL (line, "#notmuch-dump sup:") == 0)
+		input_format = DUMP_FORMAT_SUP;
+	}
+
 	if ((include & DUMP_INCLUDE_CONFIG) && line_len >= 2 && line[0] == '#' && line[1] == '@') {
 	    ret = process_config_line (notmuch, line + 2);
 	    if (ret)
-- 
2.43.0


From 437f4ed98bf1972fa601900e5d9f602acf995ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 33/43] fix: restore --include=properties: do not touch tags

---
 notmuch-restore.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 2751d31..656954f 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -435,6 +435,10 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 		goto DONE;
 	}
 
+	/* everything but comments is about tags */
+	if (! (include & DUMP_INCLUDE_TAGS))
+	    continue;
+
 	if (input_format == DUMP_FORMAT_SUP) {
 	    ret = parse_sup_line (line_ctx, line, &query_string, tag_ops);
 	} else {
-- 
2.43.0


From 011d7c2676606135f17af07b4dab65f4fe99d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 34/43] fix: reopen: leave an open atomic section and keep the
 handle usable on failure

---
 lib/open.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/open.cc b/lib/open.cc
index e671b80..f79d53d 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -861,21 +861,29 @@ notmuch_database_reopen (notmuch_database_t *notmuch,
 	    new_mode == NOTMUCH_DATABASE_MODE_READ_ONLY) {
 	    notmuch->xapian_db->reopen ();
 	} else {
-	    notmuch->xapian_db->close ();
+	    Xapian::WritableDatabase *writable_db = NULL;
+	    Xapian::Database *db;
 
-	    delete notmuch->xapian_db;
-	    notmuch->xapian_db = NULL;
-	    /* no need to free the same object twice */
-	    notmuch->writable_xapian_db = NULL;
+	    /* This abandons any open atomic section. */
+	    notmuch->atomic_nesting = 0;
+	    notmuch->atomic_dirty = false;
+	    notmuch->xapian_db->close ();
 
+	    /* The closed database is kept until there is a new one, so
+	     * that there is something to use (and to destroy) after a
+	     * failure. */
 	    if (new_mode == NOTMUCH_DATABASE_MODE_READ_WRITE) {
-		notmuch->writable_xapian_db = new Xapian::WritableDatabase (notmuch->xapian_path,
-									    DB_ACTION);
-		notmuch->xapian_db = notmuch->writable_xapian_db;
+		writable_db = new Xapian::WritableDatabase (notmuch->xapian_path,
+							    DB_ACTION);
+		db = writable_db;
 	    } else {
-		notmuch->xapian_db = new Xapian::Database (notmuch->xapian_path,
-							   DB_ACTION);
+		db = new Xapian::Database (notmuch->xapian_path,
+					   DB_ACTION);
 	    }
+
+	    delete notmuch->xapian_db;
+	    notmuch->xapian_db = db;
+	    notmuch->writable_xapian_db = writable_db;
 	}
 
 	_load_database_state (notmuch);
-- 
2.43.0


From 0aad648030b4e143203082fddc36602b50d3939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 35/43] fix: report a read error while a message is indexed

---
 lib/add-message.cc | 11 ++++----
 lib/index.cc       | 63 ++++++++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/lib/add-message.cc b/lib/add-message.cc
index b16748f..91436fd 100644
--- a/lib/add-message.cc
+++ b/lib/add-message.cc
@@ -540,11 +540,6 @@ notmuch_database_index_file (notmuch_database_t *notmuch,
 		_notmuch_message_remove_term (message, "type", "ghost");
 	}
 
-	ret = _notmuch_database_link_message (notmuch, message,
-					      message_file, is_ghost, is_new);
-	if (ret)
-	    goto DONE;
-
 	if (is_new || is_ghost)
 	    _notmuch_message_set_header_values (message, date, from, subject);
 
@@ -557,6 +552,12 @@ notmuch_database_index_file (notmuch_database_t *notmuch,
 	if (ret)
 	    goto DONE;
 
+	/* Other messages change only after all of the file was read. */
+	ret = _notmuch_database_link_message (notmuch, message,
+					      message_file, is_ghost, is_new);
+	if (ret)
+	    goto DONE;
+
 	if (! is_new && ! is_ghost)
 	    ret = NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID;
 
diff --git a/lib/index.cc b/lib/index.cc
index 629dcb2..e6a6700 100644
--- a/lib/index.cc
+++ b/lib/index.cc
@@ -369,12 +369,12 @@ _index_content_type (notmuch_message_t *message, GMimeObject *part)
     }
 }
 
-static void
+static notmuch_status_t
 _index_encrypted_mime_part (notmuch_message_t *message, notmuch_indexopts_t *indexopts,
 			    GMimeObject *part,
 			    _notmuch_message_crypto_t *msg_crypto);
 
-static void
+static notmuch_status_t
 _index_pkcs7_part (notmuch_message_t *message,
 		   notmuch_indexopts_t *indexopts,
 		   GMimeObject *part,
@@ -398,7 +398,7 @@ _indexable_as_text (notmuch_message_t *message, GMimeObject *part)
 }
 
 /* Callback to generate terms for each mime part of a message. */
-static void
+static notmuch_status_t
 _index_mime_part (notmuch_message_t *message,
 		  notmuch_indexopts_t *indexopts,
 		  GMimeObject *part,
@@ -413,6 +413,7 @@ _index_mime_part (notmuch_message_t *message,
     char *body;
     const char *charset;
     GMimeObject *repaired_part = NULL;
+    notmuch_status_t status = NOTMUCH_STATUS_SUCCESS;
 
     if (! part) {
 	_notmuch_database_log (notmuch_message_get_database (message),
@@ -457,9 +458,11 @@ _index_mime_part (notmuch_message_t *message,
 		_index_content_type (message,
 				     g_mime_multipart_get_part (multipart, i));
 		if (i == GMIME_MULTIPART_ENCRYPTED_CONTENT) {
-		    _index_encrypted_mime_part (message, indexopts,
-						part,
-						msg_crypto);
+		    status = _index_encrypted_mime_part (message, indexopts,
+							 part,
+							 msg_crypto);
+		    if (status)
+			goto DONE;
 		} else {
 		    if (i != GMIME_MULTIPART_ENCRYPTED_VERSION) {
 			_notmuch_database_log (notmuch_message_get_database (message),
@@ -477,7 +480,9 @@ _index_mime_part (notmuch_message_t *message,
 		    notmuch_message_add_property (message, "index.repaired",
 						  "skip-protected-headers-legacy-display");
 	    }
-	    _index_mime_part (message, indexopts, toindex, msg_crypto);
+	    status = _index_mime_part (message, indexopts, toindex, msg_crypto);
+	    if (status)
+		goto DONE;
 	}
 	goto DONE;
     }
@@ -487,14 +492,14 @@ _index_mime_part (notmuch_message_t *message,
 
 	mime_message = g_mime_message_part_get_message (GMIME_MESSAGE_PART (part));
 
-	_index_mime_part (message, indexopts, g_mime_message_get_mime_part (mime_message),
-			  msg_crypto);
+	status = _index_mime_part (message, indexopts, g_mime_message_get_mime_part (mime_message),
+				   msg_crypto);
 
 	goto DONE;
     }
 
     if (GMIME_IS_APPLICATION_PKCS7_MIME (part)) {
-	_index_pkcs7_part (message, indexopts, part, msg_crypto);
+	status = _index_pkcs7_part (message, indexopts, part, msg_crypto);
 	goto DONE;
     }
 
@@ -549,8 +554,10 @@ _index_mime_part (notmuch_message_t *message,
     }
 
     wrapper = g_mime_part_get_content (GMIME_PART (part));
-    if (wrapper)
-	g_mime_data_wrapper_write_to_stream (wrapper, filter);
+    /* The filters and the memory do not fail, so it is the file that
+     * cannot be read. */
+    if (wrapper && g_mime_data_wrapper_write_to_stream (wrapper, filter) < 0)
+	status = NOTMUCH_STATUS_FILE_ERROR;
 
     g_object_unref (stream);
     g_object_unref (filter);
@@ -567,23 +574,24 @@ _index_mime_part (notmuch_message_t *message,
   DONE:
     if (repaired_part)
 	g_object_unref (repaired_part);
+    return status;
 }
 
 /* descend (if desired) into the cleartext part of an encrypted MIME
  * part while indexing. */
-static void
+static notmuch_status_t
 _index_encrypted_mime_part (notmuch_message_t *message,
 			    notmuch_indexopts_t *indexopts,
 			    GMimeObject *encrypted_data,
 			    _notmuch_message_crypto_t *msg_crypto)
 {
-    notmuch_status_t status;
+    notmuch_status_t status, ret;
     GError *err = NULL;
     notmuch_database_t *notmuch = NULL;
     GMimeObject *clear = NULL;
 
     if (! indexopts || (notmuch_indexopts_get_decrypt_policy (indexopts) == NOTMUCH_DECRYPT_FALSE))
-	return;
+	return NOTMUCH_STATUS_SUCCESS;
 
     notmuch = notmuch_message_get_database (message);
 
@@ -594,7 +602,7 @@ _index_encrypted_mime_part (notmuch_message_t *message,
     clear = _notmuch_crypto_decrypt (&attempted, notmuch_indexopts_get_decrypt_policy (indexopts),
 				     message, encrypted_data, get_sk ? &decrypt_result : NULL, &err);
     if (! attempted)
-	return;
+	return NOTMUCH_STATUS_SUCCESS;
     if (err || ! clear) {
 	if (decrypt_result)
 	    g_object_unref (decrypt_result);
@@ -610,7 +618,7 @@ _index_encrypted_mime_part (notmuch_message_t *message,
 	if (status)
 	    _notmuch_database_log_append (notmuch, "failed to add index.decryption "
 					  "property (%d)\n", status);
-	return;
+	return NOTMUCH_STATUS_SUCCESS;
     }
     if (decrypt_result) {
 	status = _notmuch_message_crypto_successful_decryption (msg_crypto);
@@ -637,17 +645,20 @@ _index_encrypted_mime_part (notmuch_message_t *message,
 	    notmuch_message_add_property (message, "index.repaired",
 					  "skip-protected-headers-legacy-display");
     }
-    _index_mime_part (message, indexopts, toindex, msg_crypto);
+    ret = _index_mime_part (message, indexopts, toindex, msg_crypto);
     g_object_unref (clear);
+    if (ret)
+	return ret;
 
     status = notmuch_message_add_property (message, "index.decryption", "success");
     if (status)
 	_notmuch_database_log (notmuch, "failed to add index.decryption "
 			       "property (%d)\n", status);
 
+    return NOTMUCH_STATUS_SUCCESS;
 }
 
-static void
+static notmuch_status_t
 _index_pkcs7_part (notmuch_message_t *message,
 		   notmuch_indexopts_t *indexopts,
 		   GMimeObject *part,
@@ -659,6 +670,7 @@ _index_pkcs7_part (notmuch_message_t *message,
     GMimeSignatureList *sigs = NULL;
     GError *err = NULL;
     notmuch_database_t *notmuch = NULL;
+    notmuch_status_t status = NOTMUCH_STATUS_SUCCESS;
 
     pkcs7 = GMIME_APPLICATION_PKCS7_MIME (part);
     p7type = g_mime_application_pkcs7_mime_get_smime_type (pkcs7);
@@ -683,12 +695,12 @@ _index_pkcs7_part (notmuch_message_t *message,
 		notmuch_message_add_property (message, "index.repaired",
 					      "skip-protected-headers-legacy-display");
 	}
-	_index_mime_part (message, indexopts, toindex, msg_crypto);
+	status = _index_mime_part (message, indexopts, toindex, msg_crypto);
     } else if (p7type == GMIME_SECURE_MIME_TYPE_ENVELOPED_DATA) {
 	_notmuch_message_add_term (message, "tag", "encrypted");
-	_index_encrypted_mime_part (message, indexopts,
-				    part,
-				    msg_crypto);
+	status = _index_encrypted_mime_part (message, indexopts,
+					     part,
+					     msg_crypto);
     } else {
 	_notmuch_database_log (notmuch, "Cannot currently handle PKCS#7 smime-type '%s'\n",
 			       g_mime_object_get_content_type_parameter (part, "smime-type"));
@@ -698,6 +710,7 @@ _index_pkcs7_part (notmuch_message_t *message,
 	g_object_unref (mimeobj);
     if (sigs)
 	g_object_unref (sigs);
+    return status;
 }
 
 static notmuch_status_t
@@ -758,7 +771,7 @@ _notmuch_message_index_file (notmuch_message_t *message,
     status = _notmuch_message_index_user_headers (message, mime_message);
 
     msg_crypto = _notmuch_message_crypto_new (NULL);
-    _index_mime_part (message, indexopts, g_mime_message_get_mime_part (mime_message), msg_crypto);
+    status = _index_mime_part (message, indexopts, g_mime_message_get_mime_part (mime_message), msg_crypto);
     if (msg_crypto && msg_crypto->payload_subject) {
 	_notmuch_message_gen_terms (message, "subject", msg_crypto->payload_subject);
 	_notmuch_message_update_subject (message, msg_crypto->payload_subject);
@@ -766,5 +779,5 @@ _notmuch_message_index_file (notmuch_message_t *message,
 
     talloc_free (msg_crypto);
 
-    return NOTMUCH_STATUS_SUCCESS;
+    return status;
 }
-- 
2.43.0


From 00d930f79c4c50bf0c35264b1240d310366b7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 36/43] fix: threads: never lose messages whose reply links
 form a cycle

When In-Reply-To headers form a cycle beside another top-level message,
or a top-level message was put below one of its own replies because of
its References, none of the messages involved could be reached from the
top-level messages of the thread, and notmuch show left them out.
---
 lib/thread.cc | 143 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 110 insertions(+), 33 deletions(-)

diff --git a/lib/thread.cc b/lib/thread.cc
index 60e9a66..882e146 100644
--- a/lib/thread.cc
+++ b/lib/thread.cc
@@ -394,29 +394,104 @@ _thread_add_matched_message (notmuch_thread_t *thread,
     return 0;
 }
 
-static bool
-_parent_via_in_reply_to (notmuch_thread_t *thread, notmuch_message_t *message)
+/* The message of this thread (if any) which 'message' replies to,
+ * according to its In-Reply-To header.
+ */
+static notmuch_message_t *
+_in_reply_to_parent (notmuch_thread_t *thread, notmuch_message_t *message)
 {
-    notmuch_message_t *parent;
+    void *parent;
     const char *in_reply_to;
 
     in_reply_to = _notmuch_message_get_in_reply_to (message);
     THREAD_DEBUG ("checking message = %s in_reply_to=%s",
 		  notmuch_message_get_message_id (message), in_reply_to);
 
-    if (in_reply_to && (! EMPTY_STRING (in_reply_to)) &&
-	g_hash_table_lookup_extended (thread->message_hash,
-				      in_reply_to, NULL,
-				      (void **) &parent)) {
-	_notmuch_message_add_reply (parent, message);
-	return true;
-    } else {
-	return false;
+    if (! in_reply_to || EMPTY_STRING (in_reply_to) ||
+	! g_hash_table_lookup_extended (thread->message_hash,
+					in_reply_to, NULL, &parent))
+	return NULL;
+
+    return (notmuch_message_t *) parent;
+}
+
+/* The In-Reply-To headers of a thread can form cycles. Choose the
+ * oldest message of each of them to be treated as if it was not a
+ * reply.
+ *
+ * The returned table (keys are messages) has to be freed by the caller.
+ */
+static GHashTable *
+_break_cycles (notmuch_thread_t *thread)
+{
+    GHashTable *breaks = g_hash_table_new (NULL, NULL);
+    /* The message whose ancestors were being followed when we first
+     * met each message. */
+    GHashTable *visited = g_hash_table_new (NULL, NULL);
+
+    for (notmuch_message_node_t *node = thread->message_list->head; node; node = node->next) {
+	notmuch_message_t *start = node->message;
+	notmuch_message_t *message = start;
+
+	while (message && ! g_hash_table_lookup (visited, message)) {
+	    g_hash_table_insert (visited, message, start);
+	    message = _in_reply_to_parent (thread, message);
+	}
+
+	/* If this search came back to a message it has seen, that
+	 * message is part of a cycle. */
+	if (message && g_hash_table_lookup (visited, message) == start) {
+	    notmuch_message_t *oldest = message;
+	    notmuch_message_t *other = _in_reply_to_parent (thread, message);
+
+	    for (; other != message; other = _in_reply_to_parent (thread, other)) {
+		if (notmuch_message_get_date (other) < notmuch_message_get_date (oldest))
+		    oldest = other;
+	    }
+	    g_hash_table_insert (breaks, oldest, oldest);
+	}
     }
+
+    g_hash_table_destroy (visited);
+    return breaks;
+}
+
+static void
+_add_reply (GHashTable *parents, notmuch_message_t *parent, notmuch_message_t *message)
+{
+    g_hash_table_insert (parents, message, parent);
+    _notmuch_message_add_reply (parent, message);
+}
+
+static bool
+_parent_via_in_reply_to (notmuch_thread_t *thread, GHashTable *breaks, GHashTable *parents,
+			 notmuch_message_t *message)
+{
+    notmuch_message_t *parent;
+
+    if (g_hash_table_lookup (breaks, message))
+	return false;
+
+    parent = _in_reply_to_parent (thread, message);
+    if (! parent)
+	return false;
+
+    _add_reply (parents, parent, message);
+    return true;
+}
+
+/* Is 'message' the same as, or (by 'parents') somewhere below 'ancestor'? */
+static bool
+_is_below (GHashTable *parents, notmuch_message_t *message, notmuch_message_t *ancestor)
+{
+    while (message && message != ancestor)
+	message = (notmuch_message_t *) g_hash_table_lookup (parents, message);
+
+    return message != NULL;
 }
 
 static void
-_parent_or_toplevel (notmuch_thread_t *thread, notmuch_message_t *message)
+_parent_or_toplevel (notmuch_thread_t *thread, GHashTable *parents, notmuch_message_t *message)
 {
     size_t max_depth = 0;
     notmuch_message_t *new_parent;
@@ -435,7 +510,8 @@ _parent_or_toplevel (notmuch_thread_t *thread, notmuch_message_t *message)
 					   (void **) &new_parent))) {
 	    size_t new_depth = _notmuch_message_get_thread_depth (new_parent);
 	    THREAD_DEBUG ("got depth %lu", new_depth);
-	    if (new_depth > max_depth || ! parent) {
+	    if ((new_depth > max_depth || ! parent) &&
+		! _is_below (parents, new_parent, message)) {
 		THREAD_DEBUG ("adding at depth %lu parent=%s", new_depth, ref_node->string);
 		max_depth = new_depth;
 		parent = new_parent;
@@ -446,7 +522,7 @@ _parent_or_toplevel (notmuch_thread_t *thread, notmuch_message_t *message)
 	THREAD_DEBUG ("adding reply %s to parent=%s",
 		      notmuch_message_get_message_id (message),
 		      notmuch_message_get_message_id (parent));
-	_notmuch_message_add_reply (parent, message);
+	_add_reply (parents, parent, message);
     } else {
 	THREAD_DEBUG ("adding as toplevel %s",
 		      notmuch_message_get_message_id (message));
@@ -461,6 +537,7 @@ _resolve_thread_relationships (notmuch_thread_t *thread)
     notmuch_message_t *message;
     void *local;
     notmuch_message_list_t *maybe_toplevel_list;
+    GHashTable *breaks, *parents;
 
     first_node = thread->message_list->head;
     if (! first_node)
@@ -469,30 +546,28 @@ _resolve_thread_relationships (notmuch_thread_t *thread)
     local = talloc_new (thread);
     maybe_toplevel_list = _notmuch_message_list_create (local);
 
+    /*
+     * if the thread contains a cycle (or set of cycles), any of its
+     * messages can be considered top-level. Choose the oldest message
+     * of each.
+     */
+    breaks = _break_cycles (thread);
+    parents = g_hash_table_new (NULL, NULL);
+
     for (node = first_node->next; node; node = node->next) {
 	message = node->message;
-	if (! _parent_via_in_reply_to (thread, message))
+	if (! _parent_via_in_reply_to (thread, breaks, parents, message))
 	    _notmuch_message_list_add_message (maybe_toplevel_list, message);
     }
 
-    /*
-     * if we reach the end of the list without finding a top-level
-     * message, that means the thread is a cycle (or set of cycles)
-     * and any message can be considered top-level.  Choose the oldest
-     * message, which happens to be first in our list.
-     */
-    if (first_node) {
-	message = first_node->message;
-	THREAD_DEBUG ("checking first message  %s",
-		      notmuch_message_get_message_id (message));
-
-	if (_notmuch_message_list_empty (maybe_toplevel_list) ||
-	    ! _parent_via_in_reply_to (thread, message)) {
+    message = first_node->message;
+    THREAD_DEBUG ("checking first message  %s",
+		  notmuch_message_get_message_id (message));
 
-	    THREAD_DEBUG ("adding first message as toplevel = %s",
-			  notmuch_message_get_message_id (message));
-	    _notmuch_message_list_add_message (maybe_toplevel_list, message);
-	}
+    if (! _parent_via_in_reply_to (thread, breaks, parents, message)) {
+	THREAD_DEBUG ("adding first message as toplevel = %s",
+		      notmuch_message_get_message_id (message));
+	_notmuch_message_list_add_message (maybe_toplevel_list, message);
     }
 
     for (notmuch_messages_t *messages = _notmuch_messages_create (maybe_toplevel_list);
@@ -508,7 +583,7 @@ _resolve_thread_relationships (notmuch_thread_t *thread)
 	notmuch_message_t *message = notmuch_messages_get (roots);
 	if (_notmuch_messages_has_next (roots) || ! _notmuch_message_list_empty (
 		thread->toplevel_list))
-	    _parent_or_toplevel (thread, message);
+	    _parent_or_toplevel (thread, parents, message);
 	else
 	    _notmuch_message_list_add_message (thread->toplevel_list, message);
     }
@@ -518,6 +593,8 @@ _resolve_thread_relationships (notmuch_thread_t *thread)
      */
     thread->toplevel_list = _notmuch_message_sort_subtrees (thread, thread->toplevel_list);
 
+    g_hash_table_destroy (parents);
+    g_hash_table_destroy (breaks);
     talloc_free (local);
 }
 
-- 
2.43.0


From 5a2f942b844c4bd69a6fce42b27b05a045a79aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 37/43] fix: recognise self references of messages with too
 long message ids

The message id of such a message is replaced by its sha1, but its own
references were compared with the unmodified message id, and a second
(ghost) document was created for the same message id.
---
 lib/add-message.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/add-message.cc b/lib/add-message.cc
index 91436fd..4f13b54 100644
--- a/lib/add-message.cc
+++ b/lib/add-message.cc
@@ -24,6 +24,11 @@ parse_references (void *ctx,
     while (*refs) {
 	ref = _notmuch_message_id_parse (ctx, refs, &refs);
 
+	/* Too long message IDs are replaced by their sha1 in the
+	 * database, and in 'message_id'. */
+	if (ref && strlen (ref) > NOTMUCH_MESSAGE_ID_MAX)
+	    ref = _notmuch_message_id_compressed (ctx, ref);
+
 	if (ref && strcmp (ref, message_id)) {
 	    g_hash_table_add (hash, ref);
 	    last_ref = ref;
-- 
2.43.0


From d2c49410cf0bcfe82572ca77863fa742b9ba3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 38/43] fix: insert: discard the changes to the database when
 adding a message fails

Xapian throws away some of the changes of the transaction when one of
them fails, committing the rest left threads half merged.
---
 notmuch-insert.c | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index 1d0cd90..683046e 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -442,9 +442,9 @@ renamed_path (const void *ctx, notmuch_message_t *message, const char *path)
  *
  * Return NOTMUCH_STATUS_SUCCESS on success, errors otherwise. If keep
  * is true, errors in tag changes and flag syncing are ignored and
- * success status is returned; otherwise such errors cause the message
- * to be removed from the database. Failure to add the message to the
- * database results in error status regardless of keep.
+ * success status is returned. Failure to add the message to the
+ * database results in error status regardless of keep. On errors, the
+ * caller has to discard what was changed in the database.
  *
  * On return *path_ptr is the name the file has now.
  */
@@ -491,21 +491,8 @@ add_file (const void *ctx, notmuch_database_t *notmuch, const char **path_ptr,
   DONE:
     notmuch_message_destroy (message);
 
-    if (status) {
-	if (keep) {
-	    status = NOTMUCH_STATUS_SUCCESS;
-	} else {
-	    notmuch_status_t cleanup_status;
-
-	    cleanup_status = notmuch_database_remove_message (notmuch, path);
-	    if (cleanup_status != NOTMUCH_STATUS_SUCCESS &&
-		cleanup_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
-		fprintf (stderr, "Warning: failed to remove '%s' from database "
-			 "after errors: %s. Please run 'notmuch new' to fix.\n",
-			 path, notmuch_status_to_string (cleanup_status));
-	    }
-	}
-    }
+    if (status && keep)
+	status = NOTMUCH_STATUS_SUCCESS;
 
   FAIL:
     return status;
@@ -628,17 +615,13 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
     }
 
     /* Index the message. Adding it and tagging it is one change: when
-     * saving that fails, nothing may stay in the database. */
+     * any of it fails, nothing may stay in the database. Leaving the
+     * atomic section open discards the changes. */
     status = notmuch_database_begin_atomic (notmuch);
-    if (status == NOTMUCH_STATUS_SUCCESS) {
-	notmuch_status_t end_status;
-
+    if (status == NOTMUCH_STATUS_SUCCESS)
 	status = add_file (local, notmuch, &newpath, tag_ops, synchronize_flags, keep, indexopts);
-
-	end_status = notmuch_database_end_atomic (notmuch);
-	if (! status)
-	    status = end_status;
-    }
+    if (status == NOTMUCH_STATUS_SUCCESS)
+	status = notmuch_database_end_atomic (notmuch);
 
     /* Commit changes. */
     close_status = notmuch_database_close (notmuch);
-- 
2.43.0


From eae47c19c9a383390c2bb2f3ef576b291de0180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 39/43] fix: do not commit what a failed commit left behind

When a commit failed, Xapian was left with an unspecified part of the
changes, and committed that when the database was closed or destroyed:
the database was changed after a failure was reported, and its tables
did not fit together.
---
 lib/database-private.h |  6 ++++++
 lib/database.cc        | 26 ++++++++++++++++++++++++++
 lib/open.cc            |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/lib/database-private.h b/lib/database-private.h
index c237af5..fb78ff5 100644
--- a/lib/database-private.h
+++ b/lib/database-private.h
@@ -241,6 +241,9 @@ struct _notmuch_database {
     int atomic_nesting;
     /* true if changes have been made in this atomic section */
     bool atomic_dirty;
+    /* true if saving changes failed: what is left of them must not be
+     * committed */
+    bool commit_failed;
     Xapian::Database *xapian_db;
     Xapian::WritableDatabase *writable_xapian_db;
     bool open;
@@ -350,6 +353,9 @@ char *
 _notmuch_database_print_features (const void *ctx, unsigned int features);
 
 /* prefix.cc */
+void
+_notmuch_database_drop_changes (notmuch_database_t *notmuch);
+
 notmuch_status_t
 _notmuch_database_setup_standard_query_fields (notmuch_database_t *notmuch);
 
diff --git a/lib/database.cc b/lib/database.cc
index b136ff2..90b2e0f 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -503,6 +503,25 @@ _notmuch_database_new_revision (notmuch_database_t *notmuch)
     return new_revision;
 }
 
+/* A failed commit leaves an unspecified part of the changes behind in
+ * Xapian, which tries to commit them again when the database is
+ * closed or destroyed. Make it discard them, like those of any open
+ * transaction.
+ */
+void
+_notmuch_database_drop_changes (notmuch_database_t *notmuch)
+{
+    if (! notmuch->writable_xapian_db)
+	return;
+
+    notmuch->commit_failed = true;
+    try {
+	notmuch->writable_xapian_db->begin_transaction (false);
+    } catch (const Xapian::Error &error) {
+	/* Already in a transaction, or closed. */
+    }
+}
+
 notmuch_status_t
 notmuch_database_close (notmuch_database_t *notmuch)
 {
@@ -524,6 +543,7 @@ notmuch_database_close (notmuch_database_t *notmuch)
 				       "Error: A Xapian exception occurred closing database: %s\n",
 				       error.get_msg ().c_str ());
 	    }
+	    _notmuch_database_drop_changes (notmuch);
 	}
     }
     notmuch->open = false;
@@ -1174,6 +1194,7 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
 	return _notmuch_database_do_upgrade (notmuch, progress_notify, closure);
     } catch (const Xapian::Error &error) {
 	LOG_XAPIAN_EXCEPTION (notmuch, error);
+	_notmuch_database_drop_changes (notmuch);
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 }
@@ -1214,6 +1235,9 @@ notmuch_database_end_atomic (notmuch_database_t *notmuch)
 	notmuch->atomic_nesting > 1)
 	goto DONE;
 
+    if (notmuch->commit_failed)
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+
     db = notmuch->writable_xapian_db;
     try {
 	db->commit_transaction ();
@@ -1236,6 +1260,8 @@ notmuch_database_end_atomic (notmuch_database_t *notmuch)
 	_notmuch_database_log (notmuch, "A Xapian exception occurred committing transaction: %s.\n",
 			       error.get_msg ().c_str ());
 	notmuch->exception_reported = true;
+	/* The section stays open. */
+	_notmuch_database_drop_changes (notmuch);
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
diff --git a/lib/open.cc b/lib/open.cc
index f79d53d..16dbc9b 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -884,6 +884,7 @@ notmuch_database_reopen (notmuch_database_t *notmuch,
 	    delete notmuch->xapian_db;
 	    notmuch->xapian_db = db;
 	    notmuch->writable_xapian_db = writable_db;
+	    notmuch->commit_failed = false;
 	}
 
 	_load_database_state (notmuch);
@@ -893,6 +894,7 @@ notmuch_database_reopen (notmuch_database_t *notmuch,
 				   error.get_msg ().c_str ());
 	    notmuch->exception_reported = true;
 	}
+	_notmuch_database_drop_changes (notmuch);
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
-- 
2.43.0


From 34d0e86f4620fe0cac22379838ea8dd84a056b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 40/43] fix: do not reset the revision when the last message is
 removed

The revision number is computed from the greatest LAST_MOD value of the
messages when a database is opened.  With the last message removed it
started at 0 again, and changes made later were not found by a client
that asked for changes since the revision it knew.  Save it in the
metadata in this case.
---
 lib/database-private.h |  3 +++
 lib/database.cc        | 25 +++++++++++++++++++++++++
 lib/message.cc         |  2 ++
 lib/open.cc            |  2 ++
 4 files changed, 32 insertions(+)

diff --git a/lib/database-private.h b/lib/database-private.h
index fb78ff5..1c14aa1 100644
--- a/lib/database-private.h
+++ b/lib/database-private.h
@@ -356,6 +356,9 @@ _notmuch_database_print_features (const void *ctx, unsigned int features);
 void
 _notmuch_database_drop_changes (notmuch_database_t *notmuch);
 
+void
+_notmuch_database_keep_revision (notmuch_database_t *notmuch);
+
 notmuch_status_t
 _notmuch_database_setup_standard_query_fields (notmuch_database_t *notmuch);
 
diff --git a/lib/database.cc b/lib/database.cc
index 90b2e0f..1b5d1e0 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -212,6 +212,11 @@ _notmuch_database_mode (notmuch_database_t *notmuch)
  *			support this feature to read this database.
  *			Introduced in database version 3.
  *
+ *	last_mod	The revision number when the last message was
+ *			removed, as a serialised number like the values
+ *			of LAST_MOD (which has the revision number as
+ *			long as there are messages).
+ *
  *	last_thread_id	The last thread ID generated. This is stored
  *			as a 16-byte hexadecimal ASCII representation
  *			of a 64-bit unsigned integer. The first ID
@@ -486,6 +491,26 @@ _notmuch_database_ensure_writable (notmuch_database_t *notmuch)
     return NOTMUCH_STATUS_SUCCESS;
 }
 
+/* The revision number is known from the greatest LAST_MOD value of
+ * the messages. When the last of them is removed, save it in the
+ * metadata, so that it is not used again.
+ */
+void
+_notmuch_database_keep_revision (notmuch_database_t *notmuch)
+{
+    unsigned long revision = notmuch->revision;
+
+    if (notmuch->writable_xapian_db->get_value_freq (NOTMUCH_VALUE_LAST_MOD) > 0)
+	return;
+
+    /* The revision number that ends the current atomic section. */
+    if (notmuch->atomic_dirty)
+	revision++;
+
+    notmuch->writable_xapian_db->set_metadata ("last_mod",
+					       Xapian::sortable_serialise (revision));
+}
+
 /* Allocate a revision number for the next change. */
 unsigned long
 _notmuch_database_new_revision (notmuch_database_t *notmuch)
diff --git a/lib/message.cc b/lib/message.cc
index 83b55b1..06d182d 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1473,6 +1473,8 @@ _notmuch_message_delete (notmuch_message_t *message)
 	    for (; doc != doc_end; doc++) {
 		message->notmuch->writable_xapian_db->delete_document (*doc);
 	    }
+
+	    _notmuch_database_keep_revision (notmuch);
 	} catch (Xapian::Error &error) {
 	    LOG_XAPIAN_EXCEPTION (message, error);
 	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
diff --git a/lib/open.cc b/lib/open.cc
index 16dbc9b..107227c 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -431,6 +431,8 @@ _load_database_state (notmuch_database_t *notmuch)
     /* Get current highest revision number. */
     last_mod = notmuch->xapian_db->get_value_upper_bound (
 	NOTMUCH_VALUE_LAST_MOD);
+    if (last_mod.empty ())
+	last_mod = notmuch->xapian_db->get_metadata ("last_mod");
     if (last_mod.empty ())
 	notmuch->revision = 0;
     else
-- 
2.43.0


From 6d8f5fe303ce8bfe08dc3056d54d92a497f12266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 41/43] fix: release the lock when changes cannot be committed
 at close

notmuch_database_close left the database open and locked when Xapian
failed to commit the changes. A post-insert hook that writes to the
database then waited for that lock for ever (insert --keep).
---
 lib/database.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index 1b5d1e0..e2e9081 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -569,6 +569,13 @@ notmuch_database_close (notmuch_database_t *notmuch)
 				       error.get_msg ().c_str ());
 	    }
 	    _notmuch_database_drop_changes (notmuch);
+
+	    /* Nothing is left to be committed. Release the lock. */
+	    try {
+		notmuch->xapian_db->close ();
+	    } catch (const Xapian::Error &close_error) {
+		/* Reported above. */
+	    }
 	}
     }
     notmuch->open = false;
-- 
2.43.0


From d18f7a5cfdd97f24407ac8108da81c3cef434e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 42/43] fix: new: do not ignore failures to tag messages

When Xapian fails to write a message it drops all changes that were not
committed yet. notmuch new went on and reported success.
---
 notmuch-new.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 1f31dc9..fd1ddd7 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -383,8 +383,11 @@ add_file (notmuch_database_t *notmuch, const char *filename,
     case NOTMUCH_STATUS_SUCCESS:
 	state->added_messages++;
 	notmuch_message_freeze (message);
-	if (state->synchronize_flags)
-	    notmuch_message_maildir_flags_to_tags (message);
+	if (state->synchronize_flags) {
+	    status = notmuch_message_maildir_flags_to_tags (message);
+	    if (print_status_message ("add_file", message, status))
+		goto DONE;
+	}
 
 	for (notmuch_config_values_start (state->new_tags);
 	     notmuch_config_values_valid (state->new_tags);
@@ -400,7 +403,9 @@ add_file (notmuch_database_t *notmuch, const char *filename,
 	    }
 	}
 
-	notmuch_message_thaw (message);
+	status = notmuch_message_thaw (message);
+	if (print_status_message ("add_file", message, status))
+	    goto DONE;
 	break;
     /* Non-fatal issues (go on to next file). */
     case NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID:
@@ -965,9 +970,11 @@ remove_filename (notmuch_database_t *notmuch,
     status = notmuch_database_remove_message (notmuch, path);
     if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
 	add_files_state->renamed_messages++;
-	if (add_files_state->synchronize_flags == true)
-	    notmuch_message_maildir_flags_to_tags (message);
 	status = NOTMUCH_STATUS_SUCCESS;
+	if (add_files_state->synchronize_flags == true) {
+	    status = notmuch_message_maildir_flags_to_tags (message);
+	    (void) print_status_message ("remove_file", message, status);
+	}
     } else if (status == NOTMUCH_STATUS_SUCCESS) {
 	add_files_state->removed_messages++;
     }
-- 
2.43.0


From 98de6fcac658b5dee1c06903233c0aeebeca53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 43/43] fix: do not take an existing database for a new one

When the trial opening of an existing database failed for a moment,
notmuch new opened it as one being created: the database was upgraded
without a backup and recorded as having features that only newly made
databases have, so that headers not stored in old documents were no
longer looked up in the mail.
---
 lib/open.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/open.cc b/lib/open.cc
index 107227c..93b8300 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -344,6 +344,14 @@ _alloc_notmuch (const char *database_path, const char *config_path, const char *
     return notmuch;
 }
 
+/* True if the open database held something before it was opened */
+static bool
+_has_contents (notmuch_database_t *notmuch)
+{
+    return notmuch->xapian_db->get_lastdocid () > 0 ||
+	   ! notmuch->xapian_db->get_metadata ("version").empty ();
+}
+
 static notmuch_status_t
 _trial_open (const char *xapian_path, char **message_ptr)
 {
@@ -802,6 +810,7 @@ notmuch_database_create_with_config (const char *database_path,
 
     if (message)
 	free (message);
+    message = NULL;
 
     status = _finish_open (notmuch,
 			   profile,
@@ -812,6 +821,21 @@ notmuch_database_create_with_config (const char *database_path,
     if (status)
 	goto DONE;
 
+    /* The trial can also fail for a database that is there, and that
+     * one must not be taken for a new one. */
+    try {
+	if (_has_contents (notmuch)) {
+	    status = NOTMUCH_STATUS_DATABASE_EXISTS;
+	    goto DONE;
+	}
+    } catch (const Xapian::Error &error) {
+	IGNORE_RESULT (asprintf (&message,
+				 "A Xapian exception occurred opening database: %s\n",
+				 error.get_msg ().c_str ()));
+	status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	goto DONE;
+    }
+
     /* Upgrade doesn't add these feature to existing databases, but
      * new databases have them. */
     notmuch->features |= NOTMUCH_FEATURE_FROM_SUBJECT_ID_VALUES;
-- 
2.43.0

