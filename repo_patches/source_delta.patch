From e85a67a24f0a65d4575b276e4d42f8016f680fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 01/58] fix: honour MAIRIX_MAILDIR_FOLDERS

The variable was tested under its documented name but read under a
misspelt one, so setting it dropped all maildir folders instead of
selecting the given ones.
---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..2a0573a 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From f4badefcac11cc29f7c9b2da3e55b78fcee97836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 02/58] fix: do not use an uninitialised value when loading an
 empty hit list

A message identifier that is only ever referenced has no hits of its own
in the second list; its 'highest' entry was loaded from an uninitialised
variable and could trip the integrity check or corrupt later additions.
---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..d7b91ea 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0;
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From 35170fe36ca8cac5f53e9bb0d22de3941b518abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 03/58] fix: rescan a file-per-message message when its size
 has changed

The manual says that mtime and size are compared (and that -F skips
both), but only the mtime was, so a message rewritten within the same
second kept its old words in the index.
---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..1519683 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime &&
+                    sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 4aed69e0775eb0917c0638e009deeb4d7cadd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 04/58] fix: compare dates without overflow when sorting
 matches by date

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 27b02b8..10343fb 100644
--- a/search.c
+++ b/search.c
@@ -792,7 +792,9 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  unsigned int a = qsortdb->date_table[*ap];
+  unsigned int b = qsortdb->date_table[*bp];
+  return (a > b) - (a < b);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From 881f4065112cdd967fadcebab236b99695823038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 05/58] fix: include the first day of the period in d:<period>

d:20110101 never matched anything and d:2011 missed January 1st, because
message dates are stored as midnight and the range test is exclusive.
The start-end forms are unchanged (the tests pin them).
---
 dates.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index e2bbf31..2b3b848 100644
--- a/dates.c
+++ b/dates.c
@@ -348,7 +348,9 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
     *has_start = *has_end = 1;
     status = scan_date_expr(in, nullchar, &start_tm, &end_tm);
     if (status) return status;
-    *start = mktime(&start_tm);
+    /* The range test is exclusive, and a message is dated at the very start of
+     * its day : step back so that the first day of the period is included. */
+    *start = mktime(&start_tm) - 1;
     *end = mktime(&end_tm);
     return 0;
   } else {
-- 
2.43.0


From 9ed2be9501d636757f62747c61e450040d507578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 06/58] fix: forget messages removed from the end of an mbox

When an mbox lost messages and gained none, its message count kept the
old value.  The positions of the lost messages were then undefined after
reloading the database, and the next scan of the mbox used them to look
for intact messages.
---
 mbox.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..fe2795d 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1028,6 +1028,9 @@ int add_mbox_messages(struct database *db)/*{{{*/
       if (va) {
         free_ro_mapping(va, valen);
       }
+    } else {
+      /* Forget messages which have been removed from the end of the mbox. */
+      mb->n_msgs = mb->n_old_msgs_valid;
     }
   }
   return any_new;
-- 
2.43.0


From 5a1f11a6b6795f49923e2c0765af7422c9f8b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 07/58] fix: path searches with IMAP messages in the database

p: aborted on an assertion as soon as the database held an IMAP message.
---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 10343fb..3a96526 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From 13e358f3ac0d1fa85e859bc9001bfa92a645ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 08/58] fix: keep the last byte of an mbox message that does
 not end in a newline

The trailing newline of an mbox message is left out when it is copied to
a maildir or MH match folder, but the last byte was dropped whatever it
was, losing a character of the final message of some mboxes.
---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 3a96526..5c5c7b7 100644
--- a/search.c
+++ b/search.c
@@ -750,7 +750,9 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
+      /* Leave out the newline that precedes the next 'From ' line. */
+      fwrite(start, sizeof(char),
+             (msg_len && start[msg_len-1] == '\n') ? msg_len-1 : msg_len, out);
       fclose(out);
     }
   }
-- 
2.43.0


From c6c9036073cbddc1d020a315ee242b22c3bb79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 09/58] fix: thread searches after messages have vanished or
 been purged

Three related faults:
- the thread numbers were kept by a purge while the number of messages
  shrank, so that a thread search indexed beyond its work array;
- matches on messages that no longer exist selected the rest of their
  thread;
- messages that no longer exist held threads together or not depending on
  whether a purge and a later addition had happened.
Thread groups are now formed from existing messages only, whenever the set
of messages changes.
---
 db.c     | 18 +++++++++++++++---
 search.c | 10 +++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/db.c b/db.c
index 1519683..e963f5c 100644
--- a/db.c
+++ b/db.c
@@ -787,6 +787,10 @@ static void find_threading(struct database *db)/*{{{*/
       int cur, first=1;
       int new_base=-1, old_base;
       while (int_list_reader_read(&ilr, &cur)) {
+        if (db->type[cur] == MTY_DEAD) {
+          /* Messages that no longer exist don't hold threads together. */
+          continue;
+        }
         if (first) {
           new_base = find_base(ix, cur);
           first = 0;
@@ -812,15 +816,22 @@ static void find_threading(struct database *db)/*{{{*/
     }
   }
 
-  /* Now allocate contiguous thread group numbers */
+  /* Now allocate contiguous thread group numbers, live messages first so that
+   * the numbers remain smaller than the number of messages after a purge. */
   next_tid = 0;
   for (i=0; i<np; i++) {
+    if (db->type[i] == MTY_DEAD) continue;
     if (ix[i] == i) {
       db->msgs[i].tid = next_tid++;
     } else {
       db->msgs[i].tid = db->msgs[ix[i]].tid;
     }
   }
+  for (i=0; i<np; i++) {
+    if (db->type[i] == MTY_DEAD) {
+      db->msgs[i].tid = next_tid++;
+    }
+  }
 
   free(ix);
   return;
@@ -1048,9 +1059,10 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
   /* Add newly found mbox messages. */
   any_new |= add_mbox_messages(db);
 
-  if (any_new) {
+  if (any_new || (n_newly_pruned > 0)) {
     find_threading(db);
-  } else {
+  }
+  if (!any_new) {
     if (verbose) fprintf(stderr, "No new messages found\n");
   }
 
diff --git a/search.c b/search.c
index 5c5c7b7..e428321 100644
--- a/search.c
+++ b/search.c
@@ -1059,10 +1059,14 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 
   if (show_threads) {/*{{{*/
     char *tids;
-    tids = new_array(char, db->n_msgs);
-    memset(tids, 0, db->n_msgs);
+    unsigned int n_tids = 0;
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (db->tid_table[i] >= n_tids) n_tids = db->tid_table[i] + 1;
+    }
+    tids = new_array(char, n_tids);
+    memset(tids, 0, n_tids);
+    for (i=0; i<db->n_msgs; i++) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From f7a97b48ec2d8b3fd49b4396a538ec559d862f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 10/58] fix: never use or remove a database lock held by
 another process

- When the lock file disappeared between the failed attempt to create it
  and the attempt to read it (or could not be read), the run went on
  without holding the lock.
- A run interrupted by a signal while it did not hold the lock removed
  the lock of whichever process did, and left its own temporary file.
  The lock is now removed only by the process that took it, and signals
  are held back while it is being taken or released.
- An empty lock file made the error message read uninitialised memory.
---
 dotlock.c | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..e907b42 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,8 +25,23 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <signal.h>
 
 static char *lock_file_name = NULL;
+static int have_lock = 0;
+
+/* Taking and releasing the lock must not be interrupted half way : a signal
+ * handler has to know for certain whether the lock is ours to remove. */
+static void block_signals(sigset_t *old)/*{{{*/
+{
+  sigset_t set;
+  sigemptyset(&set);
+  sigaddset(&set, SIGHUP);
+  sigaddset(&set, SIGINT);
+  sigaddset(&set, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &set, old);
+}
+/*}}}*/
 
 /* This locking code was originally written for tdl */
 
@@ -38,6 +53,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   int len;
   char *tname;
   struct stat sb;
+  sigset_t old_signals;
   FILE *out;
 
   if (uname(&uu) < 0) {
@@ -55,7 +71,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   sprintf(lock_file_name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(lock_file_name);
     forced_unlock = 0;
   }
 
@@ -64,6 +80,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   len += (10 + 2);
   tname = new_array(char, len);
   sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  block_signals(&old_signals);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -84,12 +101,15 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
         in = fopen(lock_file_name, "r");
         if (in) {
           char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          if (!fgets(line, sizeof(line), in)) line[0] = 0;
+          line[strcspn(line, "\n")] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
-          unlink(tname);
-          exit(1);
+        } else {
+          /* Its owner may have released it just now, but we don't hold it. */
+          fprintf(stderr, "Database %s appears to be locked\n", path);
         }
+        unlink(tname);
+        exit(1);
       } else {
         /* lock succeeded apparently */
       }
@@ -97,14 +117,20 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  have_lock = 1;
   unlink(tname);
   free(tname);
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   return;
 }
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  sigset_t old_signals;
+  block_signals(&old_signals);
+  if (have_lock) unlink(lock_file_name);
+  have_lock = 0;
+  sigprocmask(SIG_SETMASK, &old_signals, NULL);
   return;
 }
 /*}}}*/
-- 
2.43.0


From c5decb32603f8b892f27c40c9ba355d45cbd660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:23 +0000
Subject: [PATCH 11/58] fix: replace the database atomically

The database used to be overwritten in place, so an index run that was killed or
failed while storing it left a damaged one. Build the new database in a file of
its own and rename it over the old one when complete.
---
 writer.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/writer.c b/writer.c
index 4b37274..3fc27b8 100644
--- a/writer.c
+++ b/writer.c
@@ -92,7 +92,8 @@ static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **ou
   char *data;
   struct stat sb;
 
-  fd = open(filename, O_RDWR | O_CREAT, 0600);
+  unlink(filename); /* may be left over from a run that crashed */
+  fd = open(filename, O_RDWR | O_CREAT | O_EXCL, 0600);
   if (fd < 0) {
     report_error("open", filename);
     unlock_and_exit(2);
@@ -580,6 +581,8 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   char *data, *cdata;
   unsigned int *uidata;
   struct write_map map;
+  struct stat sb;
+  char *real_name, *temp_name;
 
   if (do_integrity_checks) {
     check_database_integrity(db);
@@ -594,7 +597,14 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
 
   file_len = char_length(db) + (4 * map.beyond_last_ui_offset);
 
-  create_rw_mapping(filename, file_len, &fd, &data);
+  /* Build the new database next to the old one and put it in place only when
+   * it's complete, so that there is a valid database whatever happens to us.
+   * Look through symlinks, so that these are kept. */
+  real_name = realpath(filename, NULL);
+  if (!real_name) real_name = new_string(filename);
+  temp_name = new_array(char, strlen(real_name) + 5);
+  sprintf(temp_name, "%s.new", real_name);
+  create_rw_mapping(temp_name, file_len, &fd, &data);
   uidata = (unsigned int *) data; /* align(int) < align(page)! */
   cdata = data + (4 * map.beyond_last_ui_offset);
 
@@ -619,11 +629,24 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   }
   if (fsync(fd) < 0) {
     report_error("fsync", filename);
+    unlink(temp_name);
     unlock_and_exit(2);
   }
+  if (stat(real_name, &sb) == 0) {
+    /* Keep the permissions of the database */
+    fchmod(fd, sb.st_mode & 07777);
+  }
   if (close(fd) < 0) {
     report_error("close", filename);
+    unlink(temp_name);
+    unlock_and_exit(2);
+  }
+  if (rename(temp_name, real_name) < 0) {
+    report_error("rename", filename);
+    unlink(temp_name);
     unlock_and_exit(2);
   }
+  free(temp_name);
+  free(real_name);
 }
   /*}}}*/
-- 
2.43.0


From 89b3d0c2e15e87fadacb4792844890d0ebc3c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 12/58] fix: keep earlier matches, and the mail they link to,
 when augmenting

Augmenting an MH match folder numbered the new matches from 1 again, and
augmenting a maildir could reuse a name: links for the new matches were lost, and
copies of mbox (or IMAP) messages were written through the existing link, i.e.
over the user's own copy of another message.
---
 search.c | 240 +++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 169 insertions(+), 71 deletions(-)

diff --git a/search.c b/search.c
index e428321..1e8f2a2 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
  * set of .h files (Solaris, FreeBSD so far).  Probably grossly oversized but
@@ -558,7 +559,7 @@ static void find_flag_matches_in_table(struct read_db *db, char *flag_expr, char
 }
 /*}}}*/
 
-static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
+static char *mk_maildir_path(int token, int attempt, char *output_dir, int is_in_new,
     int is_seen, int is_replied, int is_flagged)/*{{{*/
 {
   char *result;
@@ -569,7 +570,11 @@ static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
   result = new_array(char, len + 1 + sizeof(":2,FRS"));
   strcpy(result, output_dir);
   strcat(result, is_in_new ? "/new/" : "/cur/");
-  sprintf(uniq_buf, "123456789.%d.mairix", token);
+  if (attempt == 0) {
+    sprintf(uniq_buf, "123456789.%d.mairix", token);
+  } else {
+    sprintf(uniq_buf, "123456789.%d.%d.mairix", token, attempt);
+  }
   strcat(result, uniq_buf);
   if (is_seen || is_replied || is_flagged) {
     strcat(result, ":2,");
@@ -583,10 +588,10 @@ static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
 static char *mk_mh_path(int token, char *output_dir)/*{{{*/
 {
   char *result;
-  char uniq_buf[11];
+  char uniq_buf[16];
   int len;
 
-  len = strlen(output_dir) + 12; /* oversize */
+  len = strlen(output_dir) + 18; /* oversize */
   result = new_array(char, len);
   strcpy(result, output_dir);
   strcat(result, "/");
@@ -595,6 +600,25 @@ static char *mk_mh_path(int token, char *output_dir)/*{{{*/
   return result;
 }
 /*}}}*/
+static int find_last_mh_number(char *path)/*{{{*/
+{
+  int result = 0;
+  DIR *d;
+  struct dirent *de;
+
+  d = opendir(path);
+  if (d) {
+    while ((de = readdir(d))) {
+      if (valid_mh_filename_p(de->d_name) && strlen(de->d_name) < 10) {
+        int number = atoi(de->d_name);
+        if (number > result) result = number;
+      }
+    }
+    closedir(d);
+  }
+  return result;
+}
+/*}}}*/
 static int looks_like_maildir_new_p(const char *p)/*{{{*/
 {
   const char *s1, *s2;
@@ -612,14 +636,85 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
-static void create_symlink(char *link_target, char *new_link)/*{{{*/
+static int same_link(char *link_target, char *name)/*{{{*/
 {
-  if ((!do_hardlinks && symlink(link_target, new_link) < 0) || link(link_target, new_link)) {
+  struct stat sb, sb2;
+  int len, n, same;
+  char *buf;
+
+  if (lstat(name, &sb) < 0) return 0;
+  if (S_ISLNK(sb.st_mode)) {
+    len = strlen(link_target);
+    buf = new_array(char, len + 1);
+    n = readlink(name, buf, len + 1);
+    same = (n == len) && !memcmp(buf, link_target, len);
+    free(buf);
+    return same;
+  }
+  return (stat(link_target, &sb2) == 0) &&
+    (sb.st_dev == sb2.st_dev) && (sb.st_ino == sb2.st_ino);
+}
+/*}}}*/
+/* Return 0 if the name is in use for another message, 1 otherwise. */
+static int create_symlink(char *link_target, char *new_link)/*{{{*/
+{
+  if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
+    if (errno == EEXIST) {
+      return same_link(link_target, new_link);
+    }
     if (verbose) {
       perror("symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
   }
+  return 1;
+}
+/*}}}*/
+static int same_content(const char *path, const char *header, const char *data, size_t len)/*{{{*/
+{
+  FILE *in;
+  int fd;
+  size_t i, hlen = strlen(header);
+  int same = 1;
+
+  fd = open(path, O_RDONLY | O_NOFOLLOW);
+  if (fd < 0) return 0;
+  in = fdopen(fd, "rb");
+  if (!in) {
+    close(fd);
+    return 0;
+  }
+  for (i=0; same && (i < hlen + len); i++) {
+    int c = (unsigned char) ((i < hlen) ? header[i] : data[i - hlen]);
+    same = (getc(in) == c);
+  }
+  same = same && (getc(in) == EOF);
+  fclose(in);
+  return same;
+}
+/*}}}*/
+/* Return 0 if the name is in use for another message, 1 otherwise. */
+static int write_new_file(const char *path, const char *header, const char *data, size_t len)/*{{{*/
+{
+  FILE *out;
+  int fd;
+
+  /* Never write through whatever is there already, it may be a link to the
+   * user's own copy of some other message. */
+  fd = open(path, O_WRONLY | O_CREAT | O_EXCL, 0666);
+  if (fd < 0 && errno == EEXIST) {
+    return same_content(path, header, data, len);
+  }
+  out = (fd < 0) ? NULL : fdopen(fd, "wb");
+  if (!out) {
+    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+    if (fd >= 0) close(fd);
+    return 1;
+  }
+  fputs(header, out);
+  fwrite(data, 1, len, out);
+  fclose(out);
+  return 1;
 }
 /*}}}*/
 static void mbox_terminate(const unsigned char *data, int len, FILE *out)/*{{{*/
@@ -660,15 +755,24 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   return;
 }
 /*}}}*/
+struct write_to_file_arg {/*{{{*/
+  char *path;
+  int done;
+};
+/*}}}*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
-  FILE *fp;
-  if (!(fp = fopen((char *)arg, "w"))) {
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
-    return;
-  }
-  fwrite(data, 1, len, fp);
-  fclose(fp);
+  struct write_to_file_arg *a = (struct write_to_file_arg *)arg;
+  a->done = write_new_file(a->path, "", data, len);
+}
+/*}}}*/
+static int try_fetch_to_path(struct read_db *db, int msg_index, struct imap_ll *imapc, char *target_path)/*{{{*/
+{
+  struct write_to_file_arg a;
+  a.path = target_path;
+  a.done = 1;
+  imap_fetch_message_raw(db->data + db->path_offsets[msg_index], imapc, write_to_file, &a);
+  return a.done;
 }
 /*}}}*/
 
@@ -735,32 +839,31 @@ static void append_mboxmsg_to_mbox(struct read_db *db, int msg_index, FILE *out)
   }
 }
 /*}}}*/
-static void try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
+/* Return 0 if the name is in use for another message, 1 otherwise. */
+static int try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
 {
   unsigned char *data;
   int mbox_len, msg_len;
   int mbi;
-  FILE *out;
+  int done = 1;
   unsigned char *start;
 
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
-    if (out) {
-      fprintf(out, "X-source-folder: %s\n",
-              db->data + db->mbox_paths_table[mbi]);
-      /* Leave out the newline that precedes the next 'From ' line. */
-      fwrite(start, sizeof(char),
-             (msg_len && start[msg_len-1] == '\n') ? msg_len-1 : msg_len, out);
-      fclose(out);
-    }
+    char *mbox_path = db->data + db->mbox_paths_table[mbi];
+    char *header = new_array(char, strlen(mbox_path) + sizeof("X-source-folder: \n"));
+    sprintf(header, "X-source-folder: %s\n", mbox_path);
+    /* Leave out the newline that precedes the next 'From ' line. */
+    done = write_new_file(target_path, header, (char *) start,
+        (msg_len && start[msg_len-1] == '\n') ? msg_len-1 : msg_len);
+    free(header);
   }
 
   if (data) {
     free_ro_mapping(data, mbox_len);
   }
-  return;
+  return done;
 }
 /*}}}*/
 static struct msg_src *setup_mbox_msg_src(char *filename, off_t start, size_t len)/*{{{*/
@@ -814,7 +917,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   int n_hits;
   int left_anchor;
   int imap_tried = 0;
-  struct imap_ll *imapc;
+  struct imap_ll *imapc = NULL;
   int *results;
 
 #define GET_IMAP if (!imap_tried) {\
@@ -1092,68 +1195,63 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   switch (ft) {
     case FT_MAILDIR:/*{{{*/
       for (ii=0; ii<n_hits; ii++) {
-        i = results[ii];
         int is_seen, is_replied, is_flagged;
+        int is_in_new = 0;
+        int attempt, done;
+        i = results[ii];
         get_flags_from_file(db, i, &is_seen, &is_replied, &is_flagged);
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
-            {
-              char *target_path;
-              char *message_path;
-              int is_in_new;
-              message_path = db->data + db->path_offsets[i];
-              is_in_new = looks_like_maildir_new_p(message_path);
-              target_path = mk_maildir_path(i, output_path, is_in_new, is_seen, is_replied, is_flagged);
-              create_symlink(message_path, target_path);
-              free(target_path);
-            }
+            is_in_new = looks_like_maildir_new_p(db->data + db->path_offsets[i]);
             break;
           case DB_MSG_IMAP:
-            {
-              char *target_path;
-              target_path = mk_maildir_path(i, output_path, 0, is_seen, is_replied, is_flagged);
-              GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
-            }
+            GET_IMAP;
             break;
           case DB_MSG_MBOX:
-            {
-              char *target_path = mk_maildir_path(i, output_path, !is_seen, is_seen, is_replied, is_flagged);
-              try_copy_to_path(db, i, target_path);
-              free(target_path);
-            }
+            is_in_new = !is_seen;
             break;
         }
+        /* The usual name may be taken by an earlier match if we're augmenting */
+        for (attempt=0, done=0; !done; attempt++) {
+          char *target_path;
+          target_path = mk_maildir_path(i, attempt, output_path, is_in_new, is_seen, is_replied, is_flagged);
+          done = 1;
+          switch (rd_msg_type(db, i)) {
+            case DB_MSG_FILE:
+              done = create_symlink(db->data + db->path_offsets[i], target_path);
+              break;
+            case DB_MSG_IMAP:
+              if (imapc) done = try_fetch_to_path(db, i, imapc, target_path);
+              break;
+            case DB_MSG_MBOX:
+              done = try_copy_to_path(db, i, target_path);
+              break;
+          }
+          free(target_path);
+        }
       }
       break;
 /*}}}*/
     case FT_MH:/*{{{*/
-      for (ii=0; ii<n_hits; ii++) {
-        i = results[ii];
-        switch (rd_msg_type(db, i)) {
-          case DB_MSG_FILE:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
+      {
+        /* Number the matches on from what's there already (when augmenting) */
+        int last = find_last_mh_number(output_path);
+        for (ii=0; ii<n_hits; ii++) {
+          char *target_path = mk_mh_path(last + ii, output_path);
+          i = results[ii];
+          switch (rd_msg_type(db, i)) {
+            case DB_MSG_FILE:
               create_symlink(db->data + db->path_offsets[i], target_path);
-              free(target_path);
-            }
-            break;
-          case DB_MSG_IMAP:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
+              break;
+            case DB_MSG_IMAP:
               GET_IMAP;
-              if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
-            }
-            break;
-          case DB_MSG_MBOX:
-            {
-              char *target_path = mk_mh_path(ii, output_path);
+              if (imapc) try_fetch_to_path(db, i, imapc, target_path);
+              break;
+            case DB_MSG_MBOX:
               try_copy_to_path(db, i, target_path);
-              free(target_path);
-            }
-            break;
+              break;
+          }
+          free(target_path);
         }
       }
       break;
-- 
2.43.0


From 5621fb8f4763d77a167845b614b290cfa54f4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:56 +0000
Subject: [PATCH 13/58] fix: wildcards with more than 31 elements

The set of pattern positions was kept in an unsigned int, so longer patterns (such
as a long literal path in omit=) matched wrongly.
---
 glob.c | 92 ++++++++++++++++++++++++----------------------------------
 1 file changed, 38 insertions(+), 54 deletions(-)

diff --git a/glob.c b/glob.c
index 67f423e..07ec679 100644
--- a/glob.c
+++ b/glob.c
@@ -27,11 +27,16 @@
 #include "mairix.h"
 
 
+struct globber_pos {
+  char pat[256];   /* characters that lead on to the next position */
+  char starpat;    /* there's a * at this position */
+  char twostarpat; /* there's a ** at this position */
+};
+
 struct globber {
-  unsigned int pat[256];
-  unsigned int starpat;
-  unsigned int twostarpat;
-  unsigned int hit;
+  int n; /* position at the end of the pattern */
+  struct globber_pos *pos;
+  char *reg; /* working space for matching : set of current positions */
 };
 
 struct globber_array {
@@ -39,7 +44,7 @@ struct globber_array {
   struct globber **globs;
 };
 
-static const char *parse_charclass(const char *in, struct globber *result, unsigned int mask)/*{{{*/
+static const char *parse_charclass(const char *in, struct globber_pos *result)/*{{{*/
 {
   int first = 1;
   int prev = -1;
@@ -47,7 +52,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
   while (*in) {
     if (*in == ']') {
       if (first) {
-        result->pat[(int)']'] |= mask;
+        result->pat[(int)']'] = 1;
       } else {
         return in;
       }
@@ -56,7 +61,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       if ((prev < 0) || !in[1] || (in[1]==']')) {
         /* - at either end of string (or right after an earlier range) means
          * normal - */
-        result->pat['-'] |= mask;
+        result->pat['-'] = 1;
       } else {
         int next = in[1];
         int hi, lo;
@@ -69,7 +74,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
         }
         for (i=lo; i<=hi; i++) {
           int index = 0xff & i;
-          result->pat[index] |= mask;
+          result->pat[index] = 1;
         }
         /* require 1 extra increment */
         in++;
@@ -77,7 +82,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       }
     } else {
       int index = 0xff & (int)*in;
-      result->pat[index] |= mask;
+      result->pat[index] = 1;
     }
     prev = *in;
     first = 0;
@@ -94,104 +99,83 @@ struct globber *make_globber(const char *wildstring)/*{{{*/
   const char *p;
   char c;
   int index;
-  unsigned int mask;
+  struct globber_pos *pos;
 
+  n = strlen(wildstring) + 1;
   result = new(struct globber);
-  memset(&result->pat, 0x00, 256*sizeof(unsigned int));
-  memset(&result->starpat, 0x00, sizeof(unsigned int));
-  memset(&result->twostarpat, 0x00, sizeof(unsigned int));
-  mask = 0x1;
+  result->pos = new_array(struct globber_pos, n);
+  memset(result->pos, 0x00, n * sizeof(struct globber_pos));
+  result->reg = new_array(char, n);
 
   n = 0;
   for (p=wildstring; *p; p++) {
-    mask = 1<<n;
+    pos = &result->pos[n];
     c = *p;
     switch (c) {
       case '*':/*{{{*/
         if (p[1] == '*') {
-          result->twostarpat |= mask;
+          pos->twostarpat = 1;
           p++;
         } else {
           /* Match zero or more of anything */
-          result->starpat |= mask;
+          pos->starpat = 1;
         }
         break;
 /*}}}*/
       case '[':/*{{{*/
-        p = parse_charclass(p, result, mask);
+        p = parse_charclass(p, pos);
+        if (!*p) p--; /* no closing ] */
         n++;
         break;
 /*}}}*/
       case '?':/*{{{*/
         for (i=0; i<256; i++) {
-          result->pat[i] |= mask;
+          pos->pat[i] = 1;
         }
         n++;
         break;
 /*}}}*/
       default:/*{{{*/
         index = 0xff & (int)c;
-        result->pat[index] |= mask;
+        pos->pat[index] = 1;
         n++;
         break;
 /*}}}*/
     }
   }
 
-  result->hit = (1<<n);
+  result->n = n;
   return result;
 
 }
 /*}}}*/
 void free_globber(struct globber *old)/*{{{*/
 {
+  free(old->pos);
+  free(old->reg);
   free(old);
 }
 /*}}}*/
 
-#define DODEBUG 0
-
 int is_glob_match(struct globber *g, const char *s)/*{{{*/
 {
-  unsigned int reg;
-  unsigned int stars;
-  unsigned int twostars;
-  unsigned int stars2;
   int index;
+  int i;
 
-  reg = 0x1;
+  memset(g->reg, 0, g->n + 1);
+  g->reg[0] = 1;
   while (*s) {
     index = 0xff & (int) *s;
-#if DODEBUG
-    printf("*s=%c index=%02x old_reg=%08lx pat=%08lx //",
-           *s, index, reg, g->pat[index]);
-#endif
-    stars = (reg & g->starpat);
-    twostars = (reg & g->twostarpat);
-    if (index != '/') {
-      stars2 = stars | twostars;
-    } else {
-      stars2 = twostars;
+    /* From the end, so that the predecessor is still the old one */
+    for (i=g->n; i>=0; i--) {
+      struct globber_pos *pos = &g->pos[i];
+      g->reg[i] = (g->reg[i] && (pos->twostarpat || (pos->starpat && (index != '/')))) ||
+                  (i > 0 && g->reg[i-1] && g->pos[i-1].pat[index]);
     }
-    reg &= g->pat[index];
-    reg <<= 1;
-    reg |= stars2;
-#if DODEBUG
-    printf(" new_reg=%08lx ", reg);
-    printf("starpat=%08lx stars=%08lx stars2=%08lx\n", g->starpat, stars, stars2);
-#endif
     s++;
   }
 
-#if DODEBUG
-  printf("reg=%08lx hit=%08lx\n", reg, g->hit);
-#endif
-  reg &= g->hit;
-  if (reg) {
-    return 1;
-  } else {
-    return 0;
-  }
+  return g->reg[g->n];
 }
 /*}}}*/
 
-- 
2.43.0


From 04e770c8b73c3c3a92697d63f6361d4617b1b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:12 +0000
Subject: [PATCH 14/58] fix: IMAP message that cannot be fetched, mbox message
 that cannot be appended

The result of a failed fetch was used uninitialised, and an mbox message whose
checksum has changed was appended from a null pointer.
---
 imapinterface.c | 1 +
 search.c        | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..d730f67 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -269,6 +269,7 @@ make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
+	s.r = NULL;
 	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
diff --git a/search.c b/search.c
index 1e8f2a2..bcf9347 100644
--- a/search.c
+++ b/search.c
@@ -1421,7 +1421,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From 48627cbe9d19c787f2591f4f630bd58089c94c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 15/58] fix: length of a mapping that could not be made was
 uninitialised

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..579736b 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1319,6 +1319,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = 0;
     return;
   }
 
-- 
2.43.0


From ff8b43779c84ef66081f6aaa1748de15e55c9f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:25 +0000
Subject: [PATCH 16/58] fix: accept mbox separators with a one-character domain
 in the address

---
 fromcheck.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fromcheck.nfa b/fromcheck.nfa
index 97bce23..fa8add4 100644
--- a/fromcheck.nfa
+++ b/fromcheck.nfa
@@ -91,7 +91,7 @@ BLOCK email {
 
     STATE start_of_domain
         LEFTSQUARE -> dotted_quad
-        DOMAIN -> after_at
+        DOMAIN -> after_at, out
 
     STATE dotted_quad
         DIGIT | PERIOD -> dotted_quad
-- 
2.43.0


From 7ee60f3da56e758c3b6ad81b793c418b0ab67758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 17/58] fix: decoding of uuencoded parts

Each line was taken to start at the newline before it, so that nothing was ever
decoded properly, and a line claiming more data than there is was decoded beyond
the end of the input and of the output buffer.
---
 rfc822.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 579736b..c169cac 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -551,10 +551,17 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
-          int len = DEC(*q++);
+          int len;
+          char *eol;
+          q++; /* Move past the newline of the previous line */
+          if (q >= end_input)
+            break;
+          for (eol = q; eol < end_input && *eol != '\n'; eol++)
+            ;
+          len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && q + 4 <= eol; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
@@ -566,8 +573,7 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
                 *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
             }
           }
-          while (q < end_input && *q != '\n')
-            q++;
+          q = eol;
         }
         end_result = p;
       }
-- 
2.43.0


From 7d39a7cca1dba3e50d1688dbcfc56f546b50c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 18/58] fix: do not read beyond the end of quoted-printable
 data that is cut short

---
 rfc822.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c169cac..7769897 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,12 +436,13 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
   result = start;
   do {
-         if (*result == '\n')   return result;
+         if (result >= end)     return NULL;
+    else if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
     else                        result++;
   } while (1);
@@ -488,12 +489,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
             /* not that case. */
+            if (end_input - q < 2) break; /* cut short */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
             *p++ = val;
-- 
2.43.0


From e17ac4d628a5d30254b577cfae8e72dabc643eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 19/58] fix: notice mbox messages that were changed in place
 before an intact one

Whether the messages of a modified mbox were still the indexed ones was decided
from the last message alone, or else by binary chop, so a message altered in
place (without changing its size) before an intact one kept its old words and
flags for ever.
---
 mbox.c | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/mbox.c b/mbox.c
index fe2795d..84eb26d 100644
--- a/mbox.c
+++ b/mbox.c
@@ -136,36 +136,14 @@ static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{
 /*}}}*/
 static int find_number_intact(struct mbox *mb, char *va, size_t len)/*{{{*/
 {
-  /* Pick up the common obvious case first - where new messages have been appended to the
-     end of the mbox */
-  if (mb->n_msgs == 0) {
-    return 0;
-  } else if (message_is_intact(mb, mb->n_msgs - 1, va, len)) {
-    return mb->n_msgs; /* The lot */
-  } else if (!message_is_intact(mb, 0, va, len)) {
-    return 0; /* None of them. */
-  } else {
-    /* Looks like a deletion has occurred earlier in the file => binary chop
-       search to find the last message that's still valid.  Assume that
-       everything below a valid message is still valid itself (possibly
-       dangerous assumption, time will tell.) */
-
-    int l, m, h;
-    l = 0;
-    h = mb->n_msgs;
-    /* Loop invariant : always, message[l] is intact, message[h] isn't. */
-    while (l < h) {
-      m = (h + l) >> 1;
-      if (m==l) break;
-      if (message_is_intact(mb, m, va, len)) {
-        l = m;
-      } else {
-        h = m;
-      }
-    }
-    /* By loop invariant, message[l] is the highest valid one. */
-    return (l + 1);
+  /* Messages may have been removed, changed in place (e.g. to record their
+     status) or replaced anywhere in the file.  Anything from the first altered
+     message onwards has to be looked at again. */
+  int i;
+  for (i=0; i<mb->n_msgs; i++) {
+    if (!message_is_intact(mb, i, va, len)) break;
   }
+  return i;
 }
 /*}}}*/
 
-- 
2.43.0


From 8fcf464b1a2d2649c169677f0738e0d7a1fc10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 20/58] fix: index again the last message of an mbox when it
 has grown

The bytes indexed for it are still there, so it was taken to be intact and the
text added to it (e.g. because the folder was indexed while the message was
being delivered) was never indexed.
---
 mbox.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mbox.c b/mbox.c
index 84eb26d..db746c1 100644
--- a/mbox.c
+++ b/mbox.c
@@ -394,6 +394,21 @@ static void rescan_mbox(struct mbox *mb, char *va, size_t len)/*{{{*/
 
   /* Find the last message in the box that appears to be intact. */
   mb->n_old_msgs_valid = find_number_intact(mb, va, len);
+  if (mb->n_old_msgs_valid > 0) {
+    /* If that message isn't followed by a separator or the end of the file,
+     * it has grown since it was scanned. */
+    int last = mb->n_old_msgs_valid - 1;
+    off_t end = mb->start[last] + mb->len[last];
+    if (!scantabs_inited) {
+      init_scantabs();
+    }
+    if ((end < len) &&
+        ((va[end-1] != '\n') ||
+         ((find_next_from(end, va, len) != end) &&
+          (find_next_mmdfsep(end, va, len) != end)))) {
+      --mb->n_old_msgs_valid;
+    }
+  }
   mb->new_msgs = build_new_message_list(mb, va, len, &mb->n_new_msgs);
 }
 /*}}}*/
-- 
2.43.0


From 23f49b487627e324697f02e51b58c6efd587ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 21/58] fix: date and flags of misformatted mbox messages were
 uninitialised

---
 mbox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbox.c b/mbox.c
index db746c1..e0f9dc6 100644
--- a/mbox.c
+++ b/mbox.c
@@ -997,6 +997,7 @@ int add_mbox_messages(struct database *db)/*{{{*/
         maybe_grow_message_arrays(db);
         n = db->n_msgs;
         db->type[n] = MTY_MBOX;
+        memset(&db->msgs[n], 0, sizeof(struct msgpath));
         db->msgs[n].src.mbox.file_index = i;
         db->msgs[n].src.mbox.msg_index = j;
 
-- 
2.43.0


From c213c98a8203734935ef47ab0a9a945bdf1decaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:03 +0000
Subject: [PATCH 22/58] fix: find the name parameter of Content-Type whatever
 its case

Parameter names are case-insensitive; an attachment named only by
Content-Type: ...; NAME=x was not found by its name.
---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 7769897..84bf8e5 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -730,7 +730,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 5e68f779181bbf0d6326c908587fe3a1eaeccb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:32 +0000
Subject: [PATCH 23/58] fix: date messages at the start of their day in summer
 time too

Midnight was taken as standard time, so that messages of days in summer time
were dated an hour into the day, and d:<start>- included its start day for
them but not for others.
---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 84bf8e5..fce63d1 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -986,7 +986,7 @@ static time_t parse_rfc822_date(char *date_string)/*{{{*/
   tm.tm_hour = 0;
   tm.tm_min = 0;
   tm.tm_sec = 0;
-  tm.tm_isdst = 0;
+  tm.tm_isdst = -1;
   return mktime(&tm);
 
 tough_cheese:
-- 
2.43.0


From d321a7a9caf51146a15564f2506f0810049f5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:32 +0000
Subject: [PATCH 24/58] fix: relative dates more than 68 years ago overflowed

---
 dates.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index 2b3b848..f2dac90 100644
--- a/dates.c
+++ b/dates.c
@@ -125,7 +125,7 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
 
-- 
2.43.0


From 1377f87d42785b09ecb2f5512fa7dc5567647dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:15 +0000
Subject: [PATCH 25/58] fix: date ranges that start and end on different sides
 of a clock change

The start was converted as if summer time were then in force if it is at the
end, which made the range start an hour early or late, and so could exclude
the messages of the first day after the start.
---
 dates.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dates.c b/dates.c
index f2dac90..11cfe8b 100644
--- a/dates.c
+++ b/dates.c
@@ -360,6 +360,7 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
       if (status) return status;
       *end = mktime(&end_tm);
       start_tm = end_tm;
+      start_tm.tm_isdst = -1; /* may not be as it was at the end */
     }
     if (hyphen > in) {
       *has_start = 1;
-- 
2.43.0


From 4b029002c3e66b36070f8ca0ae49e50f9ffe611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:19 +0000
Subject: [PATCH 26/58] fix: don't clear another folder through a match
 folder's new or cur that is a link

---
 search.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/search.c b/search.c
index bcf9347..6002a27 100644
--- a/search.c
+++ b/search.c
@@ -1460,11 +1460,11 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 }
 /*}}}*/
 
-static int directory_exists_remove_other(char *name)/*{{{*/
+static int directory_exists_remove_other(char *name, int follow)/*{{{*/
 {
   struct stat sb;
 
-  if (stat(name, &sb) < 0) {
+  if ((follow ? stat(name, &sb) : lstat(name, &sb)) < 0) {
     return 0;
   }
   if (S_ISDIR(sb.st_mode)) {
@@ -1491,7 +1491,7 @@ static void maybe_create_maildir(char *path)/*{{{*/
   char *subdir, *tailpos;
   int len;
 
-  if (!directory_exists_remove_other(path)) {
+  if (!directory_exists_remove_other(path, 1)) {
     create_dir(path);
   }
 
@@ -1501,16 +1501,17 @@ static void maybe_create_maildir(char *path)/*{{{*/
   strcpy(subdir+len, "/");
   tailpos = subdir + len + 1;
 
+  /* These get cleared, so mustn't be links to a real folder's subdirectories */
   strcpy(tailpos,"cur");
-  if (!directory_exists_remove_other(subdir)) {
+  if (!directory_exists_remove_other(subdir, 0)) {
     create_dir(subdir);
   }
   strcpy(tailpos,"new");
-  if (!directory_exists_remove_other(subdir)) {
+  if (!directory_exists_remove_other(subdir, 0)) {
     create_dir(subdir);
   }
   strcpy(tailpos,"tmp");
-  if (!directory_exists_remove_other(subdir)) {
+  if (!directory_exists_remove_other(subdir, 0)) {
     create_dir(subdir);
   }
   free(subdir);
@@ -1613,7 +1614,7 @@ int search_top(int do_threads, int do_augment, char *database_path, char *comple
       maybe_create_maildir(complete_mfolder);
       break;
     case FT_MH:
-      if (!directory_exists_remove_other(complete_mfolder)) {
+      if (!directory_exists_remove_other(complete_mfolder, 1)) {
         create_dir(complete_mfolder);
       }
       break;
-- 
2.43.0


From 8f4e7c3e0bb385c73721c1043b877ae00cd26b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:35 +0000
Subject: [PATCH 27/58] fix: don't unmap a cached decompressed mbox that is
 still in use

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index fce63d1..9ae0e93 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1342,6 +1342,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     if (ro) {
       *data = ro->map;
       *len = ro->len;
+      data_alloc_type = ALLOC_NONE;
       return;
     }
 
-- 
2.43.0


From d0e4de5f29b271d268f864e3199371a9c7e047a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:57 +0000
Subject: [PATCH 28/58] fix: apply omit patterns below a folder entry '...' or
 'x/...' too

---
 mbox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbox.c b/mbox.c
index e0f9dc6..bace8cd 100644
--- a/mbox.c
+++ b/mbox.c
@@ -552,7 +552,7 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
         if (!strcmp(de->d_name, ".")) continue;
         if (!strcmp(de->d_name, "..")) continue;
         strcpy(xpath, path);
-        strcat(xpath, "/");
+        if (path[strlen(path) - 1] != '/') strcat(xpath, "/");
         strcat(xpath, de->d_name);
         if (!is_globber_array_match(omit_globs, xpath+base_len)) {
           /* Filter out omissions at this point, e.g. to avoid wasting time on
-- 
2.43.0


From 471f3fe036a74140bdf2b2565a44b361b6d072e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:16 +0000
Subject: [PATCH 29/58] fix: omit=x does not omit the folders below x (only
 omit=x** does)

---
 mbox.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mbox.c b/mbox.c
index bace8cd..57a261b 100644
--- a/mbox.c
+++ b/mbox.c
@@ -554,10 +554,9 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
         strcpy(xpath, path);
         if (path[strlen(path) - 1] != '/') strcat(xpath, "/");
         strcat(xpath, de->d_name);
-        if (!is_globber_array_match(omit_globs, xpath+base_len)) {
-          /* Filter out omissions at this point, e.g. to avoid wasting time on
-           * a recursive expansion of a tree that's going to get pruned in at
-           * the deepest level anyway. */
+        {
+          /* Folders below one that is omitted are not themselves omitted
+           * unless their own names match; append_shallow checks that. */
           status = (methods->scrutinize)(this_file_matched, de->d_name);
 #if 0
           /* debugging */
@@ -632,10 +631,8 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
         strcpy(xpath, temp_path);
         strcat(xpath, "/");
         strcat(xpath, de->d_name);
-        if (!is_globber_array_match(omit_globs, xpath+base_len)) {
-          /* Filter out omissions at this point, e.g. to avoid wasting time on
-           * a recursive expansion of a tree that's going to get pruned in full
-           * later anyway. */
+        {
+          /* Omissions are filtered out by append_shallow. */
           had_matches = 1;
           if (stat(xpath, &xsb) >= 0) {
             (*append)(xpath, base_len, &xsb, list, methods, omit_globs);
-- 
2.43.0


From 4b98e3be7a61320b4f2e6d8e63bdf74bd048d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:16 +0000
Subject: [PATCH 30/58] fix: find MH folders with numeric names below a '...'
 entry

---
 dirscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dirscan.c b/dirscan.c
index 3752520..33f75a8 100644
--- a/dirscan.c
+++ b/dirscan.c
@@ -242,7 +242,7 @@ static enum traverse_check scrutinize_mh_entry(int parent_is_mh, const char *de_
 {
   /* Have to allow sub-folders within a folder until we think of a better
    * solution.  */
-  if (valid_mh_filename_p(de_name)) {
+  if (parent_is_mh && valid_mh_filename_p(de_name)) {
     return TRAV_IGNORE;
   } else {
     return TRAV_PROCESS;
-- 
2.43.0


From 807b10fab5bd763dcd1a171e16f7d548dbbf3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 31/58] fix: look again at a message file that could not be
 read

A message file that was unreadable when it was scanned was recorded with its
modification time and so never looked at again after it became readable.
---
 db.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index e963f5c..9cf61b7 100644
--- a/db.c
+++ b/db.c
@@ -726,8 +726,13 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
       tokenise_message(i, db, msg);
       free_rfc822(msg);
     }
-    else
+    else {
       fprintf(stderr, "Skipping %s (could not parse message)\n", db->msgs[i].src.mpf.path);
+      if (db->type[i] == MTY_FILE && access(db->msgs[i].src.mpf.path, R_OK) < 0) {
+        /* Nothing is known of its contents : look at it again on the next run */
+        db->msgs[i].src.mpf.mtime = 0;
+      }
+    }
   }
 }
 /*}}}*/
-- 
2.43.0


From 02f09c448b5d91b5cdd04c4700c29aa8fca4a1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 32/58] fix: look again at a compressed mbox that could not be
 read

One that could not be opened or decompressed was recorded as an empty mbox
with its current modification time, so it stayed empty after it became
readable.
---
 mbox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbox.c b/mbox.c
index 57a261b..95d0eb5 100644
--- a/mbox.c
+++ b/mbox.c
@@ -868,7 +868,7 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (va) {
           rescan_mbox(mb, (char *) va, len);
           free_ro_mapping(va, len);
-        } else if (!len) {
+        } else if (!mb->current_size) {
           mb->n_old_msgs_valid = mb->n_msgs = 0;
         } else {
           /* Treat as dead mbox */
-- 
2.43.0


From 02ea332d09f785d4f8db219e8fbc9d20d1a048f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 33/58] fix: an mbox that vanishes during an index run doesn't
 end the run

It is left for the next run instead, and the rest of the mail is indexed.
---
 mbox.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mbox.c b/mbox.c
index 95d0eb5..0eb8cb4 100644
--- a/mbox.c
+++ b/mbox.c
@@ -932,12 +932,20 @@ int add_mbox_messages(struct database *db)/*{{{*/
         if (!va) {
           create_ro_mapping(mb->path, &va, &valen,
               MAP_DECOMPRESS_IF_APPLICABLE);
+          for (last=here; last->next; last=last->next) ;
+          if (!va || last->start + last->len > valen) {
+            /* The mbox has vanished or shrunk, or can't be read, since it was
+             * looked at.  Leave it, and look at it again on the next run. */
+            fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
+            for (xx=here; xx; xx=xn) {
+              xn = xx->next;
+              free(xx);
+            }
+            mb->current_mtime = 0;
+            mb->current_size = 0;
+            break;
+          }
         }
-        if (!va) {
-          fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
-          unlock_and_exit(1);
-        }
-
 
         /* Try to parse the next 'From' -to- 'From' chunk as an rfc822 message.
          * If we get an unterminated MIME encoding, coalesce the next chunk
-- 
2.43.0


From 2baffbc3f432b081a801aa954c28363a6416d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 34/58] fix: forget the selected IMAP folder when selecting
 another one fails

A failing SELECT or EXAMINE deselects on the server, so the messages of the
folder selected before it could not be fetched afterwards and were indexed
without any words.
---
 imap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 6e3105e..d261188 100644
--- a/imap.c
+++ b/imap.c
@@ -1255,6 +1255,10 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* Whatever the outcome, the folder selected until now no longer is. */
+	free(ll->selected_folder);
+	ll->selected_folder = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1307,7 +1311,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
-- 
2.43.0


From c1328e1111d75a645fc547c93a3ee47d7400faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 35/58] fix: survive the loss of the IMAP connection while
 writing to it

SIGPIPE killed mairix and left the database locked.
---
 imapinterface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imapinterface.c b/imapinterface.c
index d730f67..7de2d24 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <string.h>
+#include <signal.h>
 #ifdef USE_OPENSSL
 #include <openssl/ssl.h>
 #include <openssl/err.h>
@@ -32,6 +33,9 @@ struct imap_ll *imapc;
 	imapc = pipe ? imap_ll_pipe_connect(pipe) : imap_ll_connect(server, "143");
 	if (!imapc) return NULL;
 
+	/* A connection that is lost is to be reported by write() */
+	signal(SIGPIPE, SIG_IGN);
+
 	switch (imap_login(
 		imapc, username, -1, password, -1
 #ifdef USE_OPENSSL
-- 
2.43.0


From 2f7839f2e6a2548a2083c5bad3cc1baa2ee11d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 36/58] fix: do not crash when the IMAP server does not answer
 a command

imap_ll_command() returns NULL then, which the callers for CAPABILITY, LOGIN,
COPY and APPEND did not expect.
---
 imap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index d261188..34a74d8 100644
--- a/imap.c
+++ b/imap.c
@@ -837,6 +837,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD"; /* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -986,6 +987,7 @@ int plusindent = 0;
 int i;
 const char *close = NULL;
 
+	if (!t) return; /* no response */
 	switch (t->type) {
 		case TLTYPE_UNTAGGED:
 			for (i = 0; i < indent; i++) fputc(9, out);
@@ -1045,7 +1047,7 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
-	for (l = l->first; l; l = l->next) {
+	for (l = l ? l->first : NULL; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
 			((l->first->type) == TLTYPE_ATOM) &&
-- 
2.43.0


From c61b8f08bc92f4c80c21f7ddb93c6e57e67a9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 37/58] fix: create the IMAP match folder when the first match
 is uploaded

APPEND needs no selected folder; the SELECT before it failed when the folder
did not exist yet, so that the upload was given up before the answer that has
it created.
---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 7de2d24..7c75565 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -385,7 +385,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From f2737b0661faa14b40250862c3a869afbe6f806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 38/58] fix: keep IMAP messages apart in an mbox match folder

A message that does not end with a newline was followed by the next From_ line
without the empty line that has to come before it.
---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 6002a27..3301ea7 100644
--- a/search.c
+++ b/search.c
@@ -751,7 +751,7 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   FILE *out = (FILE *)arg;
   fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
   fwrite (data, sizeof(unsigned char), len, out);
-  fputc('\n', out);
+  mbox_terminate((const unsigned char *) data, len, out);
   return;
 }
 /*}}}*/
-- 
2.43.0


From 0502c8e177ee63f0a43a6ba58f5870e8447c8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:32 +0000
Subject: [PATCH 39/58] fix: send IMAP strings that contain a backslash as
 literals

In a quoted string the backslash escapes the next character, so passwords and
folder names with one in them arrived as something else.
---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index 34a74d8..5a1b57b 100644
--- a/imap.c
+++ b/imap.c
@@ -548,6 +548,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 4218b7187a76f54dd5937714eae46ab45241dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:08 +0000
Subject: [PATCH 40/58] fix: fetch an IMAP message again that could not be
 fetched

It was kept in the index without any words, and as messages on the server never
change it was never looked at again.
---
 db.c            | 9 ++++++++-
 imapinterface.c | 6 ++++--
 imapinterface.h | 4 +++-
 search.c        | 2 +-
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index 9cf61b7..e9da5d0 100644
--- a/db.c
+++ b/db.c
@@ -698,6 +698,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
   int i;
   for (i=start_at; i<db->n_msgs; i++) {
     struct rfc822 *msg = NULL;
+    int fetched = 1;
     int len = strlen(db->msgs[i].src.mpf.path);
 
     if (len > 10 && !strcmp(db->msgs[i].src.mpf.path + len - 11, "/.gitignore"))
@@ -716,7 +717,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &fetched);
         break;
     }
     if(msg)
@@ -732,6 +733,12 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         /* Nothing is known of its contents : look at it again on the next run */
         db->msgs[i].src.mpf.mtime = 0;
       }
+      if (!fetched) {
+        /* Likewise : it's still to be added */
+        free(db->msgs[i].src.mpf.path);
+        db->msgs[i].src.mpf.path = NULL;
+        db->type[i] = MTY_DEAD;
+      }
     }
   }
 }
diff --git a/imapinterface.c b/imapinterface.c
index 7c75565..2138df0 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -268,13 +268,15 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched)
 {
 struct make_rfc822_from_imap_s s;
+int got;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	got = imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	if (fetched) *fetched = got;
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 71f7a4f..0ead23c 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -21,8 +21,10 @@ int imap_fetch_message_raw(
 	   data is no longer valid. */
 );
 
+/* *fetched (may be NULL) is set to 1 if the server delivered the message,
+   0 otherwise */
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index 3301ea7..2ad5520 100644
--- a/search.c
+++ b/search.c
@@ -1337,7 +1337,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, NULL) : NULL;
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From f7f45439fbd4fb096c2b67357a79a09a5c2a8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:02 +0000
Subject: [PATCH 41/58] fix: refuse to put search results into an indexed IMAP
 folder

The messages that are there were deleted first, as in any match folder.
---
 mairix.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 2a0573a..8ef945f 100644
--- a/mairix.c
+++ b/mairix.c
@@ -135,6 +135,22 @@ int member_of (const char *complete_mfolder,
   return 0;
 }
 /*}}}*/
+static int imap_member_of(const char *folder, const char *folders, struct globber_array *omit_globs)/*{{{*/
+{
+  char **list;
+  int i, n;
+
+  if (!folders) return 0;
+  split_on_colons(folders, &n, &list);
+  for (i=0; i<n; i++) {
+    if (is_globber_array_match(omit_globs, list[i])) continue;
+    if (!strcmp(folder, list[i])) return 1;
+    /* Only this name is case-insensitive */
+    if (!strcasecmp(folder, "INBOX") && !strcasecmp(list[i], "INBOX")) return 1;
+  }
+  return 0;
+}
+/*}}}*/
 static char *copy_value(char *text)/*{{{*/
 {
   char *p;
@@ -754,7 +770,13 @@ int main (int argc, char **argv)/*{{{*/
       case FT_EXCERPT:
         break;
       case FT_IMAP:
-        /* the same check as below could be implemented in the future */
+        if (!imap_member_of(complete_mfolder, imap_folders, omit_globs)) break;
+        fprintf (stderr,
+            "You asked search results to go to the IMAP folder '%s'.\n"
+            "That folder is one of the indexed mail folders!\n"
+            "For your own good, I refuse to output search results to an indexed mail folder.\n",
+            mfolder);
+        unlock_and_exit(3);
         break;
       default:
         if ((member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
-- 
2.43.0


From b77ba1ff08669b2fa58c92896aea1e2594a6865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:07 +0000
Subject: [PATCH 42/58] fix: an attachment name given both as filename= and
 filename*= was stored twice over

make_nvp tested the action of the terminator instead of that of the
parameter it ends, so filename*=charset''name was appended to the value
of an earlier filename=name and the attachment could not be found.
---
 nvp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..6a7191a 100644
--- a/nvp.c
+++ b/nvp.c
@@ -293,7 +293,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		    *tempdst++ = *tempsrc;
 	    }
             *tempdst = 0;
-            if (current_action == GOT_NAMEVALUE_CSET)
+            if (last_action == GOT_NAMEVALUE_CSET)
               append_namevalue(result, &name, &value);
             else
               combine_namevalue(result, &name, &value);
-- 
2.43.0


From 1cc6eb37b520871ae16d9c3c95f3bc91a734da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:15 +0000
Subject: [PATCH 43/58] fix: MIME parameters with a language tag, ten or more
 sections or an empty value made the whole header unusable

RFC 2231 allows filename*=utf-8'en'name and filename*10*=..., RFC 2045
allows name=""; each of them made the Content-Type or Content-Disposition
header unparseable, losing the attachment name or the structure.
---
 nvp.c   | 4 ++++
 nvp.nfa | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/nvp.c b/nvp.c
index 6a7191a..20306d6 100644
--- a/nvp.c
+++ b/nvp.c
@@ -104,6 +104,7 @@ static void append_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 {
   struct nvp_entry *n;
+  if (!*value) *value = new_string("");
   for (n=nvp->first; n; n=n->next) {
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
@@ -307,6 +308,9 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
         /* Clear last_action so we don't repeat the action if we
            get another terminator immediately. */
         last_action = GOT_NOTHING;
+        /* An empty quoted value isn't copied */
+        free(value);
+        value = NULL;
         break;
       case GOT_NOTHING:
         break;
diff --git a/nvp.nfa b/nvp.nfa
index 0f2ccd9..ba6df17 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -81,6 +81,7 @@ Block qvalue {
 
     State qv0
         QVALUE -> qv1
+        -> qv2
 
     State qv1
         = COPY_TO_VALUE
@@ -114,6 +115,7 @@ Block namevalue {
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
+        OWS ; <name:in->out> ; [*] ; [1-9] ; <digits:in->out> ; [*] ; OWS ; [=] -> rhs_charset_continue
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
@@ -127,6 +129,7 @@ Block namevalue {
     State rhs_charset
         OWS ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
         OWS ; <minor:in->out> ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
+        OWS ; <minor:in->out> ; ['] ; <minor:in->out> ; ['] ; <value:in->out> ; OWS -> out_charset
 
     State rhs_charset_continue
         OWS ; <value:in->out> ; OWS -> out_charset_continue
-- 
2.43.0


From 6da4e7c7c0e0087c36746d46555c3fd42ef2a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 44/58] fix: 8-bit characters in a MIME parameter made the
 whole header unusable

Mailers do put raw 8-bit file names into Content-Type and
Content-Disposition; the header was then ignored, so that an attachment
was indexed as if it were text and its name was lost.
---
 nvp.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.nfa b/nvp.nfa
index ba6df17..e43f472 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -20,7 +20,7 @@
 # =======================================================================
 
 Tokens EOS
-Abbrev VALUE = [\041-~]~[\\";]
+Abbrev VALUE = [\041-~\200-\377]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
-- 
2.43.0


From 0bb0eaea8374f6be64748edd1cd7a4568c15585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:10 +0000
Subject: [PATCH 45/58] fix: size bounds of 2048M and more in z: conditions
 overflowed and excluded every message

---
 search.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/search.c b/search.c
index 2ad5520..cf579c0 100644
--- a/search.c
+++ b/search.c
@@ -380,34 +380,38 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
   }
 }
 /*}}}*/
-static int parse_size_expr(char *x)/*{{{*/
+static long long parse_size_expr(char *x)/*{{{*/
 {
-  int result;
-  int n;
-
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
-    x += n;
+  /* No message is as large as this */
+  const long long max_size = 0xffffffffLL;
+  long long result;
+  char *after;
+
+  result = strtoll(x, &after, 10);
+  if (after != x) {
+    if (result > max_size) result = max_size;
+    x = after;
     switch (*x) {
       case 'k':
       case 'K':
-        result <<= 10;
+        result *= 1024;
         break;
       case 'm':
       case 'M':
-        result <<= 20;
+        result *= 1024 * 1024;
         break;
       default:
         break;
     }
 
-    return result;
+    return (result > max_size) ? max_size : result;
   } else {
     fprintf(stderr, "Could not parse message size expression <%s>\n", x);
     return -1;
   }
 }
 /*}}}*/
-static void parse_size_range(char *size_expr, int *has_start, int *start, int *has_end, int *end)/*{{{*/
+static void parse_size_range(char *size_expr, int *has_start, long long *start, int *has_end, long long *end)/*{{{*/
 {
   char *x = size_expr;
   char *dash;
@@ -447,7 +451,7 @@ static void parse_size_range(char *size_expr, int *has_start, int *start, int *h
 /*}}}*/
 static void find_size_matches_in_table(struct read_db *db, char *size_expr, char *hits)/*{{{*/
 {
-  int start, end;
+  long long start, end;
   int has_start, has_end, start_cond, end_cond;
   int i;
 
@@ -456,15 +460,15 @@ static void find_size_matches_in_table(struct read_db *db, char *size_expr, char
   if (has_start && has_end) {
     /* Allow user to put the endpoints in backwards */
     if (start > end) {
-      int temp = start;
+      long long temp = start;
       start = end;
       end = temp;
     }
   }
 
   for (i=0; i<db->n_msgs; i++) {
-    start_cond = has_start ? (db->size_table[i] > start) : 1;
-    end_cond   = has_end   ? (db->size_table[i] < end  ) : 1;
+    start_cond = has_start ? (db->size_table[i] > (unsigned int) start) : 1;
+    end_cond   = has_end   ? (db->size_table[i] < (unsigned int) end  ) : 1;
     if (start_cond && end_cond) {
       hits[i] = 1;
     }
-- 
2.43.0


From 68ccbd6b3e78401ff81c51b1dd3d34312f84fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:22 +0000
Subject: [PATCH 46/58] fix: a comma in the comment of a Date header without a
 weekday left the message undated

---
 rfc822.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 9ae0e93..ee49b35 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -941,8 +941,10 @@ static time_t parse_rfc822_date(char *date_string)/*{{{*/
      */
 
   s = date_string;
-  z = strchr(s, ',');
-  if (z) s = z + 1;
+  /* Only a comma before the day number ends a weekday; later ones belong to
+   * comments. */
+  z = s + strcspn(s, ",0123456789");
+  if (*z == ',') s = z + 1;
   while (*s && isspace(*s)) s++;
   /* Should now be looking at day number */
   if (!isdigit(*s)) goto tough_cheese;
-- 
2.43.0


From 121da9988bb0dbd4bd1b50fe05c79c847a5818e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:22 +0000
Subject: [PATCH 47/58] fix: the file name of an attachment without a
 Content-Type was not indexed

---
 rfc822.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index ee49b35..69b6cba 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -767,8 +767,14 @@ static void do_body(struct msg_src *src,
   } else {
     /* Treat as text/plain {{{*/
     struct attachment *new_att;
+    const char *disposition, *lookup;
     new_att = new(struct attachment);
     new_att->filename = NULL;
+    disposition = cd_nvp ? nvp_first(cd_nvp) : NULL;
+    if (disposition && !strcasecmp(disposition, "attachment")) {
+      lookup = nvp_lookupcase(cd_nvp, "filename");
+      if (lookup) new_att->filename = new_string(lookup);
+    }
     new_att->ct = CT_TEXT_PLAIN;
     new_att->data.normal.len = decoded_body_len;
     /* Add null termination on the end */
-- 
2.43.0


From 810acf15d3ff3f3a3ac5c43b3da2baf51d6c7e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:45 +0000
Subject: [PATCH 48/58] fix: a word split over adjacent encoded-words of a
 header was not found

---
 rfc822.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 69b6cba..0862374 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -297,6 +297,7 @@ static void decode_header_value(char *text){/*{{{*/
   /* rfc2047 decode, written by Mikael Ylikoski */
 
   char *s, *a, *b, *e, *p, *q;
+  char *last = NULL; /* end of the last encoded-word decoded */
 
   for (p = q = s = text; (s = strstr(s, "=?")); s = e + 2) {
     if (p == q)
@@ -314,8 +315,11 @@ static void decode_header_value(char *text){/*{{{*/
     e = strstr(b, "?=");
     if (!e) break;
     /* have found an encoded-word */
-    if (b - a != 2)
+    if (b - a != 2 || !strchr("qQbB", *a))
       continue; /* unknown encoding */
+    /* White space between two encoded-words is not part of the text. */
+    if (last && last + strspn(last, " \t\r\n") == s - 2)
+      p -= (s - 2) - last;
     if (*a == 'q' || *a == 'Q') {
       int val;
       q = b;
@@ -331,7 +335,7 @@ static void decode_header_value(char *text){/*{{{*/
         } else
           *p++ = *q++;
       }
-    } else if (*a == 'b' || *a == 'B') {
+    } else {
       int reg, nc, eq; /* register, #characters in reg, #equals */
       int dc; /* decoded character */
       eq = reg = nc = 0;
@@ -353,10 +357,8 @@ static void decode_header_value(char *text){/*{{{*/
           }
         }
       }
-    } else {
-      continue; /* unknown encoding */
     }
-    q = e + 2;
+    q = last = e + 2;
   }
   if (p == q) return;
   while (*q != '\0')
-- 
2.43.0


From 0fe7e62afe17305bb7628c779dfc4fa848fff8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:03 +0000
Subject: [PATCH 49/58] fix: changes to an mbox reached through a followed
 symbolic link were not noticed

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 0eb8cb4..1460294 100644
--- a/mbox.c
+++ b/mbox.c
@@ -825,6 +825,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (S_ISLNK(sb.st_mode) && stat(path, &sb) < 0) {
+        /* link to nowhere */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 2f77748e7e19ca951d8391f58981a7593009c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:42 +0000
Subject: [PATCH 50/58] fix: a search could be made to overwrite a message of
 an indexed Maildir or MH folder by naming it as the match folder

---
 mairix.c | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/mairix.c b/mairix.c
index 8ef945f..1492eed 100644
--- a/mairix.c
+++ b/mairix.c
@@ -79,6 +79,45 @@ static enum filetype classify_file(char *name)/*{{{*/
   }
 }
 /*}}}*/
+static int same_file(const char *a, const char *b)/*{{{*/
+{
+  struct stat sa, sb;
+  return (stat(a, &sa) == 0) && (stat(b, &sb) == 0) &&
+    (sa.st_dev == sb.st_dev) && (sa.st_ino == sb.st_ino);
+}
+/*}}}*/
+/* returns 1 iff PATH is, or would be, one of the message files of the maildir
+   or MH FOLDER, or is a directory where a maildir keeps them. */
+static int is_inside_folder(const char *path, const char *folder, enum folder_type ft)/*{{{*/
+{
+  char *parent, *last, *cur_dir, *new_dir;
+  int result;
+
+  parent = new_array(char, strlen(path) + 2);
+  strcpy(parent, path);
+  for (last = parent + strlen(parent); (last > parent) && (last[-1] == '/'); last--) ;
+  *last = '\0';
+  last = strrchr(parent, '/');
+  last = last ? (last + 1) : parent;
+  if (ft == FT_MH) {
+    result = valid_mh_filename_p(last);
+    strcpy(last, ".");
+    result = result && same_file(parent, folder);
+  } else {
+    cur_dir = new_array(char, strlen(folder) + sizeof("/cur"));
+    new_dir = new_array(char, strlen(folder) + sizeof("/new"));
+    sprintf(cur_dir, "%s/cur", folder);
+    sprintf(new_dir, "%s/new", folder);
+    strcpy(last, ".");
+    result = same_file(path, cur_dir) || same_file(path, new_dir) ||
+      same_file(parent, cur_dir) || same_file(parent, new_dir);
+    free(cur_dir);
+    free(new_dir);
+  }
+  free(parent);
+  return result;
+}
+/*}}}*/
 /*{{{ member of*/
 /* returns 1 iff COMPLETE_MFOLDER (i.e. the match folder with
    folder_base prepended if needed) matches one of the FOLDERS after
@@ -92,6 +131,7 @@ int member_of (const char *complete_mfolder,
     struct globber_array *omit_globs) {
   char **raw_paths, **paths;
   int n_raw_paths, n_paths, i;
+  char *target;
 
   if (!folders)
     return 0;
@@ -111,12 +151,18 @@ int member_of (const char *complete_mfolder,
     case FT_IMAP:
       break;
   }
+  target = realpath(complete_mfolder, NULL);
   for (i=0; i<n_paths; i++) {
     struct stat mfolder_sb, src_folder_sb; /* for checking inode numbers */
 
     /* if the complete path names are the same, definitely a match */
     if (strcmp (complete_mfolder, paths[i]) == 0)
       return 1;
+    /* nor must it be inside one of them, directly or through a link */
+    if ((ft == FT_MAILDIR || ft == FT_MH) &&
+        (is_inside_folder(complete_mfolder, paths[i], ft) ||
+         (target && is_inside_folder(target, paths[i], ft))))
+      return 1;
     /* also a match if they point to the same file or directory but
        via different routes (e.g. absolute path for one but path with
        ../.. for the other), so check inode numbers */
@@ -129,6 +175,7 @@ int member_of (const char *complete_mfolder,
       return 1;
   }
 
+  free(target);
   free_string_array(n_raw_paths, &raw_paths);
   free_string_array(n_paths, &paths);
 
-- 
2.43.0


From 143dc76c24092e23c4a59df0b82caed5cb4fba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 51/58] fix: a message of a changed mbox was taken for
 unaltered though it no longer followed a separator

---
 mbox.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/mbox.c b/mbox.c
index 1460294..32ea733 100644
--- a/mbox.c
+++ b/mbox.c
@@ -134,18 +134,6 @@ static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{
   return 0;
 }
 /*}}}*/
-static int find_number_intact(struct mbox *mb, char *va, size_t len)/*{{{*/
-{
-  /* Messages may have been removed, changed in place (e.g. to record their
-     status) or replaced anywhere in the file.  Anything from the first altered
-     message onwards has to be looked at again. */
-  int i;
-  for (i=0; i<mb->n_msgs; i++) {
-    if (!message_is_intact(mb, i, va, len)) break;
-  }
-  return i;
-}
-/*}}}*/
 
 
 static int scantabs_inited = 0;
@@ -300,6 +288,39 @@ static off_t skip_mmdfsep(off_t n, char *va, size_t len)/*{{{*/
   return n + 5 <= len && ! strncmp(va + n, "\1\1\1\1\n", 5) ? n + 5 : -1;
 }
 /*}}}*/
+static int is_mmdf(char *va, size_t len)/*{{{*/
+{
+  return len > 10 && ! strncmp(va, "\1\1\1\1\n", 5);
+}
+/*}}}*/
+static int find_number_intact(struct mbox *mb, char *va, size_t len)/*{{{*/
+{
+  /* Messages may have been removed, changed in place (e.g. to record their
+     status) or replaced anywhere in the file.  Anything from the first altered
+     message onwards has to be looked at again.  The same goes if it no longer
+     follows a separator, e.g. because a few bytes of another message happen to
+     look the same. */
+  int i;
+  int mmdf = is_mmdf(va, len);
+  off_t pos = 0, sep;
+  if (!scantabs_inited) {
+    init_scantabs();
+  }
+  for (i=0; i<mb->n_msgs; i++) {
+    if (mmdf && (i > 0)) {
+      pos = skip_mmdfsep(pos, va, len); /* the one that ends message i-1 */
+      if (pos == -1) break;
+    }
+    sep = mmdf ? find_next_mmdfsep(pos, va, len) : find_next_from(pos, va, len);
+    if ((sep == -1) || ((i > 0) && (sep != pos))) break;
+    pos = mmdf ? skip_mmdfsep(sep, va, len) : start_of_next_line(sep, va, len);
+    if (pos != mb->start[i]) break;
+    if (!message_is_intact(mb, i, va, len)) break;
+    pos += mb->len[i];
+  }
+  return i;
+}
+/*}}}*/
 
 
 static struct message_list *build_new_message_list(struct mbox *mb, char *va, size_t len, int *n_messages)/*{{{*/
@@ -314,7 +335,7 @@ static struct message_list *build_new_message_list(struct mbox *mb, char *va, si
 
 #define PERCENT_GRAN 2
 
-  if(len > 10 && ! strncmp(va, "\1\1\1\1\n", 5)) {
+  if(is_mmdf(va, len)) {
     mmdf = 5;
     message_start = skip_mmdfsep;
     find_next_separator = find_next_mmdfsep;
-- 
2.43.0


From fffb386ed5b7d36fc934c43f89c045d1ddb497d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 52/58] fix: the messages of an MMDF folder after stray text
 were only indexed if appended later

---
 mbox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbox.c b/mbox.c
index 32ea733..00808c3 100644
--- a/mbox.c
+++ b/mbox.c
@@ -393,7 +393,7 @@ static struct message_list *build_new_message_list(struct mbox *mb, char *va, si
       here = next;
     }
     ++*n_messages;
-    start_from = end_from + mmdf;
+    start_from = (end_from == -1) ? -1 : find_next_separator(end_from + mmdf, va, len);
   }
 
 done:
-- 
2.43.0


From 4fd7a160cf09b773e6c177d83c80a7fb3573eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:40 +0000
Subject: [PATCH 53/58] fix: lines of a message that look like an mbox
 separator split it in an mbox match folder

---
 mairix.h |  1 +
 mbox.c   |  9 +++++++++
 search.c | 21 ++++++++++++++++++---
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/mairix.h b/mairix.h
index b63bf46..7167d67 100644
--- a/mairix.h
+++ b/mairix.h
@@ -379,6 +379,7 @@ void build_mbox_lists(struct database *db, const char *folder_base,
     const char *mboxen_paths, struct globber_array *omit_globs,
     int do_mbox_symlinks);
 int add_mbox_messages(struct database *db);
+off_t find_mbox_separator(off_t n, char *va, size_t len);
 void compute_checksum(const char *data, size_t len, checksum_t *csum);
 void cull_dead_mboxen(struct database *db);
 
diff --git a/mbox.c b/mbox.c
index 00808c3..25b84b8 100644
--- a/mbox.c
+++ b/mbox.c
@@ -246,6 +246,15 @@ scan_again:
   return -1;
 }
 /*}}}*/
+off_t find_mbox_separator(off_t n, char *va, size_t len)/*{{{*/
+{
+  /* n must be the start of a line */
+  if (!scantabs_inited) {
+    init_scantabs();
+  }
+  return find_next_from(n, va, len);
+}
+/*}}}*/
 static off_t start_of_next_line(off_t n, char *va, size_t len)/*{{{*/
 {
   unsigned char c;
diff --git a/search.c b/search.c
index cf579c0..db8cc30 100644
--- a/search.c
+++ b/search.c
@@ -735,6 +735,21 @@ static void mbox_terminate(const unsigned char *data, int len, FILE *out)/*{{{*/
     fputs("\n", out);
 }
 /*}}}*/
+static void mbox_write(const unsigned char *data, size_t len, FILE *out)/*{{{*/
+{
+  /* Quote the lines that would be taken for the start of another message. */
+  off_t done = 0, sep;
+  while ((sep = find_mbox_separator(done, (char *) data, len)) >= 0) {
+    off_t eol = sep;
+    fwrite(data + done, sizeof(unsigned char), sep - done, out);
+    fputs(">", out);
+    while ((eol < len) && (data[eol++] != '\n')) ;
+    fwrite(data + sep, sizeof(unsigned char), eol - sep, out);
+    done = eol;
+  }
+  fwrite(data + done, sizeof(unsigned char), len - done, out);
+}
+/*}}}*/
 static void append_file_to_mbox(const char *path, FILE *out)/*{{{*/
 {
   unsigned char *data;
@@ -743,7 +758,7 @@ static void append_file_to_mbox(const char *path, FILE *out)/*{{{*/
   if (data) {
     fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
     fprintf(out, "X-source-folder: %s\n", path);
-    fwrite (data, sizeof(unsigned char), len, out);
+    mbox_write(data, len, out);
     mbox_terminate(data, len, out);
     free_ro_mapping(data, len);
   }
@@ -754,7 +769,7 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *out = (FILE *)arg;
   fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
-  fwrite (data, sizeof(unsigned char), len, out);
+  mbox_write((const unsigned char *) data, len, out);
   mbox_terminate((const unsigned char *) data, len, out);
   return;
 }
@@ -835,7 +850,7 @@ static void append_mboxmsg_to_mbox(struct read_db *db, int msg_index, FILE *out)
     fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
     fprintf(out, "X-source-folder: %s\n",
             db->data + db->mbox_paths_table[mbox_index]);
-    fwrite(msg_start, sizeof(unsigned char), msg_len, out);
+    mbox_write(msg_start, msg_len, out);
     mbox_terminate(msg_start, msg_len, out);
   }
   if (mbox_start) {
-- 
2.43.0


From 90251cfc1b59dbc31e29869a3c71f5b3e5350dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:08 +0000
Subject: [PATCH 54/58] fix: the rest of a multipart message was lost after a
 NUL on a line that looks like a boundary

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 0862374..706b373 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -912,7 +912,7 @@ static void do_multipart(struct msg_src *src,
       ))
         boundary_ok = 0;
       if (!boundary_ok) {
-        char *eol = strchr(b1, '\n');
+        char *eol = memchr(b1, '\n', be - b1);
         if (!eol) {
           fprintf(stderr, "Oops, didn't find another normal boundary in %s\n",
               format_msg_src(src));
-- 
2.43.0


From 08e3fbc34bec843e10e96b45f26f00ff6a9a4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:37 +0000
Subject: [PATCH 55/58] fix: a path key lost the matches of the other keys it
 was combined with

---
 search.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/search.c b/search.c
index db8cc30..7adbf03 100644
--- a/search.c
+++ b/search.c
@@ -293,7 +293,7 @@ static void match_substring_in_table(struct read_db *db, struct toktable_db *tt,
 static void match_substring_in_paths(struct read_db *db, char *substring, int max_errors, int left_anchor, char *hits)/*{{{*/
 {
 
-  int i;
+  int i, got_hit;
   unsigned long a[256];
   unsigned long *r=NULL, *nr=NULL;
   unsigned long hit;
@@ -327,21 +327,22 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        got_hit = substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        got_hit = substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        got_hit = substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        got_hit = substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        got_hit = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
+    if (got_hit) hits[i] = 1; /* besides what other fields have matched */
 next_message:
     (void) 0;
   }
-- 
2.43.0


From 183299efaddb2f2097c54c17b05d614157102325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:37 +0000
Subject: [PATCH 56/58] fix: words after a NUL byte in a text part were not
 indexed

---
 db.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/db.c b/db.c
index e9da5d0..6ae0696 100644
--- a/db.c
+++ b/db.c
@@ -580,6 +580,15 @@ static void tokenise_string(int file_index, unsigned int hash_key, struct toktab
   }
 }
 /*}}}*/
+static void blank_nulls(char *data, int len)/*{{{*/
+{
+  /* A null byte in a text doesn't end it */
+  char *p;
+  for (p = data; p < data + len; p++) {
+    if (!*p) *p = ' ';
+  }
+}
+/*}}}*/
 static void tokenise_html_string(int file_index, unsigned int hash_key, struct toktable *table, char *data)/*{{{*/
 {
   char *ss, *es, old_es;
@@ -634,9 +643,11 @@ void tokenise_message(int file_index, struct database *db, struct rfc822 *msg)/*
   for (a=msg->atts.next; a!=&msg->atts; a=a->next) {
     switch (a->ct) {
       case CT_TEXT_PLAIN:
+        blank_nulls(a->data.normal.bytes, a->data.normal.len);
         tokenise_string(file_index, db->hash_key, db->body, a->data.normal.bytes, 1);
         break;
       case CT_TEXT_HTML:
+        blank_nulls(a->data.normal.bytes, a->data.normal.len);
         tokenise_html_string(file_index, db->hash_key, db->body, a->data.normal.bytes);
         break;
       case CT_MESSAGE_RFC822:
-- 
2.43.0


From 3c625a497b3b82a9d9d48382e37f852958640cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 57/58] fix: a MIME boundary followed by white space was not
 recognised

---
 rfc822.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 706b373..c0c33de 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -906,11 +906,12 @@ static void do_multipart(struct msg_src *src,
       boundary_ok = 1;
       if ((b1 > input) && (*(b1-1) != '\n'))
         boundary_ok = 0;
-      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be) && !(
-          ((b1 + boundary_len + 2 < input + input_len) && (*(b1 + boundary_len + 2) == '\n')) ||
-          ((b1 + boundary_len + 3 < input + input_len) && (*(b1 + boundary_len + 2) == '\r') && (*(b1 + boundary_len + 3) == '\n'))
-      ))
-        boundary_ok = 0;
+      if (!looking_at_end_boundary) {
+        /* White space may follow the boundary */
+        char *eb = b1 + boundary_len + 2;
+        while ((eb < be) && ((*eb == ' ') || (*eb == '\t') || (*eb == '\r'))) eb++;
+        if ((eb < be) && (*eb != '\n')) boundary_ok = 0;
+      }
       if (!boundary_ok) {
         char *eol = memchr(b1, '\n', be - b1);
         if (!eol) {
-- 
2.43.0


From f3adcb1e4e323370bb4eb76d38343a292a4b3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:09 +0000
Subject: [PATCH 58/58] fix: the last part of a multipart message without an
 end boundary was lost

---
 rfc822.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c0c33de..a814ed1 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -888,7 +888,7 @@ static void do_multipart(struct msg_src *src,
     do {
       /* reject boundaries that aren't a whole line */
       b1 = NULL;
-      for (bx = start_b1_search_from; bx < be - (boundary_len + 2); bx++) {
+      for (bx = start_b1_search_from; bx <= be - (boundary_len + 2); bx++) {
         if (bx[0] == '-' && bx[1] == '-' &&
             !strncmp(bx+2, boundary, boundary_len)) {
           b1 = bx;
@@ -896,6 +896,8 @@ static void do_multipart(struct msg_src *src,
         }
       }
       if (!b1) {
+        /* The last part, if any, ends with the message */
+        if (b0 && line_after_b0 < be) do_attachment(src, line_after_b0, be, atts);
         if (error)
           *error = DTR8_MISSING_END;
         return;
@@ -914,12 +916,7 @@ static void do_multipart(struct msg_src *src,
       }
       if (!boundary_ok) {
         char *eol = memchr(b1, '\n', be - b1);
-        if (!eol) {
-          fprintf(stderr, "Oops, didn't find another normal boundary in %s\n",
-              format_msg_src(src));
-          return;
-        }
-        start_b1_search_from = 1 + eol;
+        start_b1_search_from = eol ? 1 + eol : be;
       }
     } while (!boundary_ok);
 
-- 
2.43.0

