From 82802303293dbddb723fbddeb874e33769f70326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:26 +0000
Subject: [PATCH 01/18] fix: execute a line that fills the whole input buffer

A line of input_buffer_size - 1 characters followed by a newline wrapped the
input position, clearing the line and parsing garbage past it (out of bounds
with a one byte buffer).
---
 src/src/ush_read_char.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/ush_read_char.c b/src/src/ush_read_char.c
index 7da1101..b119d47 100644
--- a/src/src/ush_read_char.c
+++ b/src/src/ush_read_char.c
@@ -64,6 +64,11 @@ bool ush_read_char(struct ush_object *self)
                 echo = false;
                 break;
         default:
+                if ((ch == '\n' || ch == '\r') && (self->ansi_escape_state == 0) && (self->in_pos + 1 == self->desc->input_buffer_size)) {
+                        /* line takes whole buffer, newline on the last position finishes it */
+                        self->desc->input_buffer[self->in_pos] = ch;
+                        break;
+                }
                 echo = ush_read_char_by_escape_state(self, ch);
                 break;
         }
-- 
2.43.0


From 187487d449853c0a2cbe149b84026c17ce582b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 02/18] fix: reject paths longer than path_max_length

Every path typed by the user was copied to path_max_length stack buffers
without checking the length.
---
 src/inc/ush_node.h |  1 +
 src/src/ush_node.c | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/inc/ush_node.h b/src/inc/ush_node.h
index 4145741..642908e 100644
--- a/src/inc/ush_node.h
+++ b/src/inc/ush_node.h
@@ -80,6 +80,7 @@ ush_status_t ush_node_set_current_dir(struct ush_object *self, const char *path)
  * Converting takes into account the current working path.
  * Input path could be relative as well as absolute.
  * It doesn't operate on the mounted paths, so paths may not be exist at all.
+ * If path doesn't fit in path_max_length (before collapsing), result is "." which never points to any node.
  * 
  * @param self - pointer to master ush object
  * @param in_path - pointer to input path name
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..225a2dd 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -75,6 +75,19 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t abs_path_size = strlen(in_path) + 1;
+        if (in_path[0] != '/') {
+                abs_path_size += strlen(self->current_node->path);
+                if (strcmp(self->current_node->path, "/") != 0)
+                        abs_path_size++;
+        }
+
+        if (abs_path_size > self->desc->path_max_length) {
+                /* path too long, relative path never points to any node */
+                strcpy(out_path, ".");
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
-- 
2.43.0


From 608af7154c6658a3be8666b479d860be95562ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 03/18] fix: skip files whose full path exceeds path_max_length

Looking up any name in a directory holding such a file overflowed the
path_max_length stack buffer.
---
 src/src/ush_file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..8e2a3bc 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,9 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        size_t separator_len = (strcmp(curr->path, "/") == 0) ? 0 : 1;
+                        if (strlen(curr->path) + separator_len + strlen(file->name) >= sizeof(file_path))
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
-- 
2.43.0


From d8e250b1b2562dca379218331469e87d8531dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 04/18] fix: keep autocompletion inside the input buffer

A completed name longer than the free space was written past the end of the
input buffer, or wrapped it and left it without terminator. Complete only as
many characters as fit.
---
 src/src/ush_autocomp_state.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..3927253 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -86,13 +86,19 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         break;
                 case 1: {
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
-                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
+                        size_t max_len = self->desc->input_buffer_size - (size_t)(self->autocomp_input - self->desc->input_buffer) - 1;
+                        strncpy(self->autocomp_input, self->autocomp_candidate_name, max_len);
+                        self->autocomp_input[max_len] = '\0';
                         self->in_pos = strlen(self->desc->input_buffer);
                         ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
                         break;
                 }
                 default:
                         self->autocomp_suffix_len = 0;
+                        if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                                break;
+                        }
                         ush_autocomp_optimize_continue(self);
                         break;
                 }
@@ -108,6 +114,11 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
+                if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                        return;
+                }
+
                 ush_autocomp_optimize_continue(self);
         } else {
                 USH_ASSERT(false);
-- 
2.43.0


From 4ebe88cabba5c20e8746c69238beb5d79b484ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 05/18] fix: do not loop forever on autocompletion after a NUL
 char

Received NUL char made the input position different than the length of the
line, so appended candidate chars never changed the completed name.
---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 3927253..0a33b00 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* line with NUL chars ends on the first of them */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From 935ab10c6b24db3a643e9ab8de42aceec64c3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 06/18] fix: bound listing rows to the output buffer

File names and xxd rows were formatted into the output buffer without checking
its size (at least 4 bytes is required, xxd row needs 26).
---
 src/src/commands/ush_cmd_help.c |  4 ++--
 src/src/commands/ush_cmd_ls.c   |  6 +++---
 src/src/commands/ush_cmd_xxd.c  | 24 +++++++++++++++++-------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..4c367b4 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -33,6 +33,13 @@ SOFTWARE.
 
 #define USH_CMD_XXD_COLUMNS     USH_CONFIG_CMD_XXD_COLUMNS
 
+static void ush_buildin_cmd_xxd_append(struct ush_object *self, const char *text)
+{
+        char *buf = self->desc->output_buffer;
+
+        strncat(buf, text, self->desc->output_buffer_size - strlen(buf) - 1);
+}
+
 void ush_buildin_cmd_xxd_callback(struct ush_object *self, struct ush_file_descriptor const *file, int argc, char *argv[])
 {
         (void)file;
@@ -77,7 +84,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -87,12 +94,14 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 size_t offset = self->process_index_item + i;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        char hex[4];
+                                        snprintf(hex, sizeof(hex), "%02X ", b);
+                                        ush_buildin_cmd_xxd_append(self, hex);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        ush_buildin_cmd_xxd_append(self, "   ");
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        ush_buildin_cmd_xxd_append(self, " ");
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -104,12 +113,13 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                char printable[2] = { (char)b, '\0' };
+                                                ush_buildin_cmd_xxd_append(self, printable);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                ush_buildin_cmd_xxd_append(self, ".");
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        ush_buildin_cmd_xxd_append(self, " ");
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


From 52c6d1a7be255d6d6481a56ddb0c581450acdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 07/18] fix: keep ush_printf error message inside the output
 buffer

Error message longer than the output buffer was written before its beginning,
and message needing exactly the free space was terminated past its end.
---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..d9dc902 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -154,15 +154,17 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From b4626c30bcc4e1c5be360f53e0c7b6cf1c9a01e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 08/18] fix: do not use missing file or unset data in cat

File removed while the previous one was being printed was dereferenced, and
getter of an empty file could leave the data pointer uninitialized.
---
 src/src/commands/ush_cmd_cat.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..8ab46e5 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,10 +80,17 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                if (f == NULL || f->get_data == NULL) {
+                        /* file could be removed while previous one was printed */
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
+
+                uint8_t *data = NULL;
                 size_t data_size = f->get_data(self, f, &data);
 
-                ush_write_pointer_bin(self, data, data_size, self->state);
+                if (data_size > 0)
+                        ush_write_pointer_bin(self, data, data_size, self->state);
                 self->process_index_item++;
                 break;
         }
-- 
2.43.0


From 589c9cec0848eb02d888c9810aca2aa69ac5d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 09/18] fix: leave unmounted directory

Unmounting current directory left it as the current one, so the shell kept
using node which no longer belongs to it.
---
 src/src/ush_node_mount.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..290c897 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -83,6 +83,10 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 return USH_STATUS_OK;
         }
 
+        /* current directory has to be mounted all the time */
+        if (self->current_node == node)
+                self->current_node = parent_node;
+
         struct ush_node_object *prev = NULL;
         struct ush_node_object *curr = parent_node->children;
 
-- 
2.43.0


From 6bceae41c9ec71e45a654011058ba595627bafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 10/18] fix: initialize commands list

Commands list of a non-zeroed object was random, and second ush_init made
builtin commands list point to itself.
---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index d9dc902..2541c7a 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From 1fbd86e110b77adbd2ef192a721461800ec28ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/18] fix: terminate data decoded by echo

Decoding escape sequences makes text shorter, so remains of the encoded text
were printed after it.
---
 src/src/commands/ush_cmd_echo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..91573c2 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,7 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                data_in[data_size] = '\0';
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From 945b827a860e838ba3ca237659ca93132cd13dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 12/18] fix: failed mount does not modify the node

Mounting of an already mounted node under wrong path was refused, but path and
files of the node were changed, so it vanished from the mounted tree.
---
 src/src/ush_node_mount.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 290c897..961395a 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,16 +37,15 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
         if (node_parent != NULL) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -54,6 +53,9 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         }
 
         if (strcmp(path, "/") == 0) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From b471599bfe69733c4af713351f7f626e7d6cc6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 13/18] fix: mount initializes children of the node

All other links of the node are set by mount, only children list of
a non-zeroed node was left random.
---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 961395a..829e8a4 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -46,6 +46,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 node->file_list = file_list;
                 node->file_list_size = file_list_size;
                 node->path = path;
+                node->children = NULL;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -56,6 +57,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 node->file_list = file_list;
                 node->file_list_size = file_list_size;
                 node->path = path;
+                node->children = NULL;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From 0ed573f86d21a428c9a030017e89eb7c9bda2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 14/18] fix: limit data written to demo memories

Writing more than 32 bytes to /dev/mem/eeprom overflowed its buffer.
---
 examples/demo_linux/fs/path/dev.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index b23f947..cb52aad 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,6 +106,9 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_ram_buffer))
+                size = sizeof(g_ram_buffer);
+
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -123,6 +126,9 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_eeprom_buffer))
+                size = sizeof(g_eeprom_buffer);
+
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 6e0a76b07471b7e4aa9a27066558c7e9886659a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 15/18] fix: find last argument after a single leading space

---
 src/src/ush_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..4cd5ea1 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -212,6 +212,9 @@ char* ush_utils_get_last_arg(const char *input)
                 len--;
         }
 
+        if (input[0] == ' ')
+                return (char*)&input[1];
+
         return (char*)input;
 }
 
-- 
2.43.0


From 1bff4e22c05d188bb7922de9d4467159d547fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 16/18] fix: init without any buildin command

---
 src/src/ush.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 2541c7a..48610df 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -51,9 +51,12 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
-        ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-        if (stat != USH_STATUS_OK) {
-                USH_ASSERT(false);
+        /* every buildin command may be disabled */
+        if (g_ush_buildin_commands_num > 0) {
+                ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
+                if (stat != USH_STATUS_OK) {
+                        USH_ASSERT(false);
+                }
         }
 #endif /* USH_CONFIG_ENABLE_FEATURE_COMMANDS */
 
-- 
2.43.0


From 94a533e6d52f981bba935c1a642414bc903f1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 17/18] Revert "fix: limit data written to demo memories"

This reverts commit 0ed573f86d21a428c9a030017e89eb7c9bda2739.
---
 examples/demo_linux/fs/path/dev.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index cb52aad..b23f947 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,9 +106,6 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_ram_buffer))
-                size = sizeof(g_ram_buffer);
-
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -126,9 +123,6 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_eeprom_buffer))
-                size = sizeof(g_eeprom_buffer);
-
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 1a8fa3d805fc94ea5c0ff287ae3316e71ca55888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:52 +0000
Subject: [PATCH 18/18] fix: complete names which begin with a dot in the
 current directory

---
 src/src/ush_autocomp_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_autocomp_utils.c b/src/src/ush_autocomp_utils.c
index edf3d0d..fae5410 100644
--- a/src/src/ush_autocomp_utils.c
+++ b/src/src/ush_autocomp_utils.c
@@ -78,7 +78,10 @@ void ush_autocomp_check_for_finish(struct ush_object *self)
                 self->process_stage = 1;
         } else if (self->process_stage == 1) {
                 ush_node_get_absolute_path(self, self->autocomp_input, abs_path);
-                if (self->autocomp_input[0] == '\0') {
+                if ((self->autocomp_input[0] == '\0') ||
+                    (strcmp(self->autocomp_input, ".") == 0) ||
+                    (strcmp(self->autocomp_input, "..") == 0)) {
+                        /* nothing to complete yet, or a prefix of a name - not the directory which it denotes */
                         self->process_node = self->current_node;
                 } else {
                         self->process_node = ush_node_get_parent_by_path(self, abs_path);
-- 
2.43.0

