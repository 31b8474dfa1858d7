From 5c4b8a7f6bacf2cafe1e39cf52f563445ab6e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 01/92] fix: find binout entries whose names contain non ASCII
 characters

---
 src/path_view.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/path_view.c b/src/path_view.c
index 011942b..3e8cc6b 100644
--- a/src/path_view.c
+++ b/src/path_view.c
@@ -95,7 +95,10 @@ int path_view_strcmp(const path_view_t *pv, const char *str) {
   int i = 0;
   while (i < PATH_VIEW_LEN(pv) && str[i] != '\0') {
     /* If the characters are not equal, return the difference*/
-    const int cmp_val = (int)(pv->string[pv->start + i] - str[i]);
+    /* Compare as unsigned bytes to agree with strcmp, which determines the order
+     * of the entries*/
+    const int cmp_val =
+        (int)(unsigned char)pv->string[pv->start + i] - (int)(unsigned char)str[i];
     if (cmp_val != 0) {
       END_PROFILE_FUNC();
       return cmp_val;
-- 
2.43.0


From f74eeff946b524a405ffd766543749bce684e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 02/92] fix: do not read behind the end of an empty path

---
 src/path_view.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/path_view.c b/src/path_view.c
index 3e8cc6b..93861f3 100644
--- a/src/path_view.c
+++ b/src/path_view.c
@@ -34,14 +34,17 @@
 path_view_t path_view_new(const char *string) {
   BEGIN_PROFILE_FUNC();
 
-  assert(string != NULL && string[0] != '\0');
+  assert(string != NULL);
 
   path_view_t pv;
   pv.string = string;
   pv.start = 0;
   pv.end = 0;
 
-  if (string[0] != PATH_SEP) {
+  if (string[0] == '\0') {
+    /* There is no element in an empty path*/
+    pv.end = -1;
+  } else if (string[0] != PATH_SEP) {
     /* Determine the first element*/
     while (string[pv.end + 1] != PATH_SEP && string[pv.end + 1] != '\0') {
       pv.end++;
-- 
2.43.0


From 07e034328771b8e16af11f27616dcb6ed91631dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 03/92] fix: error messages longer than 1023 characters
 overflow their buffer

---
 src/binout_defines.h      |  6 ++--
 src/d3_buffer.c           | 23 ++++++++------
 src/d3plot_error_macros.h | 21 ++++++++-----
 src/key.c                 |  9 +++---
 src/string_builder.c      | 64 +++++++++++++++++++++++++++++++++++++++
 src/string_builder.h      |  8 +++++
 6 files changed, 107 insertions(+), 24 deletions(-)

diff --git a/src/binout_defines.h b/src/binout_defines.h
index d80c302..7b65c75 100644
--- a/src/binout_defines.h
+++ b/src/binout_defines.h
@@ -64,9 +64,9 @@
   bin_file->error_string = string_clone(message)
 
 #define NEW_ERROR_STRING_F(format_str, ...)                                    \
-  char format_buffer[1024];                                                    \
-  sprintf(format_buffer, format_str, __VA_ARGS__);                             \
-  NEW_ERROR_STRING(format_buffer)
+  char *format_buffer = string_format(format_str, __VA_ARGS__);                \
+  NEW_ERROR_STRING(format_buffer);                                             \
+  free(format_buffer)
 
 #define BINOUT_CLEAR_ERROR_STRING()                                            \
   free(bin_file->error_string);                                                \
diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index 2401cf0..f37f33e 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -26,6 +26,7 @@
 #include "d3_buffer.h"
 #include "path.h"
 #include "profiling.h"
+#include "string_builder.h"
 #include <errno.h>
 #include <limits.h>
 #include <stdlib.h>
@@ -40,9 +41,11 @@
   return buffer;
 #define ERROR_AND_RETURN_BUFFER_F(format_str, ...)                             \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
-    ERROR_AND_RETURN_BUFFER(format_buffer);                                    \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
+    free(buffer.error_string);                                                 \
+    buffer.error_string = format_buffer;                                       \
+    END_PROFILE_FUNC();                                                        \
+    return buffer;                                                             \
   }
 #define ERROR_AND_NO_RETURN_BUFFER_PTR(msg)                                    \
   if (buffer->error_string)                                                    \
@@ -55,15 +58,17 @@
   return;
 #define ERROR_AND_RETURN_BUFFER_F_PTR(format_str, ...)                         \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
-    ERROR_AND_RETURN_BUFFER_PTR(format_buffer);                                \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
+    free(buffer->error_string);                                                \
+    buffer->error_string = format_buffer;                                      \
+    END_PROFILE_FUNC();                                                        \
+    return;                                                                    \
   }
 #define ERROR_AND_NO_RETURN_BUFFER_F_PTR(format_str, ...)                      \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
-    ERROR_AND_NO_RETURN_BUFFER_PTR(format_buffer);                             \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
+    free(buffer->error_string);                                                \
+    buffer->error_string = format_buffer;                                      \
   }
 
 d3_buffer d3_buffer_open(const char *root_file_name) {
diff --git a/src/d3plot_error_macros.h b/src/d3plot_error_macros.h
index 4a358f7..43ed61c 100644
--- a/src/d3plot_error_macros.h
+++ b/src/d3plot_error_macros.h
@@ -26,6 +26,7 @@
 #ifndef D3PLOT_ERROR_MACROS_H
 #define D3PLOT_ERROR_MACROS_H
 
+#include "string_builder.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -37,9 +38,9 @@
   sprintf(plot_file->error_string, "%s", msg);
 #define ERROR_AND_NO_RETURN_F_PTR(format_str, ...)                             \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
     ERROR_AND_NO_RETURN_PTR(format_buffer);                                    \
+    free(format_buffer);                                                       \
   }
 #define ERROR_AND_RETURN(msg)                                                  \
   d3_pointer_close(&plot_file.buffer, &d3_ptr);                                \
@@ -51,9 +52,12 @@
   return plot_file;
 #define ERROR_AND_RETURN_F(format_str, ...)                                    \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
-    ERROR_AND_RETURN(format_buffer);                                           \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);                              \
+    free(plot_file.error_string);                                              \
+    plot_file.error_string = format_buffer;                                    \
+    END_PROFILE_FUNC();                                                        \
+    return plot_file;                                                          \
   }
 #define ERROR_AND_RETURN_PTR(msg)                                              \
   if (plot_file->error_string)                                                 \
@@ -63,9 +67,10 @@
   return;
 #define ERROR_AND_RETURN_F_PTR(format_str, ...)                                \
   {                                                                            \
-    char format_buffer[1024];                                                  \
-    sprintf(format_buffer, format_str, __VA_ARGS__);                           \
-    ERROR_AND_RETURN_PTR(format_buffer);                                       \
+    char *format_buffer = string_format(format_str, __VA_ARGS__);              \
+    free(plot_file->error_string);                                             \
+    plot_file->error_string = format_buffer;                                   \
+    return;                                                                    \
   }
 #define D3PLOT_CLEAR_ERROR_STRING()                                            \
   free(plot_file->error_string);                                               \
diff --git a/src/key.c b/src/key.c
index 5ba4639..9458af4 100644
--- a/src/key.c
+++ b/src/key.c
@@ -43,15 +43,16 @@ void _message_stack_push(string_builder_t *stack, const char *msg) {
 }
 
 void _message_stack_push_f(string_builder_t *stack, const char *f, ...) {
-  va_list args;
-
-  char buffer[1024];
+  va_list args, len_args;
 
   va_start(args, f);
-  vsprintf(buffer, f, args);
+  va_start(len_args, f);
+  char *buffer = string_format_args(f, args, len_args);
+  va_end(len_args);
   va_end(args);
 
   _message_stack_push(stack, buffer);
+  free(buffer);
 }
 
 #define ERROR_MSG(msg) _message_stack_push(&error_stack, msg)
diff --git a/src/string_builder.c b/src/string_builder.c
index d43c2aa..01406a3 100644
--- a/src/string_builder.c
+++ b/src/string_builder.c
@@ -25,6 +25,8 @@
 
 #include "string_builder.h"
 #include "profiling.h"
+#include <stdint.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -128,3 +130,65 @@ char *string_clone_len(const char *str, size_t len) {
   END_PROFILE_FUNC();
   return rv;
 }
+
+char *string_format(const char *format, ...) {
+  va_list args, len_args;
+
+  va_start(args, format);
+  va_start(len_args, format);
+  char *rv = string_format_args(format, args, len_args);
+  va_end(len_args);
+  va_end(args);
+
+  return rv;
+}
+
+char *string_format_args(const char *format, va_list args, va_list len_args) {
+  /* Determine the maximum length of the result*/
+  size_t cap = 1;
+  const char *c = format;
+  while (*c != '\0') {
+    if (*c != '%') {
+      cap++;
+      c++;
+      continue;
+    }
+
+    c++;
+    /* Count the length modifiers to know the type of the argument*/
+    int num_longs = 0, is_size = 0;
+    while (*c == 'l' || *c == 'z') {
+      num_longs += *c == 'l';
+      is_size |= *c == 'z';
+      c++;
+    }
+
+    if (*c == 's') {
+      cap += strlen(va_arg(len_args, const char *));
+    } else if (*c == '%') {
+      cap++;
+    } else if (*c == 'f') {
+      va_arg(len_args, double);
+      /* Enough for the digits of DBL_MAX and 6 decimal places*/
+      cap += 336;
+    } else {
+      if (is_size) {
+        va_arg(len_args, size_t);
+      } else if (num_longs == 0) {
+        va_arg(len_args, int);
+      } else if (num_longs == 1) {
+        va_arg(len_args, long);
+      } else {
+        va_arg(len_args, uint64_t);
+      }
+      /* Enough for the decimal digits of every integer type*/
+      cap += 24;
+    }
+
+    c++;
+  }
+
+  char *rv = malloc(cap);
+  vsprintf(rv, format, args);
+  return rv;
+}
diff --git a/src/string_builder.h b/src/string_builder.h
index e0a4e6b..57dfbb8 100644
--- a/src/string_builder.h
+++ b/src/string_builder.h
@@ -26,6 +26,7 @@
 #ifndef STRING_BUILDER_H
 #define STRING_BUILDER_H
 
+#include <stdarg.h>
 #include <stddef.h>
 
 /* Used to construct string out of multiple other strings and characters*/
@@ -62,6 +63,13 @@ char *string_clone(const char *str);
  * free.*/
 char *string_clone_len(const char *str, size_t len);
 
+/* Same as sprintf, but allocates a string of the required length. Only supports
+ * %s and conversions of integers. Needs to be deallocated by free.*/
+char *string_format(const char *format, ...);
+/* Same as string_format. Both argument lists need to be started at the arguments
+ * of format.*/
+char *string_format_args(const char *format, va_list args, va_list len_args);
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 93b1890f3b0bfa23ab04b0a5af92decbf27d1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 04/92] fix: wrong data is read if more than 256 binout files
 are opened

---
 src/binout.c           | 2 +-
 src/binout_directory.c | 2 +-
 src/binout_directory.h | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index 8a873ff..6264226 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -267,7 +267,7 @@ binout_file binout_open(const char *file_name) {
 
         binout_folder_insert_file(current_folder, variable_name,
                                   (uint8_t)type_id, data_length,
-                                  (uint8_t)cur_file_index, file_pos);
+                                  cur_file_index, file_pos);
       } else {
         /* Just skip the record and ignore its data*/
         if (multi_file_seek(file, &file_index, record_data_length, SEEK_CUR) !=
diff --git a/src/binout_directory.c b/src/binout_directory.c
index f863b7e..73d8e36 100644
--- a/src/binout_directory.c
+++ b/src/binout_directory.c
@@ -143,7 +143,7 @@ binout_entry_t *binout_folder_insert_folder(binout_entry_t *dir,
 
 void binout_folder_insert_file(binout_entry_t *dir, char *name,
                                uint8_t var_type, size_t size,
-                               uint8_t file_index, long file_pos) {
+                               size_t file_index, long file_pos) {
   BEGIN_PROFILE_FUNC();
 
   /* If the file already exists, overwrite it.
diff --git a/src/binout_directory.h b/src/binout_directory.h
index 6124c8a..a884e01 100644
--- a/src/binout_directory.h
+++ b/src/binout_directory.h
@@ -45,8 +45,8 @@ struct binout_entry_t {
   binout_entry_t *children; /* An array containing the sub entries if this entry
                                is a folder */
   uint8_t var_type;         /* Type of the variable */
-  uint8_t file_index; /* Index into the file_handles array of binout_file */
-  long file_pos;      /* The file position used in fseek */
+  size_t file_index; /* Index into the file_handles array of binout_file */
+  long file_pos;     /* The file position used in fseek */
 };
 
 /* A directory structure of a binout file(s).
@@ -83,7 +83,7 @@ binout_entry_t *binout_folder_insert_folder(binout_entry_t *dir,
  */
 void binout_folder_insert_file(binout_entry_t *dir, char *name,
                                uint8_t var_type, size_t size,
-                               uint8_t file_index, long file_pos);
+                               size_t file_index, long file_pos);
 
 /* Returns the file at the given path if it does exist and NULL otherwise.
  * path needs to be absolute and start at the root folder (start == 0) and
-- 
2.43.0


From 581d506f8100324a55a3f356529c25ebd5caf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/92] fix: binout entries with the name of both a folder and
 a variable corrupt memory

---
 src/binout.c           |  6 ++++--
 src/binout_directory.c | 12 +++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index 6264226..6d0c864 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -549,7 +549,8 @@ char *binout_simple_path_to_real(const binout_file *bin_file,
         i--;
       }
 
-      if (metadata && metadata->num_children != 0) {
+      if (metadata && metadata->type == BINOUT_FOLDER &&
+          metadata->num_children != 0) {
         search_index = binout_directory_binary_search_entry(
             metadata->children, 0, metadata->num_children - 1, &simple_path);
         if (search_index != (size_t)~0) {
@@ -598,7 +599,8 @@ char *binout_simple_path_to_real(const binout_file *bin_file,
         i++;
       }
 
-      if (d_folder && d_folder->num_children != 0) {
+      if (d_folder && d_folder->type == BINOUT_FOLDER &&
+          d_folder->num_children != 0) {
         search_index = binout_directory_binary_search_entry(
             d_folder->children, 0, d_folder->num_children - 1, &simple_path);
         if (search_index != (size_t)~0) {
diff --git a/src/binout_directory.c b/src/binout_directory.c
index 73d8e36..c815363 100644
--- a/src/binout_directory.c
+++ b/src/binout_directory.c
@@ -158,6 +158,14 @@ void binout_folder_insert_file(binout_entry_t *dir, char *name,
         dir->children, 0, dir->num_children - 1, name, &found);
     if (found) {
       file = &dir->children[index];
+
+      /* There already is a folder with the same name*/
+      if (file->type != BINOUT_FILE) {
+        free(name);
+        END_PROFILE_FUNC();
+        return;
+      }
+
       free(file->name);
     }
   }
@@ -176,13 +184,11 @@ void binout_folder_insert_file(binout_entry_t *dir, char *name,
     }
 
     file = &dir->children[index];
-  } else if (file->type != BINOUT_FILE) {
-    END_PROFILE_FUNC();
-    return;
   }
 
   file->type = BINOUT_FILE;
   file->name = name;
+  file->children = NULL;
   file->var_type = var_type;
   file->size = size;
   file->file_index = file_index;
-- 
2.43.0


From ec73cade27c95c635cbf340f6789633072cfbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 06/92] fix: damaged CD and DATA records of a binout corrupt
 memory

---
 src/binout.c | 76 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index 6d0c864..b386d69 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -49,6 +49,11 @@
     break;                                                                     \
   }
 
+#define RECORD_FAILED(message)                                                 \
+  cur_file_failed = 1;                                                         \
+  _binout_add_file_error(&bin_file, file_names[cur_file_index], message);      \
+  break
+
 #define BIN_FILE_READ_FREE(dst, size, count, obj, message)                     \
   read_count = multi_file_read(file, &file_index, dst, size, count);           \
   if (read_count != count) {                                                   \
@@ -171,14 +176,26 @@ binout_file binout_open(const char *file_name) {
       BIN_FILE_READ(record_command, header.record_command_field_size, 1,
                     "Failed to read command");
 
-      const uint64_t record_data_length = record_length -
-                                          header.record_length_field_size -
-                                          header.record_command_field_size;
+      /* The record can not be smaller than its own fields or reach behind the
+       * end of the file*/
+      const uint64_t record_fields_length =
+          (uint64_t)header.record_length_field_size +
+          (uint64_t)header.record_command_field_size;
+      if (record_length < record_fields_length ||
+          record_length - record_fields_length >
+              (uint64_t)(file_size -
+                         multi_file_tell(file, &file_index))) {
+        RECORD_FAILED("The length of a record is invalid");
+      }
+
+      const uint64_t record_data_length = record_length - record_fields_length;
 
       /* Execute code for all the different commands
        * Currently only CD and DATA. All other commands are ignored*/
       if (record_command == BINOUT_COMMAND_CD) {
-        assert(record_data_length < 1024);
+        if (record_data_length >= sizeof(path_buffer)) {
+          RECORD_FAILED("The PATH of a CD record is too long");
+        }
 
         path_buffer[record_data_length] = '\0';
         BIN_FILE_READ(path_buffer, 1, record_data_length,
@@ -186,33 +203,30 @@ binout_file binout_open(const char *file_name) {
 
         if PATH_IS_ABS (path_buffer) {
           memcpy(current_path_string, path_buffer, record_data_length + 1);
-          current_path = path_view_new(current_path_string);
-          /* Only insert the current folder if the current path is not the
-           * root folder*/
-          if (path_view_advance(&current_path)) {
-            current_folder = binout_directory_insert_folder(&bin_file.directory,
-                                                            &current_path);
-          }
-        } else {
+        } else if (path_buffer[0] != '\0') {
           path_view_t path = path_view_new(path_buffer);
 
           while (1) {
             if (path_view_strcmp(&path, "..") == 0) {
               size_t index = path_move_up(current_path_string);
-              index += index == 0;
+              /* Stay inside of the root folder*/
+              if (index == 0 || index == (size_t)~0) {
+                index = 1;
+              }
 
               current_path_string[index] = '\0';
             } else {
               /* Join current_path_string with path*/
               const int path_len = PATH_VIEW_LEN((&path));
               int len = strlen(current_path_string);
-              assert((len + path_len + 1) < 1024);
+              if (len + path_len + 1 >= (int)sizeof(current_path_string)) {
+                cur_file_failed = 1;
+                break;
+              }
 
               if (current_path_string[len - 1] != PATH_SEP) {
                 current_path_string[len] = PATH_SEP;
                 len++;
-
-                assert(len < 1024);
               }
 
               PATH_VIEW_CPY(&current_path_string[len], (&path));
@@ -224,17 +238,30 @@ binout_file binout_open(const char *file_name) {
             }
           }
 
-          current_path = path_view_new(current_path_string);
-          path_view_advance(&current_path);
+          if (cur_file_failed) {
+            RECORD_FAILED("The PATH of a CD record is too long");
+          }
+        }
 
+        current_path = path_view_new(current_path_string);
+        /* Only insert the current folder if the current path is not the
+         * root folder*/
+        if (path_view_advance(&current_path)) {
           current_folder = binout_directory_insert_folder(&bin_file.directory,
                                                           &current_path);
+          if (!current_folder) {
+            RECORD_FAILED("A folder of a CD record is already a variable");
+          }
+        } else {
+          current_folder = NULL;
         }
       } else if (record_command == BINOUT_COMMAND_DATA) {
         /* If current_folder is NULL, this means that there are files inside
          * '/', which we do not support. And LS Dyna does also not do this.
          */
-        assert(current_folder != NULL);
+        if (!current_folder) {
+          RECORD_FAILED("Variables inside of '/' are not supported");
+        }
 
         uint64_t type_id = 0;
         uint8_t variable_name_length;
@@ -244,6 +271,14 @@ binout_file binout_open(const char *file_name) {
         BIN_FILE_READ(variable_name_length, BINOUT_DATA_NAME_LENGTH, 1,
                       "Failed to read Name length of DATA record");
 
+        /* The type id and the name need to fit into the record*/
+        const uint64_t variable_fields_length =
+            (uint64_t)header.record_typeid_field_size +
+            BINOUT_DATA_NAME_LENGTH + (uint64_t)variable_name_length;
+        if (record_data_length < variable_fields_length) {
+          RECORD_FAILED("The length of a DATA record is invalid");
+        }
+
         char *variable_name = malloc(variable_name_length + 1);
         variable_name[variable_name_length] = '\0';
 
@@ -252,8 +287,7 @@ binout_file binout_open(const char *file_name) {
 
         /* How large the data segment of the data record is*/
         const uint64_t data_length =
-            record_data_length - header.record_typeid_field_size -
-            BINOUT_DATA_NAME_LENGTH - variable_name_length;
+            record_data_length - variable_fields_length;
         const long file_pos = multi_file_tell(file, &file_index);
         /* Skip the data since we will read it at a later point, if it is
          * requested by the programmer*/
-- 
2.43.0


From 1cc6a0d0ddaab313422452053bd56c979fdeecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 07/92] fix: a binout file that fails to open breaks reading
 from the other files

---
 src/binout.c     | 34 +++++++++++-----------------------
 src/multi_file.c | 27 ++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index b386d69..ea8b201 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -36,8 +36,9 @@
 #include <string.h>
 
 #define FILE_FAILED(message)                                                   \
-  multi_file_close(file);                                                      \
   _binout_add_file_error(&bin_file, file_names[cur_file_index], message);      \
+  multi_file_return(file, &file_index);                                        \
+  multi_file_close(file);                                                      \
   cur_file_index++;                                                            \
   continue
 
@@ -107,7 +108,11 @@ binout_file binout_open(const char *file_name) {
     /* Just ignore the file if it failed to open*/
 #ifndef NO_THREAD_SAFETY
     if (file_index.index == ULONG_MAX) {
-      FILE_FAILED(strerror(errno));
+      _binout_add_file_error(&bin_file, file_names[cur_file_index],
+                             strerror(errno));
+      multi_file_close(file);
+      cur_file_index++;
+      continue;
     }
 #else
     if (!(*file)) {
@@ -325,27 +330,8 @@ binout_file binout_open(const char *file_name) {
 
   binout_free_glob(file_names, bin_file.num_files);
 
-  /* Clean up failed files*/
-  cur_file_index = 0;
-  while (cur_file_index < bin_file.num_files) {
-#ifndef NO_THREAD_SAFETY
-    if (bin_file.files[cur_file_index].file_handles == NULL) {
-#else
-    if (!bin_file.files[cur_file_index]) {
-#endif
-      /* Swap with the last element*/
-      bin_file.files[cur_file_index] = bin_file.files[bin_file.num_files - 1];
-
-      /* Reallocate memory*/
-      bin_file.num_files--;
-      bin_file.files =
-          realloc(bin_file.files, bin_file.num_files * sizeof(multi_file_t));
-
-      cur_file_index--;
-    }
-
-    cur_file_index++;
-  }
+  /* Failed files stay (closed) inside of the array, because the entries of the
+   * directory refer to the files by their index*/
 
   _binout_open_error(&bin_file);
   END_PROFILE_FUNC();
@@ -364,6 +350,8 @@ void binout_close(binout_file *bin_file) {
     cur_file_index++;
   }
 
+  free(bin_file->files);
+
   binout_directory_free(&bin_file->directory);
 
   free(bin_file->error_string);
diff --git a/src/multi_file.c b/src/multi_file.c
index 64c819d..a7b319e 100644
--- a/src/multi_file.c
+++ b/src/multi_file.c
@@ -29,6 +29,7 @@
 #include "string_builder.h"
 
 #ifndef NO_THREAD_SAFETY
+#include <errno.h>
 #include <limits.h>
 #include <stdlib.h>
 #include <string.h>
@@ -57,6 +58,12 @@ multi_file_t multi_file_open(const char *path) {
 void multi_file_close(multi_file_t *f) {
   BEGIN_PROFILE_FUNC();
 
+  /* Already closed*/
+  if (!f->file_path) {
+    END_PROFILE_FUNC();
+    return;
+  }
+
   free(f->file_path);
 
   size_t i = 0;
@@ -79,6 +86,18 @@ void multi_file_close(multi_file_t *f) {
 
 multi_file_index_t multi_file_access(multi_file_t *f) {
   BEGIN_PROFILE_FUNC();
+
+  /* The file has been closed*/
+  if (!f->file_path) {
+    multi_file_index_t index;
+    index.file_handle = NULL;
+    index.index = ULONG_MAX;
+    errno = EBADF;
+
+    END_PROFILE_FUNC();
+    return index;
+  }
+
   sync_lock(&f->file_handles_mutex);
 
   /* Search for a free sync file*/
@@ -220,6 +239,12 @@ int multi_file_seek(multi_file_t *f, multi_file_index_t *index, long offset,
                     int whence) {
   BEGIN_PROFILE_FUNC();
 
+  /* The file has been closed*/
+  if (!*f) {
+    END_PROFILE_FUNC();
+    return -1;
+  }
+
   switch (whence) {
   case SEEK_SET:
     *index = offset;
@@ -249,7 +274,7 @@ size_t multi_file_read(multi_file_t *f, multi_file_index_t *index, void *ptr,
                        size_t size, size_t nmemb) {
   BEGIN_PROFILE_FUNC();
 
-  if (fseek(*((FILE **)f), *index, SEEK_SET) == -1) {
+  if (!*f || fseek(*((FILE **)f), *index, SEEK_SET) == -1) {
     END_PROFILE_FUNC();
     return 0;
   }
-- 
2.43.0


From 1d4cd89585f204ff95a25a24cda3dc2e212d23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 08/92] fix: mutexes of a binout file get moved by realloc
 while they are locked

---
 src/d3_buffer.c  | 10 +++------
 src/multi_file.c | 55 +++++++++++++++++++++---------------------------
 src/multi_file.h |  4 +++-
 3 files changed, 30 insertions(+), 39 deletions(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index f37f33e..d1121a9 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -737,13 +737,9 @@ void _d3_buffer_kill_idle_files(d3_buffer *buffer) {
 
     size_t j = 0;
     while (j < file->num_file_handles) {
-      if (sync_trylock(&file->file_handles[j].mutex) == 0) {
-        if (file->file_handles[j].file_handle) {
-          fclose(file->file_handles[j].file_handle);
-          file->file_handles[j].file_handle = NULL;
-        }
-
-        sync_unlock(&file->file_handles[j].mutex);
+      if (!file->file_handles[j].in_use && file->file_handles[j].file_handle) {
+        fclose(file->file_handles[j].file_handle);
+        file->file_handles[j].file_handle = NULL;
       }
 
       j++;
diff --git a/src/multi_file.c b/src/multi_file.c
index a7b319e..e5a165b 100644
--- a/src/multi_file.c
+++ b/src/multi_file.c
@@ -103,46 +103,32 @@ multi_file_index_t multi_file_access(multi_file_t *f) {
   /* Search for a free sync file*/
   size_t i = 0;
   while (i < f->num_file_handles) {
-    if (sync_trylock(&f->file_handles[i].mutex) == 0) {
+    if (!f->file_handles[i].in_use) {
+      /* If the file is not open (anymore)*/
       if (!f->file_handles[i].file_handle) {
-        /* If the file is not yet open*/
         f->file_handles[i].file_handle = fopen(f->file_path, "rb");
         if (!f->file_handles[i].file_handle) {
-          sync_unlock(&f->file_handles[i].mutex);
-        } else {
-          multi_file_index_t index;
-          index.file_handle = f->file_handles[i].file_handle;
-          index.index = i;
-
-          sync_unlock(&f->file_handles_mutex);
-          END_PROFILE_FUNC();
-          return index;
+          i++;
+          continue;
         }
-      } else {
-        /* If the file is already open*/
-        multi_file_index_t index;
-        index.file_handle = f->file_handles[i].file_handle;
-        index.index = i;
-
-        sync_unlock(&f->file_handles_mutex);
-        END_PROFILE_FUNC();
-        return index;
       }
+
+      multi_file_index_t index;
+      index.file_handle = f->file_handles[i].file_handle;
+      index.index = i;
+      f->file_handles[i].in_use = 1;
+
+      sync_unlock(&f->file_handles_mutex);
+      END_PROFILE_FUNC();
+      return index;
     }
 
     i++;
   }
 
   /* Create a new sync file, because no free file has been found*/
-  f->num_file_handles++;
-  f->file_handles =
-      realloc(f->file_handles, f->num_file_handles * sizeof(sync_file_t));
-
-  sync_file_t *new_file = &f->file_handles[f->num_file_handles - 1];
-
-  new_file->mutex = sync_create();
-  new_file->file_handle = fopen(f->file_path, "rb");
-  if (!new_file->file_handle) {
+  FILE *file_handle = fopen(f->file_path, "rb");
+  if (!file_handle) {
     multi_file_index_t index;
     index.file_handle = NULL;
     index.index = ULONG_MAX;
@@ -152,7 +138,14 @@ multi_file_index_t multi_file_access(multi_file_t *f) {
     return index;
   }
 
-  sync_lock(&new_file->mutex);
+  f->num_file_handles++;
+  f->file_handles =
+      realloc(f->file_handles, f->num_file_handles * sizeof(sync_file_t));
+
+  sync_file_t *new_file = &f->file_handles[f->num_file_handles - 1];
+
+  new_file->file_handle = file_handle;
+  new_file->in_use = 1;
 
   multi_file_index_t index;
   index.file_handle = new_file->file_handle;
@@ -167,7 +160,7 @@ void multi_file_return(multi_file_t *f, multi_file_index_t *index) {
   BEGIN_PROFILE_FUNC();
   sync_lock(&f->file_handles_mutex);
 
-  sync_unlock(&f->file_handles[index->index].mutex);
+  f->file_handles[index->index].in_use = 0;
 
   sync_unlock(&f->file_handles_mutex);
   END_PROFILE_FUNC();
diff --git a/src/multi_file.h b/src/multi_file.h
index 5dd78fd..5e4618e 100644
--- a/src/multi_file.h
+++ b/src/multi_file.h
@@ -37,7 +37,9 @@ typedef struct {
 
 typedef struct {
   FILE *file_handle;
-  sync_t mutex;
+  /* Guarded by file_handles_mutex, because a mutex must not be moved by
+   * realloc*/
+  int in_use;
 } sync_file_t;
 
 /* A file that can be opened (read-only) on multiple threads and read in a
-- 
2.43.0


From d023c71b40e56dd1ae8482e8aba5ed44092dd98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 09/92] fix: data race on the error string of a binout when
 reading from multiple threads

---
 src/binout_defines.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binout_defines.h b/src/binout_defines.h
index 7b65c75..d2a8c56 100644
--- a/src/binout_defines.h
+++ b/src/binout_defines.h
@@ -68,8 +68,12 @@
   NEW_ERROR_STRING(format_buffer);                                             \
   free(format_buffer)
 
+/* Does not write if there is no error, so that multiple threads can read from
+ * the same file*/
 #define BINOUT_CLEAR_ERROR_STRING()                                            \
-  free(bin_file->error_string);                                                \
-  bin_file->error_string = NULL;
+  if (bin_file->error_string) {                                                \
+    free(bin_file->error_string);                                              \
+    bin_file->error_string = NULL;                                             \
+  }
 
 #endif
-- 
2.43.0


From 8213dfd2886f7938dfdf248e48f8c342c340066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 10/92] fix: binout_get_num_timesteps counts folders that are
 not time steps

---
 src/binout.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index ea8b201..6114ed9 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -461,29 +461,18 @@ size_t binout_get_num_timesteps(const binout_file *bin_file, const char *path) {
 
   const binout_entry_t *folders = folder_or_file;
 
-  /* Loop until the first dxxxxxx string has been found. It's probably the
-   * first one.*/
-  size_t start_index = 0;
-  while (start_index < num_children &&
-         !_binout_is_d_string(folders[start_index].name)) {
-    start_index++;
-  }
-
-  /* If no dxxxxxx folders are found*/
-  if (start_index == num_children) {
-    END_PROFILE_FUNC();
-    return 0;
-  }
+  /* Count the dxxxxxx folders. They do not need to be next to each other*/
+  size_t num_timesteps = 0;
+  size_t i = 0;
+  while (i < num_children) {
+    num_timesteps += folders[i].type == BINOUT_FOLDER &&
+                     _binout_is_d_string(folders[i].name);
 
-  /* Loop until the last dxxxxxx string has been found. It's probably the
-   * penultimate one, after "metadata"*/
-  size_t end_index = num_children - 1;
-  while (!_binout_is_d_string(folders[end_index].name)) {
-    end_index--;
+    i++;
   }
 
   END_PROFILE_FUNC();
-  return end_index - start_index + 1;
+  return num_timesteps;
 }
 
 char *binout_simple_path_to_real(const binout_file *bin_file,
-- 
2.43.0


From 65af95e9c9e02401bf5368b1b89c51a5377ff280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 11/92] fix: timed reads of a binout return values of wrong
 variables if the time steps differ

---
 src/binout_read.c | 203 ++++++++++++----------------------------------
 1 file changed, 50 insertions(+), 153 deletions(-)

diff --git a/src/binout_read.c b/src/binout_read.c
index 4909eeb..6a0abb5 100644
--- a/src/binout_read.c
+++ b/src/binout_read.c
@@ -92,23 +92,9 @@ void *_binout_read(binout_file *bin_file, const char *path_to_variable,
   return data;
 }
 
-struct timed_path_t;
-typedef struct timed_path_t timed_path_t;
-struct timed_path_t {
-  size_t index;
-  timed_path_t *child;
-};
-
-void timed_path_free(timed_path_t *timed_path) {
-  if (timed_path->child) {
-    timed_path_free(timed_path->child);
-    free(timed_path->child);
-  }
-}
-
 binout_entry_t *_binout_search_timed(binout_file *bin_file,
                                      const char *variable,
-                                     timed_path_t *timed_path) {
+                                     path_view_t *timed_path) {
   BINOUT_CLEAR_ERROR_STRING();
 
   if (bin_file->directory.num_children == 0) {
@@ -158,39 +144,11 @@ binout_entry_t *_binout_search_timed(binout_file *bin_file,
         i++;
       }
 
-      if (d_folder && d_folder->num_children != 0) {
-        /* Recursevily search for folders inside the d folder */
-        binout_entry_t *current_folder = d_folder;
-        timed_path_t *current_timed_path = timed_path;
-
-        while (1) {
-          if (current_folder->num_children == 0) {
-            break;
-          }
-
-          search_index = binout_directory_binary_search_entry(
-              current_folder->children, 0, current_folder->num_children - 1,
-              &path);
-          if (search_index != (size_t)~0) {
-            current_timed_path->index = search_index;
-            if (current_folder->children[search_index].type == BINOUT_FILE) {
-              if (path_view_advance(&path)) {
-                break;
-              }
-
-              return folder;
-            } else {
-              current_folder = &current_folder->children[search_index];
-              current_timed_path->child = malloc(sizeof(timed_path_t));
-              current_timed_path = current_timed_path->child;
-              current_timed_path->index = ~0;
-              current_timed_path->child = NULL;
-            }
-          }
-
-          if (!path_view_advance(&path)) {
-            break;
-          }
+      if (d_folder && d_folder->type == BINOUT_FOLDER) {
+        /* The rest of the path needs to exist inside of every d folder*/
+        *timed_path = path;
+        if (binout_folder_get_file(d_folder, &path)) {
+          return folder;
         }
       }
 
@@ -216,127 +174,69 @@ binout_entry_t *_binout_search_timed(binout_file *bin_file,
   return NULL;
 }
 
-binout_entry_t *_binout_open_timed_path(binout_entry_t *d_folder,
-                                        timed_path_t *timed_path,
-                                        const char *variable_name) {
-  BEGIN_PROFILE_FUNC();
-
-  binout_entry_t *current_folder = d_folder;
-  timed_path_t *current_timed_path = timed_path;
-  while (current_timed_path) {
-    if (current_folder->num_children < current_timed_path->index + 1) {
-      END_PROFILE_FUNC();
-      return NULL;
-    }
-
-    binout_entry_t *child =
-        &current_folder->children[current_timed_path->index];
-    if (child->type == BINOUT_FILE) {
-      if (current_timed_path->child != NULL) {
-        END_PROFILE_FUNC();
-        return NULL;
-      }
-
-      /* A fail safe to check if the file name stays the same */
-      if (variable_name && strcmp(child->name, variable_name) != 0) {
-        /* Search for the variable (Something changed the structure -_(°_°)_-)*/
-
-        path_view_t path = path_view_new(variable_name);
-        const size_t search_index = binout_directory_binary_search_entry(
-            current_folder->children, 0, current_folder->num_children - 1,
-            &path);
-        if (search_index == (size_t)~0) {
-          END_PROFILE_FUNC();
-          return NULL;
-        }
-
-        child = &current_folder->children[search_index];
-      }
-
-      END_PROFILE_FUNC();
-      return child;
-    } else {
-      if (current_timed_path->child == NULL) {
-        END_PROFILE_FUNC();
-        return NULL;
-      }
-
-      current_folder = child;
-      current_timed_path = current_timed_path->child;
-    }
-  }
-
-  END_PROFILE_FUNC();
-  return NULL;
-}
-
 void *_binout_read_timed(binout_file *bin_file, const char *variable,
                          size_t *num_values, size_t *num_timesteps,
                          const uint8_t binout_type) {
-  timed_path_t timed_path;
-  timed_path.index = ~0;
-  timed_path.child = NULL;
+  /* The path inside of the d folders*/
+  path_view_t timed_path;
 
   binout_entry_t *folder =
       _binout_search_timed(bin_file, variable, &timed_path);
   if (!folder) {
-    timed_path_free(&timed_path);
     return NULL;
   }
 
-  binout_entry_t *ds = folder->children; /* The array of the d folders */
-
-  /* Determine where the d folders inside the children of folder start and end
-   * (usually it starts at 0 and ends at num_children - 2, because the last one
-   * is metadata) */
-  size_t start_index = 0;
-  while (start_index < folder->num_children &&
-         !_binout_is_d_string(ds[start_index].name))
-    start_index++;
-
-  size_t end_index = folder->num_children - 1;
-  while (!_binout_is_d_string(ds[end_index].name))
-    end_index--;
-
-  binout_entry_t *df =
-      _binout_open_timed_path(&ds[start_index], &timed_path, NULL);
-  assert(
-      df &&
-      "Failed to find variable inside first time step. Internal library error");
-
-  *num_timesteps = end_index - start_index + 1;
-  *num_values =
-      df->size / (size_t)_binout_get_type_size((const uint64_t)binout_type);
-
-  if (*num_values == 0) {
-    timed_path_free(&timed_path);
-    NEW_ERROR_STRING_F("The files of \"%s\" are empty", variable);
-    return NULL;
-  }
+  const size_t type_size = (size_t)_binout_get_type_size((uint64_t)binout_type);
+  void *data = NULL;
+  size_t size = 0; /* The size of the variable inside of the first time step*/
+  *num_timesteps = 0;
 
-  void *data = malloc(df->size * *num_timesteps);
+  size_t i = 0;
+  while (i < folder->num_children) {
+    const binout_entry_t *d = &folder->children[i];
+    i++;
+
+    /* Skip everything that is not a time step (like metadata)*/
+    if (d->type != BINOUT_FOLDER || !_binout_is_d_string(d->name)) {
+      continue;
+    }
 
-  size_t i = start_index;
-  while (i <= end_index) {
-    binout_entry_t *d = &ds[i]; /* The d folder of the current time step */
-    binout_entry_t *d_file = _binout_open_timed_path(
-        d, &timed_path,
-        df->name); /* The file belonging to the current time step */
-    if (!d_file) {
+    /* The file belonging to the current time step */
+    path_view_t path = timed_path;
+    const binout_entry_t *d_file = binout_folder_get_file(d, &path);
+    if (!d_file || (data && d_file->size != size)) {
       free(data);
-      timed_path_free(&timed_path);
       NEW_ERROR_STRING_F("The structure of variable \"%s\" is invalid. Time "
                          "Step %zu differs from the first time step",
-                         variable, i - start_index);
+                         variable, *num_timesteps);
       return NULL;
     }
 
+    if (d_file->var_type != binout_type) {
+      free(data);
+      NEW_ERROR_STRING_F("\"%s\" is of type %s instead of %s", variable,
+                         _binout_get_type_name(d_file->var_type),
+                         _binout_get_type_name((uint64_t)binout_type));
+      return NULL;
+    }
+
+    if (!data) {
+      size = d_file->size;
+      *num_values = size / type_size;
+
+      if (*num_values == 0) {
+        NEW_ERROR_STRING_F("The files of \"%s\" are empty", variable);
+        return NULL;
+      }
+    }
+
+    data = realloc(data, size * (*num_timesteps + 1));
+
     multi_file_t *mf = &bin_file->files[d_file->file_index];
     multi_file_index_t mf_idx = multi_file_access(mf);
 #ifndef NO_THREAD_SAFETY
     if (mf_idx.index == ULONG_MAX) {
       free(data);
-      timed_path_free(&timed_path);
       NEW_ERROR_STRING_F("Failed to access the file of \"%s\": %s", variable,
                          strerror(errno));
       return NULL;
@@ -345,29 +245,26 @@ void *_binout_read_timed(binout_file *bin_file, const char *variable,
 
     if (multi_file_seek(mf, &mf_idx, d_file->file_pos, SEEK_SET) != 0) {
       free(data);
-      timed_path_free(&timed_path);
       multi_file_return(mf, &mf_idx);
       NEW_ERROR_STRING_F("Failed to seek to the data of \"%s\"", variable);
       return NULL;
     }
 
     if (multi_file_read(mf, &mf_idx,
-                        &((uint8_t *)data)[(i - start_index) * d_file->size],
-                        d_file->size, 1) != 1) {
+                        &((uint8_t *)data)[*num_timesteps * size], size, 1) !=
+        1) {
       free(data);
-      timed_path_free(&timed_path);
       multi_file_return(mf, &mf_idx);
       NEW_ERROR_STRING_F("Failed to read time step %zu of \"%s\"",
-                         i - start_index, variable);
+                         *num_timesteps, variable);
       return NULL;
     }
 
     multi_file_return(mf, &mf_idx);
 
-    i++;
+    (*num_timesteps)++;
   }
 
-  timed_path_free(&timed_path);
   return data;
 }
 
-- 
2.43.0


From 412c44c40e3333e3f42a55d862fc8c03c362db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 12/92] fix: reading behind the end of the d3plot files uses a
 closed file pointer

---
 src/d3_buffer.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index d1121a9..a4ae0fa 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -288,6 +288,11 @@ void d3_buffer_read_words(d3_buffer *buffer, d3_pointer *ptr, void *words,
                           size_t num_words) {
   BEGIN_PROFILE_FUNC();
 
+  if (ptr->cur_file == ULONG_MAX) {
+    /* A previous read or skip has left the files*/
+    ERROR_AND_RETURN_BUFFER_PTR("Out of Bounds");
+  }
+
   multi_file_t *file = &buffer->files[ptr->cur_file].file;
   size_t file_size = buffer->files[ptr->cur_file].file_size;
 
@@ -417,9 +422,7 @@ void d3_buffer_skip_words(d3_buffer *buffer, d3_pointer *ptr,
 
   if (ULONG_MAX - num_words <= ptr->cur_word) {
     ERROR_AND_NO_RETURN_BUFFER_PTR("Out of Bounds");
-    if (ptr->cur_file != ULONG_MAX) {
-      d3_pointer_close(buffer, ptr);
-    }
+    d3_pointer_close(buffer, ptr);
 
     END_PROFILE_FUNC();
     return;
@@ -442,6 +445,11 @@ void d3_buffer_skip_bytes(d3_buffer *buffer, d3_pointer *ptr,
 int d3_buffer_next_file(d3_buffer *buffer, d3_pointer *ptr) {
   BEGIN_PROFILE_FUNC();
 
+  if (ptr->cur_file == ULONG_MAX) {
+    END_PROFILE_FUNC();
+    return 0;
+  }
+
   size_t file_size = buffer->files[ptr->cur_file].file_size;
   multi_file_t *file = &buffer->files[ptr->cur_file].file;
 
@@ -712,6 +720,12 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
 void d3_pointer_close(d3_buffer *buffer, d3_pointer *ptr) {
   BEGIN_PROFILE_FUNC();
 
+  /* The pointer has already been closed*/
+  if (ptr->cur_file == ULONG_MAX) {
+    END_PROFILE_FUNC();
+    return;
+  }
+
   multi_file_t *file = &buffer->files[ptr->cur_file].file;
   multi_file_return(file, &ptr->multi_file_index);
 #ifndef NO_THREAD_SAFETY
-- 
2.43.0


From e3b5cd699ff36a2d4a041ec31cf791a07d1a3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 13/92] fix: huge d3plot word positions wrap around

---
 src/d3_buffer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index a4ae0fa..d231491 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -249,7 +249,7 @@ d3_buffer d3_buffer_open(const char *root_file_name) {
 
   if ((!makes_sense32 && !makes_sense64) || (makes_sense32 && makes_sense64)) {
     ERROR_AND_RETURN_BUFFER_F("The d3plot files are broken. 32-Bit (Single "
-                              "Precision)=%u 64-Bit (Double Precision)=%lu",
+                              "Precision)=%d 64-Bit (Double Precision)=%d",
                               makes_sense32, makes_sense64);
   }
 
@@ -293,6 +293,10 @@ void d3_buffer_read_words(d3_buffer *buffer, d3_pointer *ptr, void *words,
     ERROR_AND_RETURN_BUFFER_PTR("Out of Bounds");
   }
 
+  if (num_words > ULONG_MAX / buffer->word_size) {
+    ERROR_AND_RETURN_BUFFER_PTR("Requested too much words");
+  }
+
   multi_file_t *file = &buffer->files[ptr->cur_file].file;
   size_t file_size = buffer->files[ptr->cur_file].file_size;
 
@@ -535,6 +539,10 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
 
   /* Determine to which file the word position points*/
   size_t i = 0;
+  if (word_pos > ULONG_MAX / (size_t)buffer->word_size) {
+    /* The position does not fit into byte_pos*/
+    i = buffer->num_files;
+  }
   while (i < buffer->num_files) {
     const size_t file_size = (size_t)buffer->files[i].file_size;
     if (file_size > byte_pos) {
-- 
2.43.0


From 58dd16c18ebd00be4eac4caea387b8ee63ddbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 14/92] fix: d3plot families with more files than can be open
 at once break without thread safety

---
 src/d3_buffer.c | 178 ++++++++++++------------------------------------
 src/d3_buffer.h |   1 -
 2 files changed, 42 insertions(+), 137 deletions(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index d231491..ccecfd5 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -71,12 +71,37 @@
     buffer->error_string = format_buffer;                                      \
   }
 
+#ifdef NO_THREAD_SAFETY
+/* Make sure that a file of the family is open. If too many files are open all
+ * other files of the family get closed. Returns 0 on error and sets errno*/
+static int _d3_buffer_open_file(d3_buffer *buffer, size_t index) {
+  if (buffer->files[index].file) {
+    return 1;
+  }
+
+  memcpy(&buffer->root_file_name[buffer->root_file_name_length],
+         buffer->files[index].index_string, 4);
+  buffer->files[index].file = fopen(buffer->root_file_name, "rb");
+
+  if (!buffer->files[index].file && errno == EMFILE) {
+    size_t i = 0;
+    while (i < buffer->num_files) {
+      multi_file_close(&buffer->files[i].file);
+      i++;
+    }
+
+    buffer->files[index].file = fopen(buffer->root_file_name, "rb");
+  }
+
+  return buffer->files[index].file != NULL;
+}
+#endif
+
 d3_buffer d3_buffer_open(const char *root_file_name) {
   BEGIN_PROFILE_FUNC();
 
   d3_buffer buffer;
   buffer.num_files = 0;
-  buffer.first_open_file = 0;
   buffer.last_open_file = ~0;
   buffer.files = NULL;
   buffer.error_string = NULL;
@@ -498,23 +523,14 @@ int d3_buffer_next_file(d3_buffer *buffer, d3_pointer *ptr) {
   ptr->cur_word = cur_word;
 
 #ifdef NO_THREAD_SAFETY
-  /* Open the next file if it isn't open and close the first opened file*/
-  if (!buffer->files[ptr->cur_file].file) {
-    multi_file_close(&buffer->files[buffer->first_open_file].file);
-    buffer->first_open_file++;
-    buffer->last_open_file++;
-
-    memcpy(&buffer->root_file_name[buffer->root_file_name_length],
-           buffer->files[ptr->cur_file].index_string, 4);
-
-    buffer->files[ptr->cur_file].file = fopen(buffer->root_file_name, "rb");
-    if (!buffer->files[ptr->cur_file].file) {
-      ERROR_AND_NO_RETURN_BUFFER_F_PTR("Failed to open next file(%zu): %s: %s",
-                                       ptr->cur_file, buffer->root_file_name,
-                                       strerror(errno));
-      END_PROFILE_FUNC();
-      return 0;
-    }
+  /* Open the next file if it isn't open*/
+  if (!_d3_buffer_open_file(buffer, ptr->cur_file)) {
+    ERROR_AND_NO_RETURN_BUFFER_F_PTR("Failed to open next file(%zu): %s: %s",
+                                     ptr->cur_file, buffer->root_file_name,
+                                     strerror(errno));
+    d3_pointer_close(buffer, ptr);
+    END_PROFILE_FUNC();
+    return 0;
   }
 #endif
 
@@ -591,124 +607,14 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
 #endif
 
 #ifdef NO_THREAD_SAFETY
-  /* If the file is not yet open close enough files so that it can be opened*/
-  if (!buffer->files[ptr.cur_file].file) {
-    /* Wether all files need to be closed and opened at the current file,
-     * because moving towards the file would open too many files*/
-    int out_of_range = 0;
-    if (buffer->first_open_file < buffer->last_open_file) {
-      if (ptr.cur_file > buffer->last_open_file) {
-        if (ptr.cur_file - buffer->last_open_file >
-            buffer->last_open_file - buffer->first_open_file + 1) {
-          out_of_range = 1;
-        }
-      } else {
-        if (buffer->first_open_file - ptr.cur_file >
-            buffer->last_open_file - buffer->first_open_file + 1) {
-          out_of_range = 1;
-        }
-      }
-    }
-
-    if (out_of_range) {
-      /* Close all files*/
-      size_t file_range = 0;
-      i = buffer->first_open_file;
-      while (i <= buffer->last_open_file) {
-        multi_file_close(&buffer->files[i].file);
-
-        file_range++;
-        i++;
-      }
-
-      /* Make sure that first_open_file < last_open_file*/
-      size_t start_offset = 0;
-      if (buffer->num_files - ptr.cur_file < file_range) {
-        start_offset = ptr.cur_file - (buffer->num_files - file_range);
-      }
-
-      /* Open all files from the new position*/
-      i = ptr.cur_file - start_offset;
-      buffer->first_open_file = i;
-      while (file_range > 0) {
-        memcpy(&buffer->root_file_name[buffer->root_file_name_length],
-               buffer->files[i].index_string, 4);
-        buffer->files[i].file = fopen(buffer->root_file_name, "rb");
-        if (!buffer->files[i].file) {
-          ERROR_AND_NO_RETURN_BUFFER_F_PTR(
-              "Error when opening file(%zu): %s: %s", i, buffer->root_file_name,
-              strerror(errno));
-          d3_pointer_close(buffer, &ptr);
-          return ptr;
-        }
-
-        i++;
-        file_range--;
-      }
-      buffer->last_open_file = i - 1;
-    } else {
-      if (buffer->first_open_file < buffer->last_open_file) {
-        if (ptr.cur_file < buffer->first_open_file) {
-          const size_t files_to_close = buffer->first_open_file - ptr.cur_file;
-          /* Close backwards*/
-          i = buffer->last_open_file;
-          while (i > buffer->last_open_file - files_to_close) {
-            multi_file_close(&buffer->files[i].file);
-            i--;
-          }
-          buffer->last_open_file -= files_to_close;
-
-          /* Open backwards*/
-          i = buffer->first_open_file;
-          while (i >= ptr.cur_file) {
-            memcpy(&buffer->root_file_name[buffer->root_file_name_length],
-                   buffer->files[i].index_string, 4);
-
-            buffer->files[i].file = fopen(buffer->root_file_name, "rb");
-            if (!buffer->files[i].file) {
-              ERROR_AND_NO_RETURN_BUFFER_F_PTR(
-                  "Error when opening file(%zu): %s: %s", i,
-                  buffer->root_file_name, strerror(errno));
-              d3_pointer_close(buffer, &ptr);
-              return ptr;
-            }
-            i--;
-          }
-          buffer->first_open_file = ptr.cur_file;
-        } else {
-          const size_t files_to_close = ptr.cur_file - buffer->last_open_file;
-
-          /* Close forwards*/
-          i = buffer->first_open_file;
-          while (i < buffer->first_open_file + files_to_close) {
-            multi_file_close(&buffer->files[i].file);
-            i++;
-          }
-          buffer->first_open_file += files_to_close;
-
-          /* Open forwards*/
-          i = buffer->last_open_file;
-          while (i <= ptr.cur_file) {
-            memcpy(&buffer->root_file_name[buffer->root_file_name_length],
-                   buffer->files[i].index_string, 4);
-
-            buffer->files[i].file = fopen(buffer->root_file_name, "rb");
-            if (!buffer->files[i].file) {
-              ERROR_AND_NO_RETURN_BUFFER_F_PTR(
-                  "Error when opening file(%zu): %s: %s", i,
-                  buffer->root_file_name, strerror(errno));
-              d3_pointer_close(buffer, &ptr);
-              ptr.multi_file_index = ULONG_MAX;
-              ptr.cur_file = ULONG_MAX;
-              ptr.cur_word = ULONG_MAX;
-              return ptr;
-            }
-            i++;
-          }
-          buffer->last_open_file = ptr.cur_file;
-        }
-      }
-    }
+  /* Open the file if it isn't open*/
+  if (!_d3_buffer_open_file(buffer, ptr.cur_file)) {
+    ERROR_AND_NO_RETURN_BUFFER_F_PTR("Error when opening file(%zu): %s: %s",
+                                     ptr.cur_file, buffer->root_file_name,
+                                     strerror(errno));
+    d3_pointer_close(buffer, &ptr);
+    END_PROFILE_FUNC();
+    return ptr;
   }
 #endif
 
diff --git a/src/d3_buffer.h b/src/d3_buffer.h
index d7e817a..0a1313d 100644
--- a/src/d3_buffer.h
+++ b/src/d3_buffer.h
@@ -47,7 +47,6 @@ typedef struct {
   size_t root_file_name_length;
   d3_file *files;
   size_t num_files;
-  size_t first_open_file;
   size_t last_open_file;
 
   uint8_t word_size; /* 4 byte for single precision and 8 byte for double
-- 
2.43.0


From 1b4cf38ff1479a68ecca0684674b2eeb2c138b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 15/92] fix: every d3plot read fails after one read has failed

---
 src/d3plot_error_macros.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/d3plot_error_macros.h b/src/d3plot_error_macros.h
index 43ed61c..bce1904 100644
--- a/src/d3plot_error_macros.h
+++ b/src/d3plot_error_macros.h
@@ -72,8 +72,16 @@
     plot_file->error_string = format_buffer;                                   \
     return;                                                                    \
   }
+/* Only write if there is an error so that multiple threads can read at the same
+ * time*/
 #define D3PLOT_CLEAR_ERROR_STRING()                                            \
-  free(plot_file->error_string);                                               \
-  plot_file->error_string = NULL;
+  if (plot_file->error_string) {                                               \
+    free(plot_file->error_string);                                             \
+    plot_file->error_string = NULL;                                            \
+  }                                                                            \
+  if (plot_file->buffer.error_string) {                                        \
+    free(plot_file->buffer.error_string);                                      \
+    plot_file->buffer.error_string = NULL;                                     \
+  }
 
 #endif
-- 
2.43.0


From 5d36391ad12ccf0206edacf3cb5e34790aefd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 16/92] fix: d3plot_open keeps a file pointer in use

---
 src/d3plot.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index b8fd2bb..f12e72f 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -386,21 +386,25 @@ d3plot_file d3plot_open(const char *root_file_name) {
   }
 
   if (!_d3plot_read_geometry_data(&plot_file, &d3_ptr)) {
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return plot_file;
   }
 
   if (!_d3plot_read_user_identification_numbers(&plot_file, &d3_ptr)) {
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return plot_file;
   }
 
   if (!_d3plot_read_extra_node_connectivity(&plot_file, &d3_ptr)) {
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return plot_file;
   }
 
   if (!_d3plot_read_adapted_element_parent_list(&plot_file, &d3_ptr)) {
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return plot_file;
   }
@@ -429,6 +433,7 @@ d3plot_file d3plot_open(const char *root_file_name) {
   }
 
   if (!_d3plot_read_header(&plot_file, &d3_ptr)) {
+    d3_pointer_close(&plot_file.buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return plot_file;
   }
@@ -461,6 +466,8 @@ d3plot_file d3plot_open(const char *root_file_name) {
     }
   }
 
+  d3_pointer_close(&plot_file.buffer, &d3_ptr);
+
   END_PROFILE_FUNC();
   return plot_file;
 }
-- 
2.43.0


From 2416735a7f051f23e16835881034eab702e0d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 17/92] fix: damaged d3plot control data leads to overflows and
 endless loops

---
 src/d3_buffer.c   |  2 +-
 src/d3plot.c      | 48 +++++++++++++++++++++++++++++++++++++++++++----
 src/d3plot_data.c | 15 +++++++++++++++
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index ccecfd5..8faf033 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -419,7 +419,7 @@ void d3_buffer_read_double_word(d3_buffer *buffer, d3_pointer *ptr,
   BEGIN_PROFILE_FUNC();
 
   if (buffer->word_size == 4) {
-    float word32;
+    float word32 = 0.0f;
     d3_buffer_read_words(buffer, ptr, &word32, 1);
     *word = word32;
   } else {
diff --git a/src/d3plot.c b/src/d3plot.c
index f12e72f..e693b80 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -40,7 +40,7 @@
                        &plot_file.control_data.value, 1)
 #define READ_CONTROL_DATA_PLOT_FILE_SIGNED_WORD(value)                         \
   if (plot_file.buffer.word_size == 4) {                                       \
-    int32_t value32;                                                           \
+    int32_t value32 = 0;                                                       \
     d3_buffer_read_words(&plot_file.buffer, &d3_ptr, &value32, 1);             \
     CDA.value = value32;                                                       \
   } else {                                                                     \
@@ -57,6 +57,7 @@ d3plot_file d3plot_open(const char *root_file_name) {
   BEGIN_PROFILE_FUNC();
 
   d3plot_file plot_file;
+  memset(&plot_file.control_data, 0, sizeof(plot_file.control_data));
   plot_file.error_string = NULL;
   plot_file.data_pointers = NULL;
   plot_file.num_states = 0;
@@ -181,6 +182,9 @@ d3plot_file d3plot_open(const char *root_file_name) {
       while (i < CDA.npart) {
         /* TODO: data of higher order element parts*/
         d3_buffer_skip_words(&plot_file.buffer, &d3_ptr, 9);
+        if (plot_file.buffer.error_string) {
+          break;
+        }
 
         i++;
       }
@@ -215,9 +219,37 @@ d3plot_file d3plot_open(const char *root_file_name) {
                        plot_file.buffer.error_string);
   }
 
+  /* Make sure that the sizes which are calculated from these values do not
+   * overflow*/
+  {
+    const d3_word sizes[] = {
+        CDA.numnp,   CDA.nglbv, CDA.nummat8, CDA.nv3d,   CDA.nel2,
+        CDA.nummat2, CDA.nv1d,  CDA.nel4,    CDA.nummat4, CDA.nv2d,
+        CDA.neiph,   CDA.neips, CDA.narbs,   CDA.nelt,   CDA.nummatt,
+        CDA.nv3dt,   CDA.nadapt, CDA.nmmat,  CDA.nel48,  CDA.nel20,
+        CDA.nt3d,    CDA.nel27, CDA.neipb,   CDA.nel21p, CDA.nel15t,
+        CDA.nel20t,  CDA.nel40p, CDA.nel64};
+    size_t i = 0;
+    while (i < sizeof(sizes) / sizeof(*sizes)) {
+      if (sizes[i] > INT32_MAX) {
+        ERROR_AND_RETURN_F("The CONTROL DATA contains a too large value: %llu",
+                           sizes[i]);
+      }
+      i++;
+    }
+    if (CDA.nel8 > INT32_MAX || CDA.maxint > INT32_MAX ||
+        CDA.maxint < -INT32_MAX) {
+      ERROR_AND_RETURN_F(
+          "The CONTROL DATA contains a too large value: NEL8=%ld MAXINT=%ld",
+          (long)CDA.nel8, (long)CDA.maxint);
+    }
+  }
+
   /* Calculate BEAMIP*/
   /* NV1D = 6 + 5*BEAMIP + NEIPB*(3+BEAMIP) */
-  CDA.beamip = (CDA.nv1d - 6 - CDA.neipb * 3) / (5 + CDA.neipb);
+  CDA.beamip = CDA.nv1d < 6 + CDA.neipb * 3
+                   ? 0
+                   : (CDA.nv1d - 6 - CDA.neipb * 3) / (5 + CDA.neipb);
 
   if (CDA.ndim == 5 || CDA.ndim == 7) {
     mattyp = 1;
@@ -326,8 +358,8 @@ d3plot_file d3plot_open(const char *root_file_name) {
         CDA.istrn = 0;
       }
     } else if (CDA.nelt > 0) {
-      if ((CDA.nv3dt -
-           CDA.maxint * (6 * CDA.ioshl[0] + CDA.ioshl[1] + CDA.neips)) > 1) {
+      if (CDA.nv3dt >
+          CDA.maxint * (6 * CDA.ioshl[0] + CDA.ioshl[1] + CDA.neips) + 1) {
         CDA.istrn = 1;
       } else {
         CDA.istrn = 0;
@@ -379,6 +411,10 @@ d3plot_file d3plot_open(const char *root_file_name) {
   if (CDA.numst != 0) {
     ERROR_AND_RETURN_F("NUMST (%llu) should be 0", CDA.numst);
   }
+  if (CDA.nel8 < 0) {
+    ERROR_AND_RETURN_F("A negative value for NEL8 (%ld) is not supported",
+                       (long)CDA.nel8);
+  }
   if (CDA.it != 0) {
     /* TODO: IT*/
     ERROR_AND_RETURN_F(
@@ -425,6 +461,10 @@ d3plot_file d3plot_open(const char *root_file_name) {
   /* Read EOF marker*/
   double eof_marker;
   d3_buffer_read_double_word(&plot_file.buffer, &d3_ptr, &eof_marker);
+  if (plot_file.buffer.error_string) {
+    ERROR_AND_RETURN_F("Failed to read the EOF marker: %s",
+                       plot_file.buffer.error_string);
+  }
 
   if (eof_marker != D3_EOF) {
     ERROR_AND_RETURN_F(
diff --git a/src/d3plot_data.c b/src/d3plot_data.c
index 7096cc0..e041772 100644
--- a/src/d3plot_data.c
+++ b/src/d3plot_data.c
@@ -377,6 +377,11 @@ int _d3plot_read_header(d3plot_file *plot_file, d3_pointer *d3_ptr) {
         END_PROFILE_FUNC();
         return 0;
       }
+      if (numprop > INT32_MAX) {
+        ERROR_AND_NO_RETURN_F_PTR("NUMPROP (%llu) is too large", numprop);
+        END_PROFILE_FUNC();
+        return 0;
+      }
       DT_PTR_SET(D3PLT_PTR_PART_TITLES);
       /* PTITLE is always 72 bytes*/
       d3_buffer_skip_bytes(&plot_file->buffer, d3_ptr,
@@ -396,6 +401,11 @@ int _d3plot_read_header(d3plot_file *plot_file, d3_pointer *d3_ptr) {
         END_PROFILE_FUNC();
         return 0;
       }
+      if (numcon > INT32_MAX) {
+        ERROR_AND_NO_RETURN_F_PTR("NUMCON (%llu) is too large", numcon);
+        END_PROFILE_FUNC();
+        return 0;
+      }
       /* CTITLE is always 72 bytes*/
       d3_buffer_skip_bytes(&plot_file->buffer, d3_ptr,
                            (1 * plot_file->buffer.word_size + 72) * numcon);
@@ -416,6 +426,11 @@ int _d3plot_read_header(d3plot_file *plot_file, d3_pointer *d3_ptr) {
         END_PROFILE_FUNC();
         return 0;
       }
+      if (nline > INT32_MAX) {
+        ERROR_AND_NO_RETURN_F_PTR("NLINE (%llu) is too large", nline);
+        END_PROFILE_FUNC();
+        return 0;
+      }
       /* KEYWORD is always 80 bytes*/
       d3_buffer_skip_bytes(&plot_file->buffer, d3_ptr, 80 * nline);
       if (plot_file->buffer.error_string) {
-- 
2.43.0


From 0e538155cc0d165412b23c514df6fae8511c4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 18/92] fix: node displacements (IU=2) are rejected and only
 partly added to the initial coordinates

---
 src/d3plot.c       | 219 +++++++++++++++++++--------------------------
 src/d3plot.h       |   1 +
 src/d3plot_state.c |   4 +-
 3 files changed, 94 insertions(+), 130 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index e693b80..f8a60f7 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -490,6 +490,26 @@ d3plot_file d3plot_open(const char *root_file_name) {
                        plot_file.buffer.error_string);
   }
 
+  /* The displacements are relative to the initial node coordinates*/
+  if (CDA.iu == 2) {
+    void *initial_node_coords =
+        malloc(CDA.numnp * 3 * plot_file.buffer.word_size);
+    if (plot_file.buffer.word_size == 8) {
+      plot_file.initial_node_coords = initial_node_coords;
+    } else {
+      plot_file.initial_node_coords_32 = initial_node_coords;
+    }
+
+    d3_pointer coords_ptr = d3_buffer_read_words_at(
+        &plot_file.buffer, initial_node_coords, CDA.numnp * 3,
+        plot_file.data_pointers[D3PLT_PTR_NODE_COORDS]);
+    d3_pointer_close(&plot_file.buffer, &coords_ptr);
+    if (plot_file.buffer.error_string) {
+      ERROR_AND_RETURN_F("Failed to read initial node coords: %s",
+                         plot_file.buffer.error_string);
+    }
+  }
+
   /* Here comes the STATE DATA*/
 
   int result = 1;
@@ -727,78 +747,39 @@ double *d3plot_read_node_coordinates(d3plot_file *plot_file, size_t state,
 
   double *data = _d3plot_read_node_data(plot_file, state, num_nodes,
                                         D3PLT_PTR_STATE_NODE_COORDS);
-  if (plot_file->error_string) {
+  if (!data || plot_file->control_data.iu != 2) {
     END_PROFILE_FUNC();
     return data;
   }
 
-  if (plot_file->control_data.iu == 2) {
-    if (!plot_file->initial_node_coords) {
-      *num_nodes = plot_file->control_data.numnp;
-      plot_file->initial_node_coords = malloc(*num_nodes * 3 * sizeof(double));
-
-      if (plot_file->buffer.word_size == 8) {
-        d3_pointer d3_ptr = d3_buffer_read_words_at(
-            &plot_file->buffer, plot_file->initial_node_coords, *num_nodes * 3,
-            plot_file->data_pointers[D3PLT_PTR_NODE_COORDS]);
-        d3_pointer_close(&plot_file->buffer, &d3_ptr);
-
-        if (plot_file->buffer.error_string) {
-          free(data);
-          free(plot_file->initial_node_coords);
-          plot_file->initial_node_coords = NULL;
+  if (plot_file->buffer.word_size == 4) {
+    /* Compute the coordinates with the precision of the file*/
+    free(data);
+    float *data32 =
+        d3plot_read_node_coordinates_32(plot_file, state, num_nodes);
+    if (!data32) {
+      END_PROFILE_FUNC();
+      return NULL;
+    }
 
-          ERROR_AND_NO_RETURN_F_PTR("failed to read initial node coords: %s",
-                                    plot_file->buffer.error_string);
-          END_PROFILE_FUNC();
-          return NULL;
-        }
-      } else {
-        if (!plot_file->initial_node_coords_32) {
-          plot_file->initial_node_coords_32 =
-              malloc(*num_nodes * 3 * sizeof(float));
-
-          d3_pointer d3_ptr = d3_buffer_read_words_at(
-              &plot_file->buffer, plot_file->initial_node_coords_32,
-              *num_nodes * 3, plot_file->data_pointers[D3PLT_PTR_NODE_COORDS]);
-          d3_pointer_close(&plot_file->buffer, &d3_ptr);
-
-          if (plot_file->buffer.error_string) {
-            free(data);
-            free(plot_file->initial_node_coords);
-            free(plot_file->initial_node_coords_32);
-            plot_file->initial_node_coords = NULL;
-            plot_file->initial_node_coords_32 = NULL;
-
-            ERROR_AND_NO_RETURN_F_PTR("failed to read initial node coords: %s",
-                                      plot_file->buffer.error_string);
-            END_PROFILE_FUNC();
-            return NULL;
-          }
-        }
+    data = malloc(*num_nodes * 3 * sizeof(double));
+    size_t i = 0;
+    while (i < *num_nodes * 3) {
+      data[i] = data32[i];
 
-        size_t i = 0;
-        while (i < *num_nodes * 3) {
-          plot_file->initial_node_coords[i + 0] =
-              plot_file->initial_node_coords_32[i + 0];
-          plot_file->initial_node_coords[i + 1] =
-              plot_file->initial_node_coords_32[i + 1];
-          plot_file->initial_node_coords[i + 2] =
-              plot_file->initial_node_coords_32[i + 2];
+      i++;
+    }
+    free(data32);
 
-          i += 3;
-        }
-      }
+    END_PROFILE_FUNC();
+    return data;
+  }
 
-      size_t i = 0;
-      while (i < *num_nodes) {
-        data[i + 0] += plot_file->initial_node_coords[i + 0];
-        data[i + 1] += plot_file->initial_node_coords[i + 1];
-        data[i + 2] += plot_file->initial_node_coords[i + 2];
+  size_t i = 0;
+  while (i < *num_nodes * 3) {
+    data[i] += plot_file->initial_node_coords[i];
 
-        i += 3;
-      }
-    }
+    i++;
   }
 
   END_PROFILE_FUNC();
@@ -861,6 +842,16 @@ double *d3plot_read_all_node_coordinates(d3plot_file *plot_file,
       return NULL;
     }
 
+    if (plot_file->control_data.iu == 2) {
+      size_t i = 0;
+      while (i < *num_nodes * 3) {
+        big_data[current_pointer + i] +=
+            plot_file->initial_node_coords[i];
+
+        i++;
+      }
+    }
+
     current_pointer += *num_nodes * 3;
     t++;
   }
@@ -1019,84 +1010,44 @@ double *d3plot_read_all_node_acceleration(d3plot_file *plot_file,
 }
 
 float *d3plot_read_node_coordinates_32(d3plot_file *plot_file, size_t state,
-                                       size_t *num_nodes) {
+                                     size_t *num_nodes) {
   BEGIN_PROFILE_FUNC();
 
   float *data = _d3plot_read_node_data_32(plot_file, state, num_nodes,
-                                          D3PLT_PTR_STATE_NODE_COORDS);
-  if (plot_file->error_string) {
+                                        D3PLT_PTR_STATE_NODE_COORDS);
+  if (!data || plot_file->control_data.iu != 2) {
     END_PROFILE_FUNC();
     return data;
   }
 
-  if (plot_file->control_data.iu == 2) {
-    if (!plot_file->initial_node_coords_32) {
-      *num_nodes = plot_file->control_data.numnp;
-      plot_file->initial_node_coords_32 =
-          malloc(*num_nodes * 3 * sizeof(float));
-
-      if (plot_file->buffer.word_size == 4) {
-        d3_pointer d3_ptr = d3_buffer_read_words_at(
-            &plot_file->buffer, plot_file->initial_node_coords_32,
-            *num_nodes * 3, plot_file->data_pointers[D3PLT_PTR_NODE_COORDS]);
-        d3_pointer_close(&plot_file->buffer, &d3_ptr);
-
-        if (plot_file->buffer.error_string) {
-          free(data);
-          free(plot_file->initial_node_coords_32);
-          plot_file->initial_node_coords_32 = NULL;
+  if (plot_file->buffer.word_size == 8) {
+    /* Compute the coordinates with the precision of the file*/
+    free(data);
+    double *data64 =
+        d3plot_read_node_coordinates(plot_file, state, num_nodes);
+    if (!data64) {
+      END_PROFILE_FUNC();
+      return NULL;
+    }
 
-          ERROR_AND_NO_RETURN_F_PTR("failed to read initial node coords: %s",
-                                    plot_file->buffer.error_string);
-          END_PROFILE_FUNC();
-          return NULL;
-        }
-      } else {
-        if (!plot_file->initial_node_coords) {
-          plot_file->initial_node_coords =
-              malloc(*num_nodes * 3 * sizeof(double));
-
-          d3_pointer d3_ptr = d3_buffer_read_words_at(
-              &plot_file->buffer, plot_file->initial_node_coords,
-              *num_nodes * 3, plot_file->data_pointers[D3PLT_PTR_NODE_COORDS]);
-          d3_pointer_close(&plot_file->buffer, &d3_ptr);
-
-          if (plot_file->buffer.error_string) {
-            free(data);
-            free(plot_file->initial_node_coords_32);
-            free(plot_file->initial_node_coords);
-            plot_file->initial_node_coords_32 = NULL;
-            plot_file->initial_node_coords = NULL;
-
-            ERROR_AND_NO_RETURN_F_PTR("failed to read initial node coords: %s",
-                                      plot_file->buffer.error_string);
-            END_PROFILE_FUNC();
-            return NULL;
-          }
-        }
+    data = malloc(*num_nodes * 3 * sizeof(float));
+    size_t i = 0;
+    while (i < *num_nodes * 3) {
+      data[i] = data64[i];
 
-        size_t i = 0;
-        while (i < *num_nodes * 3) {
-          plot_file->initial_node_coords_32[i + 0] =
-              plot_file->initial_node_coords[i + 0];
-          plot_file->initial_node_coords_32[i + 1] =
-              plot_file->initial_node_coords[i + 1];
-          plot_file->initial_node_coords_32[i + 2] =
-              plot_file->initial_node_coords[i + 2];
+      i++;
+    }
+    free(data64);
 
-          i += 3;
-        }
-      }
+    END_PROFILE_FUNC();
+    return data;
+  }
 
-      size_t i = 0;
-      while (i < *num_nodes) {
-        data[i + 0] += plot_file->initial_node_coords_32[i + 0];
-        data[i + 1] += plot_file->initial_node_coords_32[i + 1];
-        data[i + 2] += plot_file->initial_node_coords_32[i + 2];
+  size_t i = 0;
+  while (i < *num_nodes * 3) {
+    data[i] += plot_file->initial_node_coords_32[i];
 
-        i += 3;
-      }
-    }
+    i++;
   }
 
   END_PROFILE_FUNC();
@@ -1159,6 +1110,16 @@ float *d3plot_read_all_node_coordinates_32(d3plot_file *plot_file,
       return NULL;
     }
 
+    if (plot_file->control_data.iu == 2) {
+      size_t i = 0;
+      while (i < *num_nodes * 3) {
+        big_data[current_pointer + i] +=
+            plot_file->initial_node_coords_32[i];
+
+        i++;
+      }
+    }
+
     current_pointer += *num_nodes * 3;
     t++;
   }
diff --git a/src/d3plot.h b/src/d3plot.h
index e5364df..cc1cde0 100644
--- a/src/d3plot.h
+++ b/src/d3plot.h
@@ -132,6 +132,7 @@ typedef struct {
   /* This holds an error after calling some functions*/
   char *error_string;
 
+  /* Only used if IU is 2. Which one is used depends on the word size*/
   double *initial_node_coords;
   float *initial_node_coords_32;
 } d3plot_file;
diff --git a/src/d3plot_state.c b/src/d3plot_state.c
index b14ea97..580f72c 100644
--- a/src/d3plot_state.c
+++ b/src/d3plot_state.c
@@ -198,8 +198,10 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
   }
   const uint8_t mass_N = _get_nth_digit(CDP.it, 1) == 1;
 
+  /* IU is 2 if the node coordinates are displacements*/
+  const d3_word iu = CDP.iu == 2 ? 1 : CDP.iu;
   const size_t NND =
-      ((it + N + mass_N) + CDP.ndim * (CDP.iu + CDP.iv + CDP.ia)) * CDP.numnp;
+      ((it + N + mass_N) + CDP.ndim * (iu + CDP.iv + CDP.ia)) * CDP.numnp;
 
   if (it > 0) {
     d3_buffer_skip_words(&plot_file->buffer, d3_ptr, it * CDP.numnp);
-- 
2.43.0


From b22eeb793fdc9b2ca4e8652cf422875570bd22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 19/92] fix: reading absent node data of all states returns
 other data

---
 src/d3plot.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index f8a60f7..7ada2bf 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -819,6 +819,18 @@ double *d3plot_read_all_node_coordinates(d3plot_file *plot_file,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.iu) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
@@ -903,6 +915,18 @@ double *d3plot_read_all_node_velocity(d3plot_file *plot_file, size_t *num_nodes,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.iv) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
@@ -978,6 +1002,18 @@ double *d3plot_read_all_node_acceleration(d3plot_file *plot_file,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.ia) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
@@ -1087,6 +1123,18 @@ float *d3plot_read_all_node_coordinates_32(d3plot_file *plot_file,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.iu) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
@@ -1172,6 +1220,18 @@ float *d3plot_read_all_node_velocity_32(d3plot_file *plot_file,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.iv) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
@@ -1247,6 +1307,18 @@ float *d3plot_read_all_node_acceleration_32(d3plot_file *plot_file,
 
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (!plot_file->control_data.ia) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "This node data is not present IU=%llu IV=%llu IA=%llu",
+        plot_file->control_data.iu, plot_file->control_data.iv,
+        plot_file->control_data.ia);
+    *num_nodes = 0;
+    *num_time_steps = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_time_steps = plot_file->num_states;
   *num_nodes = (size_t)plot_file->control_data.numnp;
 
-- 
2.43.0


From 24757b2cdfb7cb4f45d9f95eb2ad0316e600bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 20/92] fix: d3plot states out of range are not always reported
 as an error

---
 src/d3plot.c | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index 7ada2bf..4a52ee3 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -1545,12 +1545,6 @@ d3plot_solid *d3plot_read_solids_state(d3plot_file *plot_file, size_t state,
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  *num_solids = plot_file->control_data.nel8;
-  if (*num_solids == 0) {
-    END_PROFILE_FUNC();
-    return NULL;
-  }
-
   if (state >= plot_file->num_states) {
     ERROR_AND_NO_RETURN_F_PTR("%zu is out of bounds for the states", state);
     *num_solids = 0;
@@ -1559,6 +1553,12 @@ d3plot_solid *d3plot_read_solids_state(d3plot_file *plot_file, size_t state,
     return NULL;
   }
 
+  *num_solids = plot_file->control_data.nel8;
+  if (*num_solids == 0) {
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   d3plot_solid *solids = malloc(*num_solids * sizeof(d3plot_solid));
   if (plot_file->buffer.word_size == 4) {
     float *data =
@@ -1733,12 +1733,6 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  *num_thick_shells = plot_file->control_data.nelt;
-  if (*num_thick_shells == 0) {
-    END_PROFILE_FUNC();
-    return NULL;
-  }
-
   if (state >= plot_file->num_states) {
     ERROR_AND_NO_RETURN_F_PTR("%zu is out of bounds for the states", state);
     *num_thick_shells = 0;
@@ -1747,6 +1741,12 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
     return NULL;
   }
 
+  *num_thick_shells = plot_file->control_data.nelt;
+  if (*num_thick_shells == 0) {
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   const uint8_t num_integration_points =
       (uint8_t)plot_file->control_data.maxint;
   const uint8_t num_history_variables = (uint8_t)plot_file->control_data.neips;
@@ -2018,12 +2018,6 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  *num_beams = plot_file->control_data.nel2;
-  if (*num_beams == 0) {
-    END_PROFILE_FUNC();
-    return NULL;
-  }
-
   if (state >= plot_file->num_states) {
     ERROR_AND_NO_RETURN_F_PTR("%zu is out of bounds for the states", state);
     *num_beams = 0;
@@ -2032,6 +2026,12 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
     return NULL;
   }
 
+  *num_beams = plot_file->control_data.nel2;
+  if (*num_beams == 0) {
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   if (plot_file->control_data.neipb > 255 ||
       plot_file->control_data.beamip > 255) {
     ERROR_AND_NO_RETURN_F_PTR(
@@ -2325,12 +2325,6 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  *num_shells = plot_file->control_data.nel4;
-  if (*num_shells == 0) {
-    END_PROFILE_FUNC();
-    return NULL;
-  }
-
   if (state >= plot_file->num_states) {
     ERROR_AND_NO_RETURN_F_PTR("%zu is out of bounds for the states", state);
     *num_shells = 0;
@@ -2339,6 +2333,12 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
     return NULL;
   }
 
+  *num_shells = plot_file->control_data.nel4;
+  if (*num_shells == 0) {
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   const uint8_t num_integration_points =
       (uint8_t)plot_file->control_data.maxint;
   const uint8_t num_history_variables = (uint8_t)plot_file->control_data.neips;
@@ -3221,6 +3221,7 @@ int _get_nth_digit(d3_word value, int n) {
 double *_d3plot_read_node_data(d3plot_file *plot_file, size_t state,
                                size_t *num_nodes, size_t data_type) {
   D3PLOT_CLEAR_ERROR_STRING();
+  *num_nodes = 0;
 
   if (plot_file->data_pointers[data_type] == 0) {
     ERROR_AND_NO_RETURN_F_PTR(
@@ -3280,6 +3281,7 @@ double *_d3plot_read_node_data(d3plot_file *plot_file, size_t state,
 float *_d3plot_read_node_data_32(d3plot_file *plot_file, size_t state,
                                  size_t *num_nodes, size_t data_type) {
   D3PLOT_CLEAR_ERROR_STRING();
+  *num_nodes = 0;
 
   if (plot_file->data_pointers[data_type] == 0) {
     ERROR_AND_NO_RETURN_F_PTR(
-- 
2.43.0


From 2c2888596dec73d64eaa637cfa9cc8eaf58c9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 21/92] fix: element state data is read out of bounds if the
 number of values is inconsistent

---
 src/d3plot.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index 4a52ee3..8da7c91 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -1559,6 +1559,21 @@ d3plot_solid *d3plot_read_solids_state(d3plot_file *plot_file, size_t state,
     return NULL;
   }
 
+  /* Make sure that the values of every solid fit into the data*/
+  if (plot_file->control_data.nv3d !=
+      6 * plot_file->control_data.iosol[0] + plot_file->control_data.iosol[1] +
+          plot_file->control_data.neiph) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "Sanity Check: NV3D (%llu) does not equal 6 * IOSOL(1) (%d) + IOSOL(2) "
+        "(%d) + NEIPH (%llu)",
+        plot_file->control_data.nv3d, (int)plot_file->control_data.iosol[0],
+        (int)plot_file->control_data.iosol[1], plot_file->control_data.neiph);
+    *num_solids = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   d3plot_solid *solids = malloc(*num_solids * sizeof(d3plot_solid));
   if (plot_file->buffer.word_size == 4) {
     float *data =
@@ -1754,6 +1769,21 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
   const uint8_t plastic_strain_written = plot_file->control_data.ioshl[1];
   const uint8_t inner_outer_strain_written = plot_file->control_data.istrn == 1;
 
+  /* Make sure that the values of every thick shell fit into the data*/
+  const d3_word num_values =
+      num_integration_points * (6 * stress_written + plastic_strain_written +
+                                (d3_word)num_history_variables) +
+      12 * (inner_outer_strain_written && num_integration_points >= 3);
+  if (plot_file->control_data.nv3dt != num_values) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "Sanity Check: NV3DT is %llu, but every thick shell needs %llu values",
+        plot_file->control_data.nv3dt, num_values);
+    *num_thick_shells = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   /* Allocate memory for all history variables of all thick shells*/
   double *history_variables =
       malloc(*num_thick_shells * 3 * num_history_variables * sizeof(double));
@@ -2047,6 +2077,21 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
   const uint8_t num_integration_points =
       (uint8_t)plot_file->control_data.beamip;
   const uint8_t num_history_variables = (uint8_t)plot_file->control_data.neipb;
+
+  /* Make sure that the values of every beam fit into the data*/
+  const d3_word num_values =
+      6 + 5 * num_integration_points +
+      num_history_variables * (3 + (d3_word)num_integration_points);
+  if (plot_file->control_data.nv1d != num_values) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "Sanity Check: NV1D is %llu, but every beam needs %llu values",
+        plot_file->control_data.nv1d, num_values);
+    *num_beams = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   const size_t his_avg_min_max_offset = *num_beams *
                                         (size_t)num_integration_points *
                                         (size_t)num_history_variables;
@@ -2347,6 +2392,22 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
   const uint8_t force_resultant_written = plot_file->control_data.ioshl[2];
   const uint8_t thickness_energy_written = plot_file->control_data.ioshl[3];
 
+  /* Make sure that the values of every shell fit into the data*/
+  const d3_word num_values =
+      num_integration_points * (6 * stress_written + plastic_strain_written +
+                                (d3_word)num_history_variables) +
+      8 * force_resultant_written + 4 * thickness_energy_written +
+      12 * (plot_file->control_data.istrn == 1);
+  if (plot_file->control_data.nv2d != num_values) {
+    ERROR_AND_NO_RETURN_F_PTR(
+        "Sanity Check: NV2D is %llu, but every shell needs %llu values",
+        plot_file->control_data.nv2d, num_values);
+    *num_shells = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   /* Allocate memory for all history variables of all shells*/
   double *history_variables =
       malloc(num_history_variables * num_integration_points * *num_shells *
-- 
2.43.0


From 0bf676f7227c5471c6078e49df0cf43042f3cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 22/92] fix: shell results with other than three integration
 points corrupt memory

---
 src/d3plot.c | 122 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 32 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index 8da7c91..508958d 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -1785,15 +1785,29 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
   }
 
   /* Allocate memory for all history variables of all thick shells*/
-  double *history_variables =
-      malloc(*num_thick_shells * 3 * num_history_variables * sizeof(double));
-
-  d3plot_surface *additional_integration_points =
-      malloc(sizeof(d3plot_surface) * (num_integration_points - 3) *
-             *num_thick_shells);
+  /* The values of the surfaces that are not part of the data (MAXINT < 3) are
+   * zero*/
+  const size_t num_surfaces =
+      num_integration_points > 3 ? num_integration_points : 3;
+  const uint8_t num_additional_integration_points = num_surfaces - 3;
+  double *history_variables = NULL;
+  if (num_history_variables > 0) {
+    const size_t history_size =
+        *num_thick_shells * num_surfaces * num_history_variables * sizeof(double);
+    history_variables = malloc(history_size);
+    memset(history_variables, 0, history_size);
+  }
+
+  d3plot_surface *additional_integration_points = NULL;
+  if (num_additional_integration_points > 0) {
+    additional_integration_points =
+        malloc(sizeof(d3plot_surface) * num_additional_integration_points *
+               *num_thick_shells);
+  }
 
   d3plot_thick_shell *thick_shells =
       malloc(*num_thick_shells * sizeof(d3plot_thick_shell));
+  memset(thick_shells, 0, *num_thick_shells * sizeof(d3plot_thick_shell));
   if (plot_file->buffer.word_size == 4) {
     float *data = malloc(plot_file->control_data.nelt *
                          plot_file->control_data.nv3dt * sizeof(float));
@@ -1820,6 +1834,14 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
     size_t i = 0;
     size_t o = 0;
     while (i < *num_thick_shells) {
+      if (history_variables) {
+        thick_shells[i].mid.history_variables =
+            &history_variables[(i * num_surfaces + 0) * num_history_variables];
+        thick_shells[i].inner.history_variables =
+            &history_variables[(i * num_surfaces + 1) * num_history_variables];
+        thick_shells[i].outer.history_variables =
+            &history_variables[(i * num_surfaces + 2) * num_history_variables];
+      }
       thick_shells[i].add_ips = NULL;
 
       /* Loop over all integration points */
@@ -1865,9 +1887,8 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
         /* Define NEIPS additional history values here for surface*/
         if (plot_file->control_data.neips != 0) {
           ip->history_variables =
-              &history_variables[i * num_integration_points *
-                                     num_history_variables +
-                                 j * num_history_variables];
+              &history_variables[(i * num_surfaces + j) *
+                                 num_history_variables];
           size_t k = 0;
           while (k < num_history_variables) {
             ip->history_variables[k++] = data[o++];
@@ -1903,7 +1924,7 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
 
       thick_shells[i].num_history_variables = num_history_variables;
       thick_shells[i].num_additional_integration_points =
-          num_integration_points - 3;
+          num_additional_integration_points;
 
       i++;
     }
@@ -1949,6 +1970,14 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
     size_t i = 0;
     size_t o = 0;
     while (i < *num_thick_shells) {
+      if (history_variables) {
+        thick_shells[i].mid.history_variables =
+            &history_variables[(i * num_surfaces + 0) * num_history_variables];
+        thick_shells[i].inner.history_variables =
+            &history_variables[(i * num_surfaces + 1) * num_history_variables];
+        thick_shells[i].outer.history_variables =
+            &history_variables[(i * num_surfaces + 2) * num_history_variables];
+      }
       thick_shells[i].add_ips = NULL;
 
       size_t j = 0;
@@ -1990,9 +2019,8 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
         /* Define NEIPS additional history variables here */
         if (plot_file->control_data.neips != 0) {
           ip->history_variables =
-              &history_variables[i * num_integration_points *
-                                     num_history_variables +
-                                 j * num_history_variables];
+              &history_variables[(i * num_surfaces + j) *
+                                 num_history_variables];
           memcpy(ip->history_variables, &data[o],
                  num_history_variables * sizeof(double));
           o += plot_file->control_data.neips;
@@ -2017,7 +2045,7 @@ d3plot_thick_shell *d3plot_read_thick_shells_state(d3plot_file *plot_file,
 
       thick_shells[i].num_history_variables = num_history_variables;
       thick_shells[i].num_additional_integration_points =
-          num_integration_points - 3;
+          num_additional_integration_points;
 
       i++;
     }
@@ -2409,14 +2437,28 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
   }
 
   /* Allocate memory for all history variables of all shells*/
-  double *history_variables =
-      malloc(num_history_variables * num_integration_points * *num_shells *
-             sizeof(double));
-
-  d3plot_surface *additional_integration_points = malloc(
-      sizeof(d3plot_surface) * (num_integration_points - 3) * *num_shells);
+  /* The values of the surfaces that are not part of the data (MAXINT < 3) are
+   * zero*/
+  const size_t num_surfaces =
+      num_integration_points > 3 ? num_integration_points : 3;
+  const uint8_t num_additional_integration_points = num_surfaces - 3;
+  double *history_variables = NULL;
+  if (num_history_variables > 0) {
+    const size_t history_size =
+        *num_shells * num_surfaces * num_history_variables * sizeof(double);
+    history_variables = malloc(history_size);
+    memset(history_variables, 0, history_size);
+  }
+
+  d3plot_surface *additional_integration_points = NULL;
+  if (num_additional_integration_points > 0) {
+    additional_integration_points =
+        malloc(sizeof(d3plot_surface) * num_additional_integration_points *
+               *num_shells);
+  }
 
   d3plot_shell *shells = malloc(*num_shells * sizeof(d3plot_shell));
+  memset(shells, 0, *num_shells * sizeof(d3plot_shell));
   if (plot_file->buffer.word_size == 4) {
     float *data = malloc(plot_file->control_data.nel4 *
                          plot_file->control_data.nv2d * sizeof(float));
@@ -2441,6 +2483,14 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
     size_t i = 0;
     size_t o = 0;
     while (i < *num_shells) {
+      if (history_variables) {
+        shells[i].mid.history_variables =
+            &history_variables[(i * num_surfaces + 0) * num_history_variables];
+        shells[i].inner.history_variables =
+            &history_variables[(i * num_surfaces + 1) * num_history_variables];
+        shells[i].outer.history_variables =
+            &history_variables[(i * num_surfaces + 2) * num_history_variables];
+      }
       shells[i].add_ips = NULL;
 
       /* Loop over all integration points */
@@ -2487,9 +2537,8 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
         if (plot_file->control_data.neips != 0) {
           /* Define NEIPS additional history values here*/
           ip->history_variables =
-              &history_variables[i * num_integration_points *
-                                     num_history_variables +
-                                 j * num_history_variables];
+              &history_variables[(i * num_surfaces + j) *
+                                 num_history_variables];
           size_t k = 0;
           while (k < num_history_variables) {
             ip->history_variables[k++] = data[o++];
@@ -2523,9 +2572,9 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
         memset(&shells[i].thickness, 0, sizeof(double) * 4);
       }
 
-      if (plot_file->control_data.istrn == 0) {
+      if (plot_file->control_data.istrn != 1) {
         memset(&shells[i].inner_epsilon, 0, 2 * sizeof(d3plot_tensor));
-      } else if (plot_file->control_data.istrn == 1) {
+      } else {
         shells[i].inner_epsilon.x = data[o++];
         shells[i].inner_epsilon.y = data[o++];
         shells[i].inner_epsilon.z = data[o++];
@@ -2542,7 +2591,8 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
       }
 
       shells[i].num_history_variables = num_history_variables;
-      shells[i].num_additional_integration_points = num_integration_points - 3;
+      shells[i].num_additional_integration_points =
+          num_additional_integration_points;
 
       i++;
     }
@@ -2588,6 +2638,14 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
     size_t i = 0;
     size_t o = 0;
     while (i < *num_shells) {
+      if (history_variables) {
+        shells[i].mid.history_variables =
+            &history_variables[(i * num_surfaces + 0) * num_history_variables];
+        shells[i].inner.history_variables =
+            &history_variables[(i * num_surfaces + 1) * num_history_variables];
+        shells[i].outer.history_variables =
+            &history_variables[(i * num_surfaces + 2) * num_history_variables];
+      }
       shells[i].add_ips = NULL;
 
       size_t j = 0;
@@ -2629,9 +2687,8 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
         /* Define NEIPS additional history variables here */
         if (plot_file->control_data.neips != 0) {
           ip->history_variables =
-              &history_variables[i * num_integration_points *
-                                     num_history_variables +
-                                 j * num_history_variables];
+              &history_variables[(i * num_surfaces + j) *
+                                 num_history_variables];
           memcpy(ip->history_variables, &data[o],
                  num_history_variables * sizeof(double));
           o += plot_file->control_data.neips;
@@ -2672,15 +2729,16 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
         memset(&shells[i].thickness, 0, sizeof(double) * 4);
       }
 
-      if (plot_file->control_data.istrn == 0) {
+      if (plot_file->control_data.istrn != 1) {
         memset(&shells[i].inner_epsilon, 0, 2 * sizeof(d3plot_tensor));
-      } else if (plot_file->control_data.istrn == 1) {
+      } else {
         memcpy(&shells[i].inner_epsilon, &data[o], 2 * sizeof(d3plot_tensor));
         o += 2 * sizeof(d3plot_tensor) / sizeof(double);
       }
 
       shells[i].num_history_variables = num_history_variables;
-      shells[i].num_additional_integration_points = num_integration_points - 3;
+      shells[i].num_additional_integration_points =
+          num_additional_integration_points;
 
       i++;
     }
-- 
2.43.0


From a1c8d34e4396e00dd2c9556dd919589ef0c0297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 23/92] fix: memory of d3plot element states leaks or gets
 freed wrongly

---
 src/d3plot.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index 508958d..2e2367e 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -2147,6 +2147,8 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
       *num_beams = 0;
       free(data);
       free(beams);
+      free(integration_points);
+      free(history_variables);
 
       END_PROFILE_FUNC();
       return NULL;
@@ -2262,6 +2264,8 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
           plot_file->control_data.nel2 * plot_file->control_data.nv1d);
       *num_beams = 0;
       free(beams);
+      free(integration_points);
+      free(history_variables);
 
       END_PROFILE_FUNC();
       return NULL;
@@ -2282,6 +2286,8 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
       *num_beams = 0;
       free(data);
       free(beams);
+      free(integration_points);
+      free(history_variables);
 
       END_PROFILE_FUNC();
       return NULL;
@@ -2383,6 +2389,8 @@ d3plot_beam *d3plot_read_beams_state(d3plot_file *plot_file, size_t state,
           plot_file->control_data.nel2 * plot_file->control_data.nv1d);
       *num_beams = 0;
       free(beams);
+      free(integration_points);
+      free(history_variables);
 
       END_PROFILE_FUNC();
       return NULL;
@@ -2475,6 +2483,8 @@ d3plot_shell *d3plot_read_shells_state(d3plot_file *plot_file, size_t state,
       *num_shells = 0;
       free(data);
       free(shells);
+      free(history_variables);
+      free(additional_integration_points);
 
       END_PROFILE_FUNC();
       return NULL;
@@ -3611,10 +3621,15 @@ void d3plot_free_beams_state(d3plot_beam *beams) {
   BEGIN_PROFILE_FUNC();
 
   if (beams) {
-    if (beams->ips) {
+    /* The history variables of the first integration point are the first ones
+     * of the allocated memory. If there are no integration points the average
+     * ones are*/
+    if (beams->num_integration_points > 0) {
       free(beams->ips->history_variables);
-      free(beams->ips);
+    } else {
+      free(beams->history_average);
     }
+    free(beams->ips);
     free(beams);
   }
 
-- 
2.43.0


From b821a13a80ae41cf5f17955428a7b7eb55a0c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 24/92] fix: ids of d3plots without arbitrary numbering are
 read from the title

---
 src/d3plot.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index 2e2367e..be26f32 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3477,6 +3477,19 @@ d3_word *_d3plot_read_ids(d3plot_file *plot_file, size_t *num_ids,
   }
 
   d3_word *ids = malloc(*num_ids * sizeof(d3_word));
+  if (plot_file->data_pointers[data_type] == 0) {
+    /* The file does not contain any ids (NARBS=0) which means that they are
+     * numbered consecutively*/
+    size_t i = 0;
+    while (i < *num_ids) {
+      ids[i] = i + 1;
+
+      i++;
+    }
+
+    return ids;
+  }
+
   if (plot_file->buffer.word_size == 4) {
     uint32_t *ids32 = malloc(*num_ids * plot_file->buffer.word_size);
     d3_pointer d3_ptr =
-- 
2.43.0


From 9423930a7cecc85a921f156d644ab17ed05d9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 25/92] fix: reading part ids and titles that are not in the
 d3plot accesses garbage

---
 src/d3plot.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index be26f32..1e8d054 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -660,25 +660,29 @@ d3_word *d3plot_read_part_ids(d3plot_file *plot_file, size_t *num_parts) {
     *num_parts = plot_file->control_data.nmmat;
     d3_word *part_ids = malloc(*num_parts * sizeof(d3_word));
 
-    d3_pointer d3_ptr;
-
     size_t i = 0;
     while (i < *num_parts) {
       part_ids[i] = 0;
 
-      if (i == 0) {
-        d3_ptr = d3_buffer_read_words_at(
-            &plot_file->buffer, &part_ids[i], 1,
-            plot_file->data_pointers[D3PLT_PTR_PART_TITLES]);
-      } else {
-        d3_buffer_read_words(&plot_file->buffer, &d3_ptr, &part_ids[i], 1);
+      /* Every part id is followed by a title of 72 bytes*/
+      d3_pointer d3_ptr = d3_buffer_read_words_at(
+          &plot_file->buffer, &part_ids[i], 1,
+          plot_file->data_pointers[D3PLT_PTR_PART_TITLES] +
+              i * (1 + 72 / plot_file->buffer.word_size));
+      d3_pointer_close(&plot_file->buffer, &d3_ptr);
+      if (plot_file->buffer.error_string) {
+        ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
+                                  plot_file->buffer.error_string);
+        *num_parts = 0;
+        free(part_ids);
+
+        END_PROFILE_FUNC();
+        return NULL;
       }
-      d3_buffer_skip_bytes(&plot_file->buffer, &d3_ptr, 72);
 
       i++;
     }
 
-    d3_pointer_close(&plot_file->buffer, &d3_ptr);
     END_PROFILE_FUNC();
     return part_ids;
   }
@@ -694,10 +698,19 @@ char **d3plot_read_part_titles(d3plot_file *plot_file, size_t *num_parts) {
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
+  if (plot_file->data_pointers[D3PLT_PTR_PART_TITLES] == 0) {
+    ERROR_AND_NO_RETURN_PTR("Could not retrieve part titles");
+    *num_parts = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   *num_parts = plot_file->control_data.nmmat;
   char **part_titles = malloc(*num_parts * sizeof(char *));
 
   d3_pointer d3_ptr;
+  d3_ptr.cur_file = ~0;
 
   size_t i = 0;
   while (i < *num_parts) {
-- 
2.43.0


From 0d0b0b9c30acdebf9f9200901fbca500b100596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 26/92] fix: the number of part ids and titles is not checked
 against the d3plot file

---
 src/d3plot.c      | 33 +++++++++++++++++++++++++++++++--
 src/d3plot_data.c |  9 +++++++++
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index 1e8d054..e2179bf 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -643,6 +643,23 @@ d3_word *d3plot_read_all_element_ids(d3plot_file *plot_file, size_t *num_ids) {
   return all_ids;
 }
 
+/* Returns the number of parts for which the header contains an id and a title.
+ * Sets error_string on error*/
+static size_t _d3plot_read_num_part_titles(d3plot_file *plot_file) {
+  d3_word numprop = 0;
+  d3_pointer d3_ptr = d3_buffer_read_words_at(
+      &plot_file->buffer, &numprop, 1,
+      plot_file->data_pointers[D3PLT_PTR_PART_TITLES] - 1);
+  d3_pointer_close(&plot_file->buffer, &d3_ptr);
+  if (plot_file->buffer.error_string) {
+    ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
+                              plot_file->buffer.error_string);
+    return 0;
+  }
+
+  return numprop;
+}
+
 d3_word *d3plot_read_part_ids(d3plot_file *plot_file, size_t *num_parts) {
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
@@ -657,7 +674,13 @@ d3_word *d3plot_read_part_ids(d3plot_file *plot_file, size_t *num_parts) {
     }
 
     /* Read the part ids from the header if NSORT >= 0*/
-    *num_parts = plot_file->control_data.nmmat;
+    *num_parts = _d3plot_read_num_part_titles(plot_file);
+    if (plot_file->error_string) {
+      *num_parts = 0;
+
+      END_PROFILE_FUNC();
+      return NULL;
+    }
     d3_word *part_ids = malloc(*num_parts * sizeof(d3_word));
 
     size_t i = 0;
@@ -706,7 +729,13 @@ char **d3plot_read_part_titles(d3plot_file *plot_file, size_t *num_parts) {
     return NULL;
   }
 
-  *num_parts = plot_file->control_data.nmmat;
+  *num_parts = _d3plot_read_num_part_titles(plot_file);
+  if (plot_file->error_string) {
+    *num_parts = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
   char **part_titles = malloc(*num_parts * sizeof(char *));
 
   d3_pointer d3_ptr;
diff --git a/src/d3plot_data.c b/src/d3plot_data.c
index e041772..8a27314 100644
--- a/src/d3plot_data.c
+++ b/src/d3plot_data.c
@@ -202,6 +202,15 @@ int _d3plot_read_user_identification_numbers(d3plot_file *plot_file,
     }
   }
 
+  if (nmmat < CDP.nmmat || nmmat > INT32_MAX) {
+    ERROR_AND_NO_RETURN_F_PTR("Sanity Check: Parts: The NMMAT (%llu) of the "
+                              "USER IDENTIFICATION NUMBERS does not match the "
+                              "one of the CONTROL DATA (%llu)",
+                              nmmat, CDP.nmmat);
+    END_PROFILE_FUNC();
+    return 0;
+  }
+
   const size_t data_pointer_start = d3_ptr->cur_word;
   size_t data_pointer = d3_ptr->cur_word;
   DT_PTR_SET_DPTR(D3PLT_PTR_NODE_IDS);
-- 
2.43.0


From a4ecd01cd399a73b84c6d3f16abc22c0f0581b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 27/92] fix: lists of all element ids are not merged in
 ascending order

---
 src/d3plot.c            | 45 +++++++++--------------------------------
 src/d3plot_part_nodes.c | 34 +++++++++----------------------
 2 files changed, 19 insertions(+), 60 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index e2179bf..f9af3f8 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3571,48 +3571,23 @@ d3_word *_d3plot_read_ids(d3plot_file *plot_file, size_t *num_ids,
   return ids;
 }
 
-#define SWAP(lhs, rhs)                                                         \
-  d3_word temp = lhs;                                                          \
-  lhs = rhs;                                                                   \
-  rhs = temp
-
 d3_word *_insert_sorted(d3_word *dst, size_t dst_size, const d3_word *src,
                         size_t src_size) {
   BEGIN_PROFILE_FUNC();
 
-  if (!dst) {
-    dst = malloc(src_size * sizeof(d3_word));
-    memcpy(dst, src, src_size * sizeof(d3_word));
-
-    END_PROFILE_FUNC();
-    return dst;
-  }
-
-  const size_t dst_min = dst[0];
-  const size_t dst_max = dst[dst_size - 1];
-  const size_t src_min = src[0];
-  const size_t src_max = src[src_size - 1];
-
   dst = realloc(dst, (dst_size + src_size) * sizeof(d3_word));
 
-  if (src_max <= dst_min) {
-    /* Insert before dst*/
-    memcpy(&dst[src_size], dst, dst_size * sizeof(d3_word));
-    memcpy(dst, src, src_size * sizeof(d3_word));
-  } else if (src_min >= dst_max) {
-    /* Insert after dst*/
-    memcpy(&dst[dst_size], src, src_size * sizeof(d3_word));
-  } else {
-    /* Insert inside dst*/
-    /* Search for index where i-1 is lesser than min and i is greater than min
-     */
-    size_t i = 1;
-    while (i < dst_size && !(dst[i - 1] < src_min && dst[i] > src_min)) {
-      i++;
+  /* Merge both arrays starting at their ends, so that no element of dst gets
+   * overwritten before it has been moved*/
+  size_t i = dst_size, j = src_size;
+  while (j > 0) {
+    if (i > 0 && dst[i - 1] > src[j - 1]) {
+      dst[i + j - 1] = dst[i - 1];
+      i--;
+    } else {
+      dst[i + j - 1] = src[j - 1];
+      j--;
     }
-
-    memcpy(&dst[i + src_size], &dst[i], (dst_size - i) * sizeof(d3_word));
-    memcpy(&dst[i], src, src_size * sizeof(d3_word));
   }
 
   END_PROFILE_FUNC();
diff --git a/src/d3plot_part_nodes.c b/src/d3plot_part_nodes.c
index f9615d5..00a7958 100644
--- a/src/d3plot_part_nodes.c
+++ b/src/d3plot_part_nodes.c
@@ -139,46 +139,30 @@ d3_word *d3plot_part_get_all_element_ids(const d3plot_part *part,
 
   *num_ids = d3plot_part_get_num_elements(part);
 
-  d3_word *all_ids = malloc(*num_ids * sizeof(d3_word));
-
-  int empty = 1;
+  d3_word *all_ids = NULL;
   size_t all_ids_size = 0;
 
   if (part->num_solids != 0) {
-    memcpy(all_ids, part->solid_ids, part->num_solids * sizeof(d3_word));
-    empty = 0;
+    all_ids = _insert_sorted(all_ids, all_ids_size, part->solid_ids,
+                             part->num_solids);
     all_ids_size += part->num_solids;
   }
 
   if (part->num_thick_shells != 0) {
-    if (empty) {
-      memcpy(all_ids, part->thick_shell_ids,
-             part->num_thick_shells * sizeof(d3_word));
-    } else {
-      _insert_sorted(all_ids, all_ids_size, part->thick_shell_ids,
-                     part->num_thick_shells);
-    }
-    empty = 0;
+    all_ids = _insert_sorted(all_ids, all_ids_size, part->thick_shell_ids,
+                             part->num_thick_shells);
     all_ids_size += part->num_thick_shells;
   }
 
   if (part->num_beams != 0) {
-    if (empty) {
-      memcpy(all_ids, part->beam_ids, part->num_beams * sizeof(d3_word));
-    } else {
-      _insert_sorted(all_ids, all_ids_size, part->beam_ids, part->num_beams);
-    }
-    empty = 0;
+    all_ids = _insert_sorted(all_ids, all_ids_size, part->beam_ids,
+                             part->num_beams);
     all_ids_size += part->num_beams;
   }
 
   if (part->num_shells != 0) {
-    if (empty) {
-      memcpy(all_ids, part->shell_ids, part->num_shells * sizeof(d3_word));
-    } else {
-      _insert_sorted(all_ids, all_ids_size, part->shell_ids, part->num_shells);
-    }
-    empty = 0;
+    all_ids = _insert_sorted(all_ids, all_ids_size, part->shell_ids,
+                             part->num_shells);
     all_ids_size += part->num_shells;
   }
 
-- 
2.43.0


From b3d8f62d9828e6a0fc710c27b128812d9014572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 28/92] fix: node ids and indices of d3plot parts leak memory
 and are read out of bounds

---
 gen/d3plot_part_nodes_gen.c |  52 ++++++----
 src/d3plot_part_nodes.c     |   3 +-
 src/pgni.h                  | 196 +++++++++++++++++++++++-------------
 3 files changed, 162 insertions(+), 89 deletions(-)

diff --git a/gen/d3plot_part_nodes_gen.c b/gen/d3plot_part_nodes_gen.c
index f9d9374..01172c9 100644
--- a/gen/d3plot_part_nodes_gen.c
+++ b/gen/d3plot_part_nodes_gen.c
@@ -59,7 +59,7 @@ void pgni_add_element_function(FILE *file, const char *element_name /*1*/,
       file,
       "void pgni_add_element_%1$s(d3plot_file* plot_file, const d3plot_part* "
       "part, d3_word* part_node_ids, size_t* num_part_node_ids, const d3_word* "
-      "node_ids, const d3_word* "
+      "node_ids, size_t num_nodes, const d3_word* "
       "%2$s, size_t %4$s, const %7$s* %3$s) {\n"
       "if (part->%4$s != 0) {\n"
       "uint8_t loaded_ids = 0;\n"
@@ -75,12 +75,9 @@ void pgni_add_element_function(FILE *file, const char *element_name /*1*/,
       "if (%2$s) {\n"
       "if (!%3$s) {\n"
       "%3$s = %6$s(plot_file, &%4$s);\n"
+      "loaded_cons = 1;\n"
       "if (plot_file->error_string) {\n"
       "/* Ignore these elements */\n"
-      "/* Unload solid_ids*/\n"
-      "if (loaded_ids) {\n"
-      "free((d3_word*)%2$s);\n"
-      "}\n"
       "D3PLOT_CLEAR_ERROR_STRING();\n"
       "}\n"
       "}\n"
@@ -89,11 +86,21 @@ void pgni_add_element_function(FILE *file, const char *element_name /*1*/,
       "while (i < part->%4$s) {"
       "const size_t el_index ="
       "d3plot_index_for_id(part->%2$s[i], %2$s, %4$s);\n"
+      "if (el_index >= %4$s) {\n"
+      "/* This element does not exist */\n"
+      "i++;"
+      "continue;"
+      "}\n"
       "const %7$s *el_con = &%3$s[el_index];\n"
       "size_t j = 0;"
       "while (j < (sizeof(el_con->node_indices) /"
       "sizeof(*el_con->node_indices))) {"
       "const d3_word node_index = el_con->node_indices[j];"
+      "if (node_index >= num_nodes) {\n"
+      "/* This node does not exist */\n"
+      "j++;"
+      "continue;"
+      "}\n"
       "const d3_word node_id = node_ids[node_index];\n"
       "/* Push node id onto the array of node ids*/\n"
       "%8$s"
@@ -102,13 +109,13 @@ void pgni_add_element_function(FILE *file, const char *element_name /*1*/,
       "}"
       "i++;"
       "}\n"
-      "if (loaded_ids) {\n"
-      "free((d3_word*)%2$s);\n"
-      "}\n"
       "if (loaded_cons) {\n"
       "free((%7$s*)%3$s);\n"
       "}\n"
-      "}"
+      "}\n"
+      "if (loaded_ids) {\n"
+      "free((d3_word*)%2$s);\n"
+      "}\n"
       "}"
       "}"
       "}\n",
@@ -147,12 +154,9 @@ void pgnind_add_element_function(FILE *file, const char *element_name /*1*/,
       "if (%2$s) {\n"
       "if (!%3$s) {\n"
       "%3$s = %6$s(plot_file, &%4$s);\n"
+      "loaded_cons = 1;\n"
       "if (plot_file->error_string) {\n"
       "/* Ignore these elements */\n"
-      "/* Unload solid_ids*/\n"
-      "if (loaded_ids) {\n"
-      "free((d3_word*)%2$s);\n"
-      "}\n"
       "D3PLOT_CLEAR_ERROR_STRING();\n"
       "}\n"
       "}\n"
@@ -161,11 +165,21 @@ void pgnind_add_element_function(FILE *file, const char *element_name /*1*/,
       "while (i < part->%4$s) {"
       "const size_t el_index ="
       "d3plot_index_for_id(part->%2$s[i], %2$s, %4$s);\n"
+      "if (el_index >= %4$s) {\n"
+      "/* This element does not exist */\n"
+      "i++;"
+      "continue;"
+      "}\n"
       "const %7$s *el_con = &%3$s[el_index];\n"
       "size_t j = 0;"
       "while (j < (sizeof(el_con->node_indices) /"
       "sizeof(*el_con->node_indices))) {"
-      "const d3_word node_index = el_con->node_indices[j];\n"
+      "const d3_word node_index = el_con->node_indices[j];"
+      "if (node_index >= plot_file->control_data.numnp) {\n"
+      "/* This node does not exist */\n"
+      "j++;"
+      "continue;"
+      "}\n"
       "/* Push node index onto the array of node indices*/\n"
       "%8$s"
       "/******************************************/\n"
@@ -173,13 +187,13 @@ void pgnind_add_element_function(FILE *file, const char *element_name /*1*/,
       "}"
       "i++;"
       "}\n"
-      "if (loaded_ids) {\n"
-      "free((d3_word*)%2$s);\n"
-      "}\n"
       "if (loaded_cons) {\n"
       "free((%7$s*)%3$s);\n"
       "}\n"
-      "}"
+      "}\n"
+      "if (loaded_ids) {\n"
+      "free((d3_word*)%2$s);\n"
+      "}\n"
       "}"
       "}"
       "}\n",
@@ -192,7 +206,7 @@ void pgni_add_element_macro(FILE *file, const char *element_name,
                             const char *el_cons, const char *num_els) {
   fprintf(file,
           "#define PGNI_ADD_%s() pgni_add_element_%s(plot_file, part, "
-          "part_node_ids, num_part_node_ids, node_ids, %s, %s, %s);\n",
+          "part_node_ids, num_part_node_ids, node_ids, num_nodes, %s, %s, %s);\n",
           element_name, element_lower, el_ids, num_els, el_cons);
 }
 
diff --git a/src/d3plot_part_nodes.c b/src/d3plot_part_nodes.c
index 00a7958..da81b45 100644
--- a/src/d3plot_part_nodes.c
+++ b/src/d3plot_part_nodes.c
@@ -36,6 +36,8 @@ d3_word *d3plot_part_get_node_ids2(
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
+  *num_part_node_ids = 0;
+
   uint8_t node_ids_loaded = 0;
 
   /* Load node ids*/
@@ -53,7 +55,6 @@ d3_word *d3plot_part_get_node_ids2(
   const size_t part_node_ids_cap = part->num_solids * 8 + part->num_beams * 2 +
                                    part->num_shells * 4 +
                                    part->num_thick_shells * 8;
-  *num_part_node_ids = 0;
   d3_word *part_node_ids = malloc(part_node_ids_cap * sizeof(d3_word));
 
   PGNI_ADD_SOLIDS();
diff --git a/src/pgni.h b/src/pgni.h
index a839d34..3073ea8 100644
--- a/src/pgni.h
+++ b/src/pgni.h
@@ -36,8 +36,8 @@
 
 void pgni_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
                              d3_word *part_node_ids, size_t *num_part_node_ids,
-                             const d3_word *node_ids, const d3_word *solid_ids,
-                             size_t num_solids,
+                             const d3_word *node_ids, size_t num_nodes,
+                             const d3_word *solid_ids, size_t num_solids,
                              const d3plot_solid_con *solid_cons) {
   if (part->num_solids != 0) {
     uint8_t loaded_ids = 0;
@@ -53,12 +53,9 @@ void pgni_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
     if (solid_ids) {
       if (!solid_cons) {
         solid_cons = d3plot_read_solid_elements(plot_file, &num_solids);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)solid_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -67,11 +64,21 @@ void pgni_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_solids) {
           const size_t el_index =
               d3plot_index_for_id(part->solid_ids[i], solid_ids, num_solids);
+          if (el_index >= num_solids) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_solid_con *el_con = &solid_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= num_nodes) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             const d3_word node_id = node_ids[node_index];
             /* Push node id onto the array of node ids*/
             if (*num_part_node_ids == 0) {
@@ -97,21 +104,21 @@ void pgni_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)solid_ids);
-        }
         if (loaded_cons) {
           free((d3plot_solid_con *)solid_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)solid_ids);
+      }
     }
   }
 }
 
 void pgni_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
                             d3_word *part_node_ids, size_t *num_part_node_ids,
-                            const d3_word *node_ids, const d3_word *beam_ids,
-                            size_t num_beams,
+                            const d3_word *node_ids, size_t num_nodes,
+                            const d3_word *beam_ids, size_t num_beams,
                             const d3plot_beam_con *beam_cons) {
   if (part->num_beams != 0) {
     uint8_t loaded_ids = 0;
@@ -127,12 +134,9 @@ void pgni_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
     if (beam_ids) {
       if (!beam_cons) {
         beam_cons = d3plot_read_beam_elements(plot_file, &num_beams);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)beam_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -141,11 +145,21 @@ void pgni_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_beams) {
           const size_t el_index =
               d3plot_index_for_id(part->beam_ids[i], beam_ids, num_beams);
+          if (el_index >= num_beams) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_beam_con *el_con = &beam_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= num_nodes) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             const d3_word node_id = node_ids[node_index];
             /* Push node id onto the array of node ids*/
             if (*num_part_node_ids == 0) {
@@ -171,21 +185,21 @@ void pgni_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)beam_ids);
-        }
         if (loaded_cons) {
           free((d3plot_beam_con *)beam_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)beam_ids);
+      }
     }
   }
 }
 
 void pgni_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
                              d3_word *part_node_ids, size_t *num_part_node_ids,
-                             const d3_word *node_ids, const d3_word *shell_ids,
-                             size_t num_shells,
+                             const d3_word *node_ids, size_t num_nodes,
+                             const d3_word *shell_ids, size_t num_shells,
                              const d3plot_shell_con *shell_cons) {
   if (part->num_shells != 0) {
     uint8_t loaded_ids = 0;
@@ -201,12 +215,9 @@ void pgni_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
     if (shell_ids) {
       if (!shell_cons) {
         shell_cons = d3plot_read_shell_elements(plot_file, &num_shells);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)shell_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -215,11 +226,21 @@ void pgni_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_shells) {
           const size_t el_index =
               d3plot_index_for_id(part->shell_ids[i], shell_ids, num_shells);
+          if (el_index >= num_shells) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_shell_con *el_con = &shell_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= num_nodes) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             const d3_word node_id = node_ids[node_index];
             /* Push node id onto the array of node ids*/
             if (*num_part_node_ids == 0) {
@@ -245,20 +266,20 @@ void pgni_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)shell_ids);
-        }
         if (loaded_cons) {
           free((d3plot_shell_con *)shell_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)shell_ids);
+      }
     }
   }
 }
 
 void pgni_add_element_thick_shells(
     d3plot_file *plot_file, const d3plot_part *part, d3_word *part_node_ids,
-    size_t *num_part_node_ids, const d3_word *node_ids,
+    size_t *num_part_node_ids, const d3_word *node_ids, size_t num_nodes,
     const d3_word *thick_shell_ids, size_t num_thick_shells,
     const d3plot_thick_shell_con *thick_shell_cons) {
   if (part->num_thick_shells != 0) {
@@ -277,12 +298,9 @@ void pgni_add_element_thick_shells(
       if (!thick_shell_cons) {
         thick_shell_cons =
             d3plot_read_thick_shell_elements(plot_file, &num_thick_shells);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)thick_shell_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -291,11 +309,21 @@ void pgni_add_element_thick_shells(
         while (i < part->num_thick_shells) {
           const size_t el_index = d3plot_index_for_id(
               part->thick_shell_ids[i], thick_shell_ids, num_thick_shells);
+          if (el_index >= num_thick_shells) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_thick_shell_con *el_con = &thick_shell_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= num_nodes) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             const d3_word node_id = node_ids[node_index];
             /* Push node id onto the array of node ids*/
             if (*num_part_node_ids == 0) {
@@ -321,13 +349,13 @@ void pgni_add_element_thick_shells(
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)thick_shell_ids);
-        }
         if (loaded_cons) {
           free((d3plot_thick_shell_con *)thick_shell_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)thick_shell_ids);
+      }
     }
   }
 }
@@ -351,12 +379,9 @@ void pgnind_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
     if (solid_ids) {
       if (!solid_cons) {
         solid_cons = d3plot_read_solid_elements(plot_file, &num_solids);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)solid_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -365,11 +390,21 @@ void pgnind_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_solids) {
           const size_t el_index =
               d3plot_index_for_id(part->solid_ids[i], solid_ids, num_solids);
+          if (el_index >= num_solids) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_solid_con *el_con = &solid_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= plot_file->control_data.numnp) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             /* Push node index onto the array of node indices*/
             if (*num_part_node_indices == 0) {
               *num_part_node_indices = 1;
@@ -395,13 +430,13 @@ void pgnind_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)solid_ids);
-        }
         if (loaded_cons) {
           free((d3plot_solid_con *)solid_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)solid_ids);
+      }
     }
   }
 }
@@ -425,12 +460,9 @@ void pgnind_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
     if (beam_ids) {
       if (!beam_cons) {
         beam_cons = d3plot_read_beam_elements(plot_file, &num_beams);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)beam_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -439,11 +471,21 @@ void pgnind_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_beams) {
           const size_t el_index =
               d3plot_index_for_id(part->beam_ids[i], beam_ids, num_beams);
+          if (el_index >= num_beams) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_beam_con *el_con = &beam_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= plot_file->control_data.numnp) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             /* Push node index onto the array of node indices*/
             if (*num_part_node_indices == 0) {
               *num_part_node_indices = 1;
@@ -469,13 +511,13 @@ void pgnind_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)beam_ids);
-        }
         if (loaded_cons) {
           free((d3plot_beam_con *)beam_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)beam_ids);
+      }
     }
   }
 }
@@ -499,12 +541,9 @@ void pgnind_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
     if (shell_ids) {
       if (!shell_cons) {
         shell_cons = d3plot_read_shell_elements(plot_file, &num_shells);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)shell_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -513,11 +552,21 @@ void pgnind_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
         while (i < part->num_shells) {
           const size_t el_index =
               d3plot_index_for_id(part->shell_ids[i], shell_ids, num_shells);
+          if (el_index >= num_shells) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_shell_con *el_con = &shell_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= plot_file->control_data.numnp) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             /* Push node index onto the array of node indices*/
             if (*num_part_node_indices == 0) {
               *num_part_node_indices = 1;
@@ -543,13 +592,13 @@ void pgnind_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)shell_ids);
-        }
         if (loaded_cons) {
           free((d3plot_shell_con *)shell_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)shell_ids);
+      }
     }
   }
 }
@@ -574,12 +623,9 @@ void pgnind_add_element_thick_shells(
       if (!thick_shell_cons) {
         thick_shell_cons =
             d3plot_read_thick_shell_elements(plot_file, &num_thick_shells);
+        loaded_cons = 1;
         if (plot_file->error_string) {
           /* Ignore these elements */
-          /* Unload solid_ids*/
-          if (loaded_ids) {
-            free((d3_word *)thick_shell_ids);
-          }
           D3PLOT_CLEAR_ERROR_STRING();
         }
       }
@@ -588,11 +634,21 @@ void pgnind_add_element_thick_shells(
         while (i < part->num_thick_shells) {
           const size_t el_index = d3plot_index_for_id(
               part->thick_shell_ids[i], thick_shell_ids, num_thick_shells);
+          if (el_index >= num_thick_shells) {
+            /* This element does not exist */
+            i++;
+            continue;
+          }
           const d3plot_thick_shell_con *el_con = &thick_shell_cons[el_index];
           size_t j = 0;
           while (j < (sizeof(el_con->node_indices) /
                       sizeof(*el_con->node_indices))) {
             const d3_word node_index = el_con->node_indices[j];
+            if (node_index >= plot_file->control_data.numnp) {
+              /* This node does not exist */
+              j++;
+              continue;
+            }
             /* Push node index onto the array of node indices*/
             if (*num_part_node_indices == 0) {
               *num_part_node_indices = 1;
@@ -618,30 +674,32 @@ void pgnind_add_element_thick_shells(
           }
           i++;
         }
-        if (loaded_ids) {
-          free((d3_word *)thick_shell_ids);
-        }
         if (loaded_cons) {
           free((d3plot_thick_shell_con *)thick_shell_cons);
         }
       }
+      if (loaded_ids) {
+        free((d3_word *)thick_shell_ids);
+      }
     }
   }
 }
 
 #define PGNI_ADD_SOLIDS()                                                      \
   pgni_add_element_solids(plot_file, part, part_node_ids, num_part_node_ids,   \
-                          node_ids, solid_ids, num_solids, solid_cons);
+                          node_ids, num_nodes, solid_ids, num_solids,          \
+                          solid_cons);
 #define PGNI_ADD_BEAMS()                                                       \
   pgni_add_element_beams(plot_file, part, part_node_ids, num_part_node_ids,    \
-                         node_ids, beam_ids, num_beams, beam_cons);
+                         node_ids, num_nodes, beam_ids, num_beams, beam_cons);
 #define PGNI_ADD_SHELLS()                                                      \
   pgni_add_element_shells(plot_file, part, part_node_ids, num_part_node_ids,   \
-                          node_ids, shell_ids, num_shells, shell_cons);
+                          node_ids, num_nodes, shell_ids, num_shells,          \
+                          shell_cons);
 #define PGNI_ADD_THICK_SHELLS()                                                \
-  pgni_add_element_thick_shells(plot_file, part, part_node_ids,                \
-                                num_part_node_ids, node_ids, thick_shell_ids,  \
-                                num_thick_shells, thick_shell_cons);
+  pgni_add_element_thick_shells(                                               \
+      plot_file, part, part_node_ids, num_part_node_ids, node_ids, num_nodes,  \
+      thick_shell_ids, num_thick_shells, thick_shell_cons);
 
 #define PGNIND_ADD_SOLIDS()                                                    \
   pgnind_add_element_solids(plot_file, part, part_node_indices,                \
-- 
2.43.0


From bf8849e3468abc6bbbaf48586c08e9cdf6bc8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 29/92] fix: parts are not found by id if the part ids are not
 sorted

---
 src/d3plot.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index f9af3f8..5820f86 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3303,13 +3303,16 @@ d3plot_part d3plot_read_part_by_id(d3plot_file *plot_file, d3_word part_id,
     return part;
   }
 
-  const size_t index =
-      d3_word_binary_search(p_part_ids, 0, num_parts - 1, part_id);
+  /* The part ids are not necessarily sorted*/
+  size_t index = 0;
+  while (index < num_parts && p_part_ids[index] != part_id) {
+    index++;
+  }
   if (!part_ids) {
     free(p_part_ids);
   }
 
-  if (index == ~0) {
+  if (index == num_parts) {
     ERROR_AND_NO_RETURN_F_PTR("The part id %llu has not been found", part_id);
     END_PROFILE_FUNC();
     return part;
-- 
2.43.0


From 03c0d18d4eb71dcdb5494632d1382056c9ab32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 30/92] fix: d3plot_index_for_id reads out of bounds if there
 are no ids

---
 src/d3plot.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index 5820f86..ef7f657 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3327,6 +3327,11 @@ d3plot_part d3plot_read_part_by_id(d3plot_file *plot_file, d3_word part_id,
 size_t d3plot_index_for_id(d3_word id, const d3_word *ids, size_t num_ids) {
   BEGIN_PROFILE_FUNC();
 
+  if (num_ids == 0) {
+    END_PROFILE_FUNC();
+    return ~0;
+  }
+
   const size_t index = d3_word_binary_search(ids, 0, num_ids - 1, id);
 
   END_PROFILE_FUNC();
-- 
2.43.0


From 48868e70e7c72be54b308a8ee99cc34371c85a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 31/92] fix: freed d3plot pointers are not reset by
 d3plot_close

---
 src/d3plot.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/d3plot.c b/src/d3plot.c
index ef7f657..12db2de 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -543,7 +543,10 @@ void d3plot_close(d3plot_file *plot_file) {
   free(plot_file->initial_node_coords_32);
 
   plot_file->num_states = 0;
+  plot_file->data_pointers = NULL;
   plot_file->error_string = NULL;
+  plot_file->initial_node_coords = NULL;
+  plot_file->initial_node_coords_32 = NULL;
 
   END_PROFILE_FUNC();
 }
-- 
2.43.0


From 896498e57046558bc7d9888ac872e9f34624a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 32/92] fix: do not report an empty line at the end of key
 files

The position inside of the read buffer was uninitialised at first and a file
whose size is a multiple of the read buffer got an additional empty line (or
even an uninitialised one). A carriage return or comment at the end of the read
buffer was handled using a stale character.
---
 src/line.c | 61 ++++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/src/line.c b/src/line.c
index dc17421..808f377 100644
--- a/src/line.c
+++ b/src/line.c
@@ -37,6 +37,7 @@ line_reader_t new_line_reader(FILE *file) {
   lr.buffer = malloc(LINE_READER_BUFFER_SIZE);
   lr.file = file;
   lr.line.extra = NULL;
+  lr.buffer_index = 0;
   lr.bytes_read = 0;
   lr.extra_capacity = 0;
 
@@ -56,8 +57,8 @@ int read_line(line_reader_t *lr) {
     return 0;
   }
 
-  /* Points where to write the next character*/
-  char *cursor = lr->line.buffer;
+  /* Whether at least one byte has been read for the current line*/
+  int has_read = 0;
 
   /* Loop until a new line has been encountered or EOF is reached or an error
    * occurred*/
@@ -66,50 +67,46 @@ int read_line(line_reader_t *lr) {
      * the first read_line call*/
     if (lr->bytes_read == 0 || lr->buffer_index >= lr->bytes_read) {
       /* Read the file in LINE_READER_BUFFER_SIZE sized chunks*/
+      lr->buffer_index = 0;
       lr->bytes_read = fread(lr->buffer, 1, LINE_READER_BUFFER_SIZE, lr->file);
       if (lr->bytes_read == 0) {
+        /* There is no line after the last new line*/
+        if (!has_read) {
+          END_PROFILE_FUNC();
+          return 0;
+        }
         break;
       }
-      lr->buffer_index = 0;
     }
 
-    /* Read bytes from the buffer*/
-    while (lr->buffer_index < lr->bytes_read) {
-      *cursor = lr->buffer[lr->buffer_index++];
+    const char c = lr->buffer[lr->buffer_index++];
+    has_read = 1;
 
-      if (lr->comment_index == (size_t)~0 && *cursor == KEY_COMMENT) {
-        lr->comment_index = lr->line_length;
-      }
+    if (c == '\n') {
+      break;
+    }
 
-      /* Ignore carriage return*/
-      if (*cursor == '\r') {
-        continue;
-      } else if (*cursor == '\n') {
-        break;
-      }
+    /* Ignore carriage return*/
+    if (c == '\r') {
+      continue;
+    }
 
-      lr->line_length++;
-
-      /* Switch to extra if too much characters have been read and make sure
-       * that enough memory is allocated*/
-      if (lr->line_length >= EXTRA_STRING_BUFFER_SIZE &&
-          lr->line_length + 1 - EXTRA_STRING_BUFFER_SIZE > lr->extra_capacity) {
-        lr->extra_capacity += EXTRA_STRING_BUFFER_SIZE;
-        lr->line.extra = realloc(lr->line.extra, lr->extra_capacity);
-        cursor = &lr->line.extra[lr->line_length - EXTRA_STRING_BUFFER_SIZE];
-      } else if (lr->line_length == EXTRA_STRING_BUFFER_SIZE) {
-        cursor = lr->line.extra;
-      } else {
-        cursor++;
-      }
+    if (lr->comment_index == (size_t)~0 && c == KEY_COMMENT) {
+      lr->comment_index = lr->line_length;
     }
 
-    if (*cursor == '\n') {
-      break;
+    extra_string_set(&lr->line, lr->line_length++, c);
+
+    /* Switch to extra if too much characters have been read and make sure
+     * that enough memory is allocated*/
+    if (lr->line_length >= EXTRA_STRING_BUFFER_SIZE &&
+        lr->line_length + 1 - EXTRA_STRING_BUFFER_SIZE > lr->extra_capacity) {
+      lr->extra_capacity += lr->extra_capacity + EXTRA_STRING_BUFFER_SIZE;
+      lr->line.extra = realloc(lr->line.extra, lr->extra_capacity);
     }
   }
 
-  *cursor = '\0';
+  extra_string_set(&lr->line, lr->line_length, '\0');
 
   END_PROFILE_FUNC();
   return 1;
-- 
2.43.0


From d8b19daaa3b0dafee419befea5a6da4d81bd9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 33/92] fix: inline comments after the file name of an include

The length of the line included the comment, so the file name got an embedded
null character and trailing spaces and could not be found.
---
 src/key.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/key.c b/src/key.c
index 9458af4..95ef475 100644
--- a/src/key.c
+++ b/src/key.c
@@ -291,6 +291,7 @@ void key_file_parse_with_callback(const char *file_name,
       continue;
     } else if (line_reader.comment_index != (size_t)~0) {
       extra_string_set(&line_reader.line, line_reader.comment_index, '\0');
+      line_reader.line_length = line_reader.comment_index;
     }
 
     /* ------- 🐉 Here be parsings 🐉 --------- */
-- 
2.43.0


From f25ae9f544ff6174b68017b81f48963dc82a7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 34/92] fix: reading past the keywords array while inserting a
 duplicate

---
 src/key.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/key.c b/src/key.c
index 95ef475..3064416 100644
--- a/src/key.c
+++ b/src/key.c
@@ -100,10 +100,9 @@ void key_file_parse_callback(key_parse_info_t info, const char *keyword_name,
       if (found) {
         /* Look for the last occurrence of the keyword*/
         index++;
-        if (index != *data->num_keywords) {
-          while (strcmp(data->keywords[index].name, keyword_name) == 0) {
-            index++;
-          }
+        while (index < *data->num_keywords &&
+               strcmp(data->keywords[index].name, keyword_name) == 0) {
+          index++;
         }
       }
     }
-- 
2.43.0


From f0e6e972f89064c19df558bb6f6b80a7ffc854a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 35/92] fix: keyword lookup at the ends of the keywords array

key_file_get read past the end of the array for an index that is too large and
key_file_get_slice missed the first keyword if it is the first one of the
array.
---
 src/key.c | 39 ++++++++-------------------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/src/key.c b/src/key.c
index 3064416..788c4c3 100644
--- a/src/key.c
+++ b/src/key.c
@@ -726,29 +726,14 @@ keyword_t *key_file_get(keyword_t *keywords, size_t num_keywords,
     return NULL;
   }
 
-  if (find_index == 0 && index == 0) {
-    END_PROFILE_FUNC();
-    return keywords;
-  }
-
   /* Find the first of the keyword*/
   size_t i = find_index;
-  while (i > 0 && strcmp(keywords[i].name, name) == 0) {
+  while (i > 0 && strcmp(keywords[i - 1].name, name) == 0) {
     i--;
   }
 
-  if (i != 0 || strcmp(keywords[i].name, name) != 0) {
-    i++;
-  }
-
-  size_t j = 0;
-  while (j < index && i < num_keywords) {
-    j++;
-    i++;
-  }
-
-  if (j == index && strcmp(keywords[i].name, name) == 0) {
-    keyword_t *value = &keywords[i];
+  if (index < num_keywords - i && strcmp(keywords[i + index].name, name) == 0) {
+    keyword_t *value = &keywords[i + index];
     END_PROFILE_FUNC();
     return value;
   }
@@ -777,23 +762,15 @@ keyword_t *key_file_get_slice(keyword_t *keywords, size_t num_keywords,
 
   /* Find the first of the keyword*/
   size_t start_index = find_index;
-  if (find_index != 0) {
-    while (start_index > 0 && strcmp(keywords[start_index].name, name) == 0) {
-      start_index--;
-    }
-
-    start_index++;
+  while (start_index > 0 && strcmp(keywords[start_index - 1].name, name) == 0) {
+    start_index--;
   }
 
   /* Find the last of the keyword*/
   size_t end_index = find_index;
-  if (find_index != num_keywords - 1) {
-    while (end_index < num_keywords &&
-           strcmp(keywords[end_index].name, name) == 0) {
-      end_index++;
-    }
-
-    end_index--;
+  while (end_index < num_keywords - 1 &&
+         strcmp(keywords[end_index + 1].name, name) == 0) {
+    end_index++;
   }
 
   *slice_size = end_index - start_index + 1;
-- 
2.43.0


From 4fd2fed902bd480c280d2a1ff53638a5df5248e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 36/92] fix: parsing cards whose values end after column 255 or
 after the card

The index wrapped around for long cards which resulted in an endless loop, and
advancing or copying a value that is wider than the rest of the card read past
the end of the card.
---
 src/key.c | 32 +++++++++++++++++---------------
 src/key.h |  6 +++---
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/key.c b/src/key.c
index 788c4c3..2e5f9c4 100644
--- a/src/key.c
+++ b/src/key.c
@@ -801,14 +801,11 @@ void card_parse_next(card_t *card) {
 void card_parse_next_width(card_t *card, uint8_t value_width) {
   BEGIN_PROFILE_FUNC();
 
-  if (card->string[card->current_index] != '\0') {
-    if (card->current_index <= 255 - value_width) {
-      card->current_index += value_width;
-    } else {
-      while (card->string[card->current_index] != '\0') {
-        card->current_index++;
-      }
-    }
+  /* Do not advance past the end of the card*/
+  uint8_t i = 0;
+  while (i < value_width && card->string[card->current_index] != '\0') {
+    card->current_index++;
+    i++;
   }
 
   END_PROFILE_FUNC();
@@ -832,7 +829,7 @@ int64_t card_parse_int_width(const card_t *card, uint8_t value_width) {
 
   errno = 0;
 
-  uint8_t i = card->current_index;
+  size_t i = card->current_index;
   /* Loop until leading whitespace is trimmed*/
   while (i < card->current_index + value_width && card->string[i] == ' ') {
     i++;
@@ -901,7 +898,7 @@ float card_parse_float32_width(const card_t *card, uint8_t value_width) {
   int exponent_sign = 1;
   int exponent_value = 0;
 
-  uint8_t i = card->current_index;
+  size_t i = card->current_index;
   /* Loop until leading whitespace is trimmed*/
   while (i < card->current_index + value_width && card->string[i] == ' ') {
     i++;
@@ -1107,7 +1104,7 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
   int exponent_sign = 1;
   int exponent_value = 0;
 
-  uint8_t i = card->current_index;
+  size_t i = card->current_index;
   /* Loop until leading whitespace is trimmed*/
   while (i < card->current_index + value_width && card->string[i] == ' ') {
     i++;
@@ -1340,8 +1337,13 @@ char *card_parse_string_width(const card_t *card, uint8_t value_width) {
 char *card_parse_string_width_no_trim(const card_t *card, uint8_t value_width) {
   BEGIN_PROFILE_FUNC();
 
-  char *value =
-      string_clone_len(&card->string[card->current_index], value_width);
+  /* The card may end inside of the value*/
+  size_t len = 0;
+  while (len < value_width && card->string[card->current_index + len] != '\0') {
+    len++;
+  }
+
+  char *value = string_clone_len(&card->string[card->current_index], len);
 
   END_PROFILE_FUNC();
   return value;
@@ -1394,7 +1396,7 @@ card_parse_type card_parse_get_type_width(const card_t *card,
     return CARD_PARSE_STRING;
   }
 
-  uint8_t i = card->current_index;
+  size_t i = card->current_index;
 
   /* Loop until the leading spaces have been trimmed*/
   while (card->string[i] == ' ' && (i - card->current_index) < value_width) {
@@ -1519,7 +1521,7 @@ int card_parse_is_empty(const card_t *card) {
 int card_parse_is_empty_width(const card_t *card, uint8_t value_width) {
   BEGIN_PROFILE_FUNC();
 
-  uint8_t i = card->current_index;
+  size_t i = card->current_index;
   while (i - card->current_index < value_width) {
     if (card->string[i] == '\0') {
       break;
diff --git a/src/key.h b/src/key.h
index f3f91eb..4c6bade 100644
--- a/src/key.h
+++ b/src/key.h
@@ -45,9 +45,9 @@ typedef enum {
 typedef struct {
   char *string; /* The whole line*/
 
-  uint8_t current_index; /* Used for parsing. Stores the current index from
-                            where to parse the current value*/
-  uint8_t value_width;   /* Used for parsing. Stores how wide a value is.*/
+  size_t current_index; /* Used for parsing. Stores the current index from
+                           where to parse the current value*/
+  uint8_t value_width;  /* Used for parsing. Stores how wide a value is.*/
 } card_t;
 
 /* A Keyword with its cards inside a key file (input deck)*/
-- 
2.43.0


From fbfed9250d95fcfda15b67cef63bc025c8b56e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 37/92] fix: sign handling of card_parse_int

A leading plus sign was rejected even though card_parse_get_type reports the
value as an int and a sign without digits was accepted as a number.
---
 src/key.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/key.c b/src/key.c
index 2e5f9c4..0585ade 100644
--- a/src/key.c
+++ b/src/key.c
@@ -843,24 +843,33 @@ int64_t card_parse_int_width(const card_t *card, uint8_t value_width) {
     return 0;
   }
 
-  /* Check for negative sign*/
-  int64_t sign = 1;
+  /* Check for sign*/
+  int is_negative = 0;
   if (card->string[i] == '-') {
-    sign = -1;
+    is_negative = 1;
+    i++;
+  } else if (card->string[i] == '+') {
     i++;
   }
-  int64_t result = 0;
+  /* Unsigned, so that numbers that do not fit are not undefined behaviour*/
+  uint64_t result = 0;
+
+  /* There has to be a digit after the sign*/
+  if (i == card->current_index + value_width || card->string[i] == '\0' ||
+      card->string[i] == ' ') {
+    errno = EINVAL;
+
+    END_PROFILE_FUNC();
+    return 0;
+  }
 
   /* Iterate over the digits of the string and compute the integer value*/
   while (i < card->current_index + value_width && card->string[i] != '\0') {
     if (card->string[i] >= '0' && card->string[i] <= '9') {
-      result = result * 10 + (card->string[i] - '0');
+      result = result * 10 + (uint64_t)(card->string[i] - '0');
     } else if (card->string[i] == ' ') {
       /* Quit when encountering whitespace*/
-      result *= sign;
-
-      END_PROFILE_FUNC();
-      return result;
+      break;
     } else {
       /* If a non-digit character is encountered, return 0 to indicate an
        * error*/
@@ -873,10 +882,8 @@ int64_t card_parse_int_width(const card_t *card, uint8_t value_width) {
     i++;
   }
 
-  result *= sign;
-
   END_PROFILE_FUNC();
-  return result;
+  return is_negative ? (int64_t)(0 - result) : (int64_t)result;
 }
 
 float card_parse_float32(const card_t *card) {
-- 
2.43.0


From 5d0eb5ed28313b46260dc8af081612a9d13d6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 38/92] fix: parsing of floating point values

The single precision version overflowed for values with many digits (resulting
in NaN), a value without an integer part could not have an exponent, a single
decimal point was accepted as a number and large exponents overflowed.
---
 src/key.c | 255 +++++++-----------------------------------------------
 1 file changed, 31 insertions(+), 224 deletions(-)

diff --git a/src/key.c b/src/key.c
index 0585ade..8389036 100644
--- a/src/key.c
+++ b/src/key.c
@@ -891,205 +891,9 @@ float card_parse_float32(const card_t *card) {
 }
 
 float card_parse_float32_width(const card_t *card, uint8_t value_width) {
-  BEGIN_PROFILE_FUNC();
-
-  errno = 0;
-
-  float result = 0.0f;
-  float fraction = 0.0f;
-  float exponent = 1.0f;
-  float sign = 1.0f;
-  int has_integer = 0;
-  int has_fraction = 0;
-  int has_exponent = 0;
-  int exponent_sign = 1;
-  int exponent_value = 0;
-
-  size_t i = card->current_index;
-  /* Loop until leading whitespace is trimmed*/
-  while (i < card->current_index + value_width && card->string[i] == ' ') {
-    i++;
-  }
-
-  /* The string is completely empty or just spaces*/
-  if (i == card->current_index + value_width || card->string[i] == '\0') {
-    errno = EINVAL;
-
-    END_PROFILE_FUNC();
-    return 0.0f;
-  }
-
-  /* Check for sign*/
-  if (card->string[i] == '-') {
-    sign = -1.0f;
-    i++;
-  } else if (card->string[i] == '+') {
-    i++;
-  }
-
-  if (i == card->current_index + value_width || card->string[i] == '\0' ||
-      card->string[i] == ' ') {
-    errno = EINVAL;
-
-    END_PROFILE_FUNC();
-    return 0.0f;
-  }
-
-  /* Parse integer part*/
-  while (i < card->current_index + value_width && card->string[i] != '\0' &&
-         card->string[i] != '.' && card->string[i] != 'e' &&
-         card->string[i] != 'E') {
-    if (card->string[i] >= '0' && card->string[i] <= '9') {
-      has_integer = 1;
-
-      result = result * 10.0f + (card->string[i] - '0');
-    } else if (card->string[i] == ' ') {
-      /* Quit when encountering whitespace*/
-      result *= sign;
-
-      END_PROFILE_FUNC();
-      return result;
-    } else {
-      /* Invalid character*/
-      errno = EINVAL;
-
-      END_PROFILE_FUNC();
-      return 0.0f;
-    }
-    i++;
-  }
-
-  /* If we already reached the end*/
-  if (i == card->current_index + value_width || card->string[i] == '\0') {
-    result *= sign;
-
-    END_PROFILE_FUNC();
-    return result;
-  }
-
-  /* Parse fraction part*/
-  if (card->string[i] == '.') {
-    i++;
-    has_fraction = 1;
-    while (i < card->current_index + value_width && card->string[i] != '\0' &&
-           card->string[i] != 'e' && card->string[i] != 'E') {
-      if (card->string[i] >= '0' && card->string[i] <= '9') {
-        fraction = fraction * 10.0f + (card->string[i] - '0');
-        exponent *= 10.0f;
-        i++;
-      } else if (card->string[i] == ' ') {
-        /* Quit when encountering whitespace*/
-        fraction /= exponent;
-        result += fraction;
-        result *= sign;
-
-        END_PROFILE_FUNC();
-        return result;
-      } else {
-        /* Invalid character*/
-        errno = EINVAL;
-
-        return 0.0;
-      }
-    }
-
-    /* If we already reached the end*/
-    if (i == card->current_index + value_width || card->string[i] == '\0') {
-      fraction /= exponent;
-      result += fraction;
-      result *= sign;
-
-      END_PROFILE_FUNC();
-      return result;
-    }
-  }
-
-  /* Parse exponent part*/
-  if (card->string[i] == 'e' || card->string[i] == 'E') {
-    if (!has_integer) {
-      errno = EINVAL;
-
-      END_PROFILE_FUNC();
-      return 0.0f;
-    }
-
-    i++;
-    if (card->string[i] == '-') {
-      exponent_sign = -1;
-      i++;
-    } else if (card->string[i] == '+') {
-      i++;
-    }
-
-    if (i == card->current_index + value_width || card->string[i] == '\0' ||
-        card->string[i] == ' ') {
-      if (has_fraction) {
-        fraction /= exponent;
-        result += fraction;
-      }
-
-      result *= sign;
-
-      errno = EINVAL;
-
-      END_PROFILE_FUNC();
-      return result;
-    }
-
-    while (i < card->current_index + value_width && card->string[i] != '\0') {
-      if (card->string[i] >= '0' && card->string[i] <= '9') {
-        has_exponent = 1;
-
-        exponent_value = exponent_value * 10 + (card->string[i] - '0');
-        i++;
-      } else if (card->string[i] == ' ') {
-        /* Quit when encountering whitespace*/
-        if (has_fraction) {
-          fraction /= exponent;
-          result += fraction;
-        }
-        result *= pow(10, exponent_sign * exponent_value);
-        result *= sign;
-
-        END_PROFILE_FUNC();
-        return result;
-      } else {
-        /* Invalid character*/
-        errno = EINVAL;
-
-        END_PROFILE_FUNC();
-        return 0.0f;
-      }
-    }
-
-    if (!has_exponent) {
-      if (has_fraction) {
-        fraction /= exponent;
-        result += fraction;
-      }
-
-      result *= sign;
-
-      errno = EINVAL;
-
-      END_PROFILE_FUNC();
-      return result;
-    }
-  }
-
-  /* Combine integer, fraction, and exponent parts */
-  if (has_fraction) {
-    fraction /= exponent;
-    result += fraction;
-  }
-  if (has_exponent) {
-    result *= pow(10, exponent_sign * exponent_value);
-  }
-
-  result *= sign;
-
-  END_PROFILE_FUNC();
-  return result;
+  /* Using a double for the intermediate values, because those can be a lot
+   * larger than the result*/
+  return (float)card_parse_float64_width(card, value_width);
 }
 
 double card_parse_float64(const card_t *card) {
@@ -1176,31 +980,37 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
   /* Parse fraction part*/
   if (card->string[i] == '.') {
     i++;
-    has_fraction = 1;
     while (i < card->current_index + value_width && card->string[i] != '\0' &&
            card->string[i] != 'e' && card->string[i] != 'E') {
       if (card->string[i] >= '0' && card->string[i] <= '9') {
+        has_fraction = 1;
+
         fraction = fraction * 10.0 + (card->string[i] - '0');
         exponent *= 10.0;
         i++;
       } else if (card->string[i] == ' ') {
         /* Quit when encountering whitespace*/
-        fraction /= exponent;
-        result += fraction;
-        result *= sign;
-
-        END_PROFILE_FUNC();
-        return result;
+        break;
       } else {
         /* Invalid character*/
         errno = EINVAL;
 
+        END_PROFILE_FUNC();
         return 0.0;
       }
     }
 
+    /* There has to be a digit before or after the decimal point*/
+    if (!has_integer && !has_fraction) {
+      errno = EINVAL;
+
+      END_PROFILE_FUNC();
+      return 0.0;
+    }
+
     /* If we already reached the end*/
-    if (i == card->current_index + value_width || card->string[i] == '\0') {
+    if (i == card->current_index + value_width || card->string[i] == '\0' ||
+        card->string[i] == ' ') {
       fraction /= exponent;
       result += fraction;
       result *= sign;
@@ -1212,7 +1022,7 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
 
   /* Parse exponent part*/
   if (card->string[i] == 'e' || card->string[i] == 'E') {
-    if (!has_integer) {
+    if (!has_integer && !has_fraction) {
       errno = EINVAL;
 
       END_PROFILE_FUNC();
@@ -1220,11 +1030,13 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
     }
 
     i++;
-    if (card->string[i] == '-') {
-      exponent_sign = -1;
-      i++;
-    } else if (card->string[i] == '+') {
-      i++;
+    if (i < card->current_index + value_width) {
+      if (card->string[i] == '-') {
+        exponent_sign = -1;
+        i++;
+      } else if (card->string[i] == '+') {
+        i++;
+      }
     }
 
     if (i == card->current_index + value_width || card->string[i] == '\0' ||
@@ -1246,19 +1058,14 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
       if (card->string[i] >= '0' && card->string[i] <= '9') {
         has_exponent = 1;
 
-        exponent_value = exponent_value * 10 + (card->string[i] - '0');
+        /* Larger exponents result in zero or infinity anyway*/
+        if (exponent_value < 10000) {
+          exponent_value = exponent_value * 10 + (card->string[i] - '0');
+        }
         i++;
       } else if (card->string[i] == ' ') {
         /* Quit when encountering whitespace*/
-        if (has_fraction) {
-          fraction /= exponent;
-          result += fraction;
-        }
-        result *= pow(10, exponent_sign * exponent_value);
-        result *= sign;
-
-        END_PROFILE_FUNC();
-        return result;
+        break;
       } else {
         /* Invalid character*/
         errno = EINVAL;
@@ -1288,7 +1095,7 @@ double card_parse_float64_width(const card_t *card, uint8_t value_width) {
     fraction /= exponent;
     result += fraction;
   }
-  if (has_exponent) {
+  if (has_exponent && result != 0.0) {
     result *= pow(10, exponent_sign * exponent_value);
   }
 
-- 
2.43.0


From d73434fd922197d4d3c6156cca63037d41aa00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 39/92] fix: bounds of extra_string functions

Copying from an offset that is larger than the part on the stack (a keyword
after many spaces) or larger than the extra part accessed memory out of bounds
and comparing used the wrong index for the extra part.
---
 src/extra_string.c | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/extra_string.c b/src/extra_string.c
index 2b26e9e..1c6de20 100644
--- a/src/extra_string.c
+++ b/src/extra_string.c
@@ -44,20 +44,17 @@ void extra_string_set(extra_string *str, size_t index, char value) {
 
 void extra_string_copy(extra_string *dst, const extra_string *src,
                        size_t src_len, size_t offset) {
-  memcpy(dst->buffer, &src->buffer[offset],
-         (EXTRA_STRING_BUFFER_SIZE - offset) * sizeof(char));
-  if (src_len >= EXTRA_STRING_BUFFER_SIZE) {
-    dst->extra = realloc(dst->extra, (src_len - EXTRA_STRING_BUFFER_SIZE + 1) *
-                                         sizeof(char));
-    if (offset != 0) {
-      memcpy(&dst->buffer[EXTRA_STRING_BUFFER_SIZE - offset], src->extra,
-             offset * sizeof(char));
-      memcpy(dst->extra, &src->extra[offset],
-             (src_len - EXTRA_STRING_BUFFER_SIZE + 1 - offset) * sizeof(char));
-    } else {
-      memcpy(dst->extra, src->extra,
-             (src_len - EXTRA_STRING_BUFFER_SIZE + 1) * sizeof(char));
-    }
+  const size_t len = src_len - offset;
+  if (len >= EXTRA_STRING_BUFFER_SIZE) {
+    dst->extra = realloc(dst->extra,
+                         (len - EXTRA_STRING_BUFFER_SIZE + 1) * sizeof(char));
+  }
+
+  /* Also copy the terminating null character*/
+  size_t i = 0;
+  while (i <= len) {
+    extra_string_set(dst, i, extra_string_get(src, i + offset));
+    i++;
   }
 }
 
@@ -68,7 +65,7 @@ void extra_string_copy_to_string(char *dst, const extra_string *src,
   } else {
     memcpy(dst, src->buffer, EXTRA_STRING_BUFFER_SIZE * sizeof(char));
     memcpy(&dst[EXTRA_STRING_BUFFER_SIZE], src->extra,
-           dst_len - EXTRA_STRING_BUFFER_SIZE + 1);
+           dst_len - EXTRA_STRING_BUFFER_SIZE);
   }
 }
 
@@ -84,14 +81,6 @@ int extra_string_compare(const extra_string *lhs, const char *rhs) {
   }
 
   if (i == EXTRA_STRING_BUFFER_SIZE) {
-    if (lhs->extra[i] == '\0' && rhs[i] == '\0') {
-      return 0;
-    }
-
-    if (lhs->extra[i] == '\0') {
-      return -1;
-    }
-
     return strcmp(lhs->extra, &rhs[i]);
   }
 
-- 
2.43.0


From 454b9ac4d9950aaa31ced1e96ce6d37e48a763d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 40/92] fix: reading before the buffer of file names with a
 single character

---
 src/key.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/key.c b/src/key.c
index 8389036..c7494db 100644
--- a/src/key.c
+++ b/src/key.c
@@ -1386,7 +1386,8 @@ int _parse_multi_line_string(string_builder_t *multi_line_string,
   string_builder_append_len(multi_line_string, &card->string[card_string_index],
                             line_length);
 
-  if (multi_line_string->buffer[multi_line_string->ptr - 2] == ' ' &&
+  if (multi_line_string->ptr >= 2 &&
+      multi_line_string->buffer[multi_line_string->ptr - 2] == ' ' &&
       multi_line_string->buffer[multi_line_string->ptr - 1] == '+') {
     /* We have a multi line file name*/
     multi_line_string->ptr -= 2;
@@ -1396,8 +1397,8 @@ int _parse_multi_line_string(string_builder_t *multi_line_string,
   }
 
   /* Trim trailing white space*/
-  while (multi_line_string->buffer[multi_line_string->ptr - 1] == ' ' &&
-         multi_line_string->ptr != 0) {
+  while (multi_line_string->ptr != 0 &&
+         multi_line_string->buffer[multi_line_string->ptr - 1] == ' ') {
     multi_line_string->ptr--;
   }
 
-- 
2.43.0


From 218218d4958e2c7ad8cda11195e12330d1cf2108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 41/92] fix: incomplete multi line file names leaked into the
 next keyword

---
 src/key.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/key.c b/src/key.c
index c7494db..4fa6dc2 100644
--- a/src/key.c
+++ b/src/key.c
@@ -308,6 +308,10 @@ void key_file_parse_with_callback(const char *file_name,
 
     /* ------ 🔑 Keyword Parsing 🔑 --------- */
     if (is_keyword) {
+      /* The last line of the previous keyword may announce another line of its
+       * file name, which does not exist*/
+      string_builder_free(&current_multi_line_string);
+
       /* If we already read a keyword we need to call the callback if the
        * keyword had no cards*/
       if (current_keyword_length != 0 && card_index == 0) {
@@ -666,6 +670,7 @@ void key_file_parse_with_callback(const char *file_name,
     free(rec_ptr);
   }
 
+  string_builder_free(&current_multi_line_string);
   free(line_reader.line.extra);
   free(current_keyword_name.extra);
 
-- 
2.43.0


From 1657d6e6f39702034dd55ef60433e8696b3ca3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 42/92] fix: files without any keyword reported a keyword
 without a name

---
 src/key.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/key.c b/src/key.c
index 4fa6dc2..215e9c6 100644
--- a/src/key.c
+++ b/src/key.c
@@ -623,8 +623,9 @@ void key_file_parse_with_callback(const char *file_name,
             strerror(errno));
   } else {
     /* Call the callback for the last keyword if it is not "END", because some
-     * keywords can have no cards*/
-    if (card_index == 0 &&
+     * keywords can have no cards. If there is no keyword at all, there is
+     * nothing to report*/
+    if (card_index == 0 && current_keyword_length != 0 &&
         (current_keyword_length != 3 ||
          extra_string_compare(&current_keyword_name, "END") != 0)) {
       char *keyword_name;
-- 
2.43.0


From 6dc866b7c73b1eebc533e904fae46548bed5411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 43/92] fix: line number of keywords without cards

It was the line of the next keyword instead.
---
 src/key.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/key.c b/src/key.c
index 215e9c6..a331a55 100644
--- a/src/key.c
+++ b/src/key.c
@@ -326,6 +326,7 @@ void key_file_parse_with_callback(const char *file_name,
         }
 
         KEY_PARSE_INFO();
+        info.line_number = current_keyword_line;
         callback(info, keyword_name, NULL, (size_t)~0, user_data);
 
         if (keyword_name != current_keyword_name.buffer) {
@@ -646,6 +647,9 @@ void key_file_parse_with_callback(const char *file_name,
       }
 
       KEY_PARSE_INFO();
+      if (!card.string) {
+        info.line_number = current_keyword_line;
+      }
       callback(info, keyword_name, card.string ? &card : NULL, (size_t)~0,
                user_data);
 
-- 
2.43.0


From 4829beb8f05d0959624b1a25fd7263aa2351bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 44/92] fix: including files by their absolute file name

---
 src/key.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/key.c b/src/key.c
index a331a55..210a006 100644
--- a/src/key.c
+++ b/src/key.c
@@ -389,8 +389,16 @@ void key_file_parse_with_callback(const char *file_name,
                                          line_reader.line_length)) {
               /* Loop over all include paths and look for the file*/
               char *full_include_file_name = NULL;
+              /* Absolute file names do not depend on the include paths*/
+              if (path_is_abs(current_multi_line_string.buffer) &&
+                  path_is_file(current_multi_line_string.buffer)) {
+                full_include_file_name =
+                    string_clone(current_multi_line_string.buffer);
+              }
+
               size_t i = 0;
-              while (i < rec_ptr->num_include_paths) {
+              while (!full_include_file_name &&
+                     i < rec_ptr->num_include_paths) {
                 full_include_file_name =
                     path_join(rec_ptr->include_paths[i],
                               current_multi_line_string.buffer);
-- 
2.43.0


From ac3865296c8f6fbbe73bafbba67c04539012cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 45/92] fix: endless recursion of key files that include each
 other

---
 src/key.c | 19 +++++++++++++++++--
 src/key.h |  5 +++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/key.c b/src/key.c
index 210a006..b65d848 100644
--- a/src/key.c
+++ b/src/key.c
@@ -214,6 +214,8 @@ void key_file_parse_with_callback(const char *file_name,
     rec_ptr->include_paths = NULL;
     rec_ptr->num_include_paths = 0;
     rec_ptr->extra_include_paths_applied = 0;
+    rec_ptr->depth = 0;
+    rec_ptr->depth_exceeded = 0;
 
     const size_t index = path_move_up_real(file_name);
     if (index == (size_t)~0) {
@@ -267,6 +269,8 @@ void key_file_parse_with_callback(const char *file_name,
     rec_ptr->extra_include_paths_applied = 1;
   }
 
+  rec_ptr->depth++;
+
   line_reader_t line_reader = new_line_reader(file);
   extra_string current_keyword_name;
   current_keyword_name.buffer[0] = '\0';
@@ -280,7 +284,7 @@ void key_file_parse_with_callback(const char *file_name,
   string_builder_t current_multi_line_string = string_builder_new();
 
   /* Loop until all lines have been read or an error occurred*/
-  while (read_line(&line_reader)) {
+  while (!rec_ptr->depth_exceeded && read_line(&line_reader)) {
     line_count++;
 
     /* Check if the line starts with a comment or contains a comment
@@ -411,7 +415,16 @@ void key_file_parse_with_callback(const char *file_name,
                 i++;
               }
 
-              if (full_include_file_name) {
+              if (full_include_file_name &&
+                  rec_ptr->depth == INCLUDE_DEPTH_MAX) {
+                /* Stop parsing all files, since they would include each other
+                 * endlessly*/
+                ERROR_F("%s:%zu: Too many files include each other, can not "
+                        "include \"%s\"",
+                        file_name, line_count, full_include_file_name);
+                rec_ptr->depth_exceeded = 1;
+                free(full_include_file_name);
+              } else if (full_include_file_name) {
                 char *include_error, *include_warning;
                 /* Call the function recursively*/
                 key_file_parse_with_callback(
@@ -670,6 +683,8 @@ void key_file_parse_with_callback(const char *file_name,
     }
   }
 
+  rec_ptr->depth--;
+
   /* Free all recursion data (include paths, root folder)*/
   if (!rec) {
     size_t i = 0;
diff --git a/src/key.h b/src/key.h
index 4c6bade..2ffd52f 100644
--- a/src/key.h
+++ b/src/key.h
@@ -33,6 +33,8 @@
 #define DEFAULT_VALUE_WIDTH 10
 #define NODE_VALUE_WIDTH 8
 #define INCLUDE_FILE_PATH_MAX 236
+/* How many files can include each other*/
+#define INCLUDE_DEPTH_MAX 256
 
 /* The different types a value inside of a card can have*/
 typedef enum {
@@ -80,6 +82,9 @@ typedef struct {
                                function was invoked first*/
   int extra_include_paths_applied; /* Wether the additional include paths of the
                                       parse config have already been applied*/
+  size_t depth; /* How many files are currently being parsed*/
+  int depth_exceeded; /* Wether more than INCLUDE_DEPTH_MAX files included each
+                         other, which means that files include themselves*/
 } key_parse_recursion_t;
 
 /* Returns a key_parse_config_t with all values set to the default*/
-- 
2.43.0


From ad73c8d125dcadd5bea8350d9dc00f1da7536e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 46/92] fix: FCTTEM of INCLUDE_TRANSFORM was not freed

---
 src/include_transform.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include_transform.c b/src/include_transform.c
index 13ca8ac..11d5739 100644
--- a/src/include_transform.c
+++ b/src/include_transform.c
@@ -222,6 +222,10 @@ void key_free_include_transform(include_transform_t *it) {
     free(it->suffix);
   }
 
+  if (it->fcttem) {
+    free(it->fcttem);
+  }
+
   END_PROFILE_FUNC();
 }
 
-- 
2.43.0


From 19f608fcff2c9bdfc3eb9ec7574b719691ae4074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 47/92] fix: numbers like "1." or ".5" in transformation cards
 were ignored

---
 src/include_transform.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/include_transform.c b/src/include_transform.c
index 11d5739..4fd5a44 100644
--- a/src/include_transform.c
+++ b/src/include_transform.c
@@ -26,6 +26,7 @@
 #include "include_transform.h"
 #include "profiling.h"
 #include "string_builder.h"
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -247,18 +248,13 @@ void key_free_define_transformation(define_transformation_t *dt) {
 void _card_try_parse_int(const card_t *card, int64_t *value) {
   BEGIN_PROFILE_FUNC();
 
-  const card_parse_type card_type = card_parse_get_type(card);
-  switch (card_type) {
-  case CARD_PARSE_INT:
+  if (card_parse_get_type(card) == CARD_PARSE_INT) {
     *value = card_parse_int(card);
-    break;
-  case CARD_PARSE_FLOAT: {
+  } else {
     const double float_value = card_parse_float64(card);
-    *value = (int64_t)float_value;
-    break;
-  }
-  default:
-    break;
+    if (errno == 0) {
+      *value = (int64_t)float_value;
+    }
   }
 
   END_PROFILE_FUNC();
@@ -267,15 +263,10 @@ void _card_try_parse_int(const card_t *card, int64_t *value) {
 void _card_try_parse_float64(const card_t *card, double *value) {
   BEGIN_PROFILE_FUNC();
 
-  const card_parse_type card_type = card_parse_get_type(card);
-  switch (card_type) {
-  case CARD_PARSE_INT:
-  case CARD_PARSE_FLOAT:
-    *value = card_parse_float64(card);
-    break;
-  default:
-    break;
+  const double float_value = card_parse_float64(card);
+  if (errno == 0) {
+    *value = float_value;
   }
 
   END_PROFILE_FUNC();
-}
\ No newline at end of file
+}
-- 
2.43.0


From 83766d83ba9cdf883d500681cc9c9eaf44560759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 48/92] fix: joining an empty path read out of bounds

---
 src/path.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/path.c b/src/path.c
index 7380e63..8d87378 100644
--- a/src/path.c
+++ b/src/path.c
@@ -25,6 +25,7 @@
 
 #include "path.h"
 #include "profiling.h"
+#include "string_builder.h"
 #include <assert.h>
 #include <string.h>
 #ifdef _WIN32
@@ -160,6 +161,12 @@ char *path_join(const char *lhs, const char *rhs) {
   const size_t lhs_len = strlen(lhs);
   const size_t rhs_len = strlen(rhs);
 
+  if (lhs_len == 0) {
+    char *rhs_clone = string_clone(rhs);
+    END_PROFILE_FUNC();
+    return rhs_clone;
+  }
+
   size_t i = lhs_len - 1, j = 0;
   /* Loop until the last non path separator has been found*/
   while (lhs[i] == PATH_SEP) {
@@ -195,6 +202,12 @@ char *path_join_real(const char *lhs, const char *rhs) {
   const size_t lhs_len = strlen(lhs);
   const size_t rhs_len = strlen(rhs);
 
+  if (lhs_len == 0) {
+    char *rhs_clone = string_clone(rhs);
+    END_PROFILE_FUNC();
+    return rhs_clone;
+  }
+
   size_t i = lhs_len - 1, j = 0;
   /* Loop until the last non path seperator has been found*/
   while (CHAR_IS_REAL_PATH_SEP(lhs[i])) {
-- 
2.43.0


From e6da70142e126d3acc49919dc5a69f62b707186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 49/92] fix: do not convert transformation numbers that do not
 fit into an integer

---
 src/include_transform.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include_transform.c b/src/include_transform.c
index 4fd5a44..1d1fa11 100644
--- a/src/include_transform.c
+++ b/src/include_transform.c
@@ -252,7 +252,8 @@ void _card_try_parse_int(const card_t *card, int64_t *value) {
     *value = card_parse_int(card);
   } else {
     const double float_value = card_parse_float64(card);
-    if (errno == 0) {
+    /* Values that do not fit into the integer are ignored*/
+    if (errno == 0 && float_value > -9.2e18 && float_value < 9.2e18) {
       *value = (int64_t)float_value;
     }
   }
-- 
2.43.0


From 4e9b9caf83fc0d667a521844ad32aabf11da2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 50/92] fix: assigning to C++ arrays and strings leaks their
 previous data

---
 src/cpp/array.hpp | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index b1884b2..b6b60cd 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -315,11 +315,15 @@ template <typename T>
 Array<T>::Array(T *data, size_t size, bool delete_data) noexcept
     : m_data(data), m_size(size), m_delete_data(delete_data) {}
 
-template <typename T> Array<T>::Array(Array<T> &&rhs) noexcept {
-  *this = std::move(rhs);
+template <typename T>
+Array<T>::Array(Array<T> &&rhs) noexcept
+    : m_data(rhs.m_data), m_size(rhs.m_size), m_delete_data(rhs.m_delete_data) {
+  rhs.m_data = nullptr;
+  rhs.m_size = 0;
+  rhs.m_delete_data = false;
 }
 
-template <typename T> Array<T>::Array(const Array<T> &rhs) noexcept {
+template <typename T> Array<T>::Array(const Array<T> &rhs) noexcept : Array() {
   *this = rhs;
 }
 
@@ -367,22 +371,22 @@ const char &String::operator[](size_t index) const {
 }
 
 template <typename T> Array<T> &Array<T>::operator=(Array<T> &&rhs) noexcept {
-  m_data = rhs.m_data;
-  m_size = rhs.m_size;
-  m_delete_data = rhs.m_delete_data;
-  rhs.m_data = nullptr;
-  rhs.m_size = 0;
-  rhs.m_delete_data = false;
+  // The previous data is freed together with temp
+  Array<T> temp(std::move(rhs));
+  std::swap(m_data, temp.m_data);
+  std::swap(m_size, temp.m_size);
+  std::swap(m_delete_data, temp.m_delete_data);
   return *this;
 }
 
 template <typename T>
 Array<T> &Array<T>::operator=(const Array<T> &rhs) noexcept {
-  m_size = rhs.m_size;
-  m_data = reinterpret_cast<T *>(malloc(m_size * sizeof(T)));
-  memcpy(m_data, rhs.m_data, m_size * sizeof(T));
-  m_delete_data = true;
-  return *this;
+  T *data = nullptr;
+  if (rhs.m_size != 0) {
+    data = reinterpret_cast<T *>(malloc(rhs.m_size * sizeof(T)));
+    memcpy(data, rhs.m_data, rhs.m_size * sizeof(T));
+  }
+  return *this = Array<T>(data, rhs.m_size);
 }
 
 template <typename T> std::string Array<T>::str() const noexcept {
@@ -422,22 +426,17 @@ bool Array<T>::operator==(const Array<T> &rhs) const noexcept {
   return true;
 }
 
-String::String(String &&rhs) noexcept { *this = std::move(rhs); }
+String::String(String &&rhs) noexcept : Array<char>(std::move(rhs)) {}
 
 String::String(const String &rhs) noexcept { *this = rhs; }
 
 String &String::operator=(String &&rhs) noexcept {
-  m_data = rhs.m_data;
-  m_delete_data = rhs.m_delete_data;
-  rhs.m_data = nullptr;
-  rhs.m_delete_data = false;
+  Array<char>::operator=(std::move(rhs));
   return *this;
 }
 
 String &String::operator=(const String &rhs) noexcept {
-  m_data = strdup(rhs.m_data);
-  m_delete_data = true;
-  return *this;
+  return *this = String(rhs.m_data ? strdup(rhs.m_data) : nullptr);
 }
 
 } // namespace dro
-- 
2.43.0


From a164e70122ce74e2f9b22c8d32492a754bcf5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 51/92] fix: iterating over C++ strings ran out of bounds and
 absent strings crashed

---
 src/cpp/array.hpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index b6b60cd..cfde9bc 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -170,30 +170,23 @@ public:
   inline String &operator=(String &&rhs) noexcept;
   inline String &operator=(const String &rhs) noexcept;
 
-  inline size_t size() const noexcept { return strlen(m_data); }
-  inline bool empty() const noexcept { return m_data[0] == '\0'; }
+  // A string without data (e.g. an absent value) is treated as an empty one
+  inline size_t size() const noexcept { return m_data ? strlen(m_data) : 0; }
+  inline bool empty() const noexcept { return !m_data || m_data[0] == '\0'; }
 
-  std::string str() const noexcept { return std::string(m_data); }
+  std::string str() const noexcept { return std::string(c_str()); }
+
+  Iterator begin() noexcept { return Iterator(m_data, 0); }
+  Iterator end() noexcept { return Iterator(m_data, size()); }
+  ConstIterator begin() const noexcept { return ConstIterator(m_data, 0); }
+  ConstIterator end() const noexcept { return ConstIterator(m_data, size()); }
 
   bool operator==(const char *other) const noexcept {
-    size_t i = 0;
-    for (; m_data[i] != '\0' && other[i] != '\0'; i++) {
-      if (m_data[i] != other[i]) {
-        return false;
-      }
-    }
-    return m_data[i] == '\0' && other[i] == '\0';
+    return strcmp(c_str(), other) == 0;
   }
 
   bool operator==(const String &rhs) const noexcept {
-    size_t i = 0;
-    for (; m_data[i] != '\0' && rhs.m_data[i] != '\0'; i++) {
-      if (m_data[i] != rhs.m_data[i]) {
-        return false;
-      }
-    }
-
-    return m_data[i] == '\0' && rhs.m_data[i] == '\0';
+    return operator==(rhs.c_str());
   }
 
   bool operator==(const std::string &rhs) const noexcept {
@@ -202,6 +195,9 @@ public:
 
   inline char &operator[](size_t index) override;
   inline const char &operator[](size_t index) const override;
+
+private:
+  inline const char *c_str() const noexcept { return m_data ? m_data : ""; }
 };
 
 class SizedString : public Array<char> {
@@ -266,7 +262,7 @@ inline bool operator==(const SizedString &str2, const String &str1) noexcept {
 }
 
 static std::ostream &operator<<(std::ostream &stream, const String &str) {
-  return stream << str.data();
+  return str.data() ? stream << str.data() : stream;
 }
 
 static std::ostream &operator<<(std::ostream &stream, const SizedString &str) {
@@ -351,7 +347,7 @@ template <typename T> const T &Array<T>::operator[](size_t index) const {
 }
 
 char &String::operator[](size_t index) {
-  for (size_t i = 0; m_data[i] != '\0'; i++) {
+  for (size_t i = 0; m_data && m_data[i] != '\0'; i++) {
     if (i == index) {
       return m_data[i];
     }
@@ -361,7 +357,7 @@ char &String::operator[](size_t index) {
 }
 
 const char &String::operator[](size_t index) const {
-  for (size_t i = 0; m_data[i] != '\0'; i++) {
+  for (size_t i = 0; m_data && m_data[i] != '\0'; i++) {
     if (i == index) {
       return m_data[i];
     }
-- 
2.43.0


From a0d370efb0980fe8708c5105a162ac86a31bc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 52/92] fix: comparing String with SizedString

---
 src/cpp/array.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index cfde9bc..cacfbfb 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -247,14 +247,9 @@ public:
 };
 
 static bool operator==(const String &str1, const SizedString &str2) noexcept {
-  size_t i = 0;
-  for (; i < str1.data()[i] != '\0' && i < str2.size(); i++) {
-    if (str1[i] != str2[i]) {
-      return false;
-    }
-  }
-
-  return i == str2.size() && str1.data()[i] == '\0';
+  const size_t size = str1.size();
+  return size == str2.size() &&
+         (size == 0 || memcmp(str1.data(), str2.data(), size) == 0);
 }
 
 inline bool operator==(const SizedString &str2, const String &str1) noexcept {
-- 
2.43.0


From c8c663c510c75611155440f62e2013f865931556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 53/92] fix: comparing strings with std::string that contain
 null characters

---
 src/cpp/array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index cacfbfb..6c848c3 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -190,7 +190,7 @@ public:
   }
 
   bool operator==(const std::string &rhs) const noexcept {
-    return operator==(rhs.c_str());
+    return rhs == c_str();
   }
 
   inline char &operator[](size_t index) override;
@@ -242,7 +242,8 @@ public:
   }
 
   bool operator==(const std::string &rhs) const noexcept {
-    return operator==(rhs.c_str());
+    return m_size == rhs.size() &&
+           (m_size == 0 || memcmp(m_data, rhs.data(), m_size) == 0);
   }
 };
 
-- 
2.43.0


From 55b29f0b8d4e23e96c988b216bc5ce8a49889ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 54/92] fix: messages of exceptions referred to memory of the
 closed file

---
 src/cpp/binout.cpp | 4 +++-
 src/cpp/d3plot.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpp/binout.cpp b/src/cpp/binout.cpp
index a95444c..ecfcb24 100644
--- a/src/cpp/binout.cpp
+++ b/src/cpp/binout.cpp
@@ -30,7 +30,9 @@
 namespace dro {
 
 Binout::Exception::Exception(Binout::Exception::ErrorString error_str) noexcept
-    : m_error_str(std::move(error_str)) {}
+    // Always copy, since error_str may refer to memory of the binout file, which
+    // may be closed while the exception is being thrown
+    : m_error_str(error_str) {}
 
 const char *Binout::Exception::what() const noexcept {
   return m_error_str.data();
diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index fea38c7..b1ec17d 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -29,7 +29,9 @@
 namespace dro {
 
 D3plot::Exception::Exception(D3plot::Exception::ErrorString error_str) noexcept
-    : m_error_str(std::move(error_str)) {}
+    // Always copy, since error_str may refer to memory of the d3plot file, which
+    // may be closed while the exception is being thrown
+    : m_error_str(error_str) {}
 
 const char *D3plot::Exception::what() const noexcept {
   return m_error_str.data();
-- 
2.43.0


From 05f68eed520a2a650bc0cd5a64ac40b38a5d8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 55/92] fix: long names overflowed the buffers of error
 messages

---
 src/cpp/key.hpp                | 4 ++--
 src/python/pybind11_binout.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/key.hpp b/src/cpp/key.hpp
index d215c5a..3b7a498 100644
--- a/src/cpp/key.hpp
+++ b/src/cpp/key.hpp
@@ -42,9 +42,9 @@
 #include <vector>
 
 #define THROW_KEY_FILE_EXCEPTION(msg, ...)                                     \
-  const int error_buffer_size = 1024;                                          \
+  const int error_buffer_size = snprintf(nullptr, 0, msg, __VA_ARGS__) + 1;    \
   char *error_buffer = reinterpret_cast<char *>(malloc(error_buffer_size));    \
-  sprintf(error_buffer, msg, __VA_ARGS__);                                     \
+  snprintf(error_buffer, error_buffer_size, msg, __VA_ARGS__);                 \
   throw dro::KeyFile::Exception(                                               \
       dro::KeyFile::Exception::ErrorString(error_buffer))
 
diff --git a/src/python/pybind11_binout.cpp b/src/python/pybind11_binout.cpp
index 8de0bfd..b351395 100644
--- a/src/python/pybind11_binout.cpp
+++ b/src/python/pybind11_binout.cpp
@@ -84,7 +84,7 @@ Binout_read(dro::Binout &self, std::string path) {
     case dro::BinoutType::Float64:
       return RDRT((self.read_timed<double>(real_path)));
     default:
-      error_buffer = (char *)malloc(1024);
+      error_buffer = (char *)malloc(256 + path.length());
       sprintf(error_buffer,
               "Unable to read \"%s\" because it has an invalid type",
               path.c_str());
-- 
2.43.0


From a21300355f156c58b79a4df46996e92c374630d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 56/92] fix: titles with spaces were cut and titles without
 were read out of bounds

---
 src/cpp/d3plot.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index b1ec17d..555f2b6 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -145,9 +145,9 @@ std::vector<SizedString> D3plot::read_part_titles() {
   vec.reserve(num_parts);
   for (size_t i = 0; i < num_parts; i++) {
     // Trim part titles
-    size_t j = 0;
-    while (part_titles[i][j] != ' ') {
-      j++;
+    size_t j = strlen(part_titles[i]);
+    while (j != 0 && part_titles[i][j - 1] == ' ') {
+      j--;
     }
 
     vec.emplace_back(part_titles[i], j);
@@ -444,9 +444,9 @@ SizedString D3plot::read_title() {
   }
 
   // Trim whitespace
-  size_t j = 0;
-  while (title[j] != ' ') {
-    j++;
+  size_t j = strlen(title);
+  while (j != 0 && title[j - 1] == ' ') {
+    j--;
   }
 
   return SizedString(title, j);
-- 
2.43.0


From 41436870444be1ff050df8c4c22aed6056a5f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 57/92] fix: copying a D3plotPart did not copy the thick shell
 indices

---
 src/cpp/d3plot_part.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpp/d3plot_part.cpp b/src/cpp/d3plot_part.cpp
index cff1a21..8075cbc 100644
--- a/src/cpp/d3plot_part.cpp
+++ b/src/cpp/d3plot_part.cpp
@@ -55,13 +55,13 @@ D3plotPart &D3plotPart::operator=(const D3plotPart &rhs) noexcept {
   m_part.shell_ids =
       reinterpret_cast<d3_word *>(malloc(m_part.num_shells * sizeof(d3_word)));
   m_part.solid_indices =
-      reinterpret_cast<size_t *>(malloc(m_part.num_solids * sizeof(d3_word)));
-  m_part.thick_shell_ids = reinterpret_cast<d3_word *>(
-      malloc(m_part.num_thick_shells * sizeof(d3_word)));
+      reinterpret_cast<size_t *>(malloc(m_part.num_solids * sizeof(size_t)));
+  m_part.thick_shell_indices = reinterpret_cast<size_t *>(
+      malloc(m_part.num_thick_shells * sizeof(size_t)));
   m_part.beam_indices =
-      reinterpret_cast<size_t *>(malloc(m_part.num_beams * sizeof(d3_word)));
+      reinterpret_cast<size_t *>(malloc(m_part.num_beams * sizeof(size_t)));
   m_part.shell_indices =
-      reinterpret_cast<size_t *>(malloc(m_part.num_shells * sizeof(d3_word)));
+      reinterpret_cast<size_t *>(malloc(m_part.num_shells * sizeof(size_t)));
 
   if (m_part.num_solids) {
     memcpy(m_part.solid_ids, rhs.m_part.solid_ids,
-- 
2.43.0


From ae3e4a91a7133b02ff878972a91c397802f5ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 58/92] fix: the thick shells were used as solids when querying
 nodes of a D3plotPart

---
 src/cpp/d3plot_part.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/d3plot_part.cpp b/src/cpp/d3plot_part.cpp
index 8075cbc..60865bf 100644
--- a/src/cpp/d3plot_part.cpp
+++ b/src/cpp/d3plot_part.cpp
@@ -141,7 +141,7 @@ Array<d3_word> D3plotPart::get_node_ids(
       shell_ids ? shell_ids->data() : NULL, shell_ids ? shell_ids->size() : 0,
       thick_shell_ids ? thick_shell_ids->data() : NULL,
       thick_shell_ids ? thick_shell_ids->size() : 0,
-      thick_shell_cons ? thick_shell_cons->data() : NULL,
+      solid_cons ? solid_cons->data() : NULL,
       beam_cons ? beam_cons->data() : NULL,
       shell_cons ? shell_cons->data() : NULL,
       thick_shell_cons ? thick_shell_cons->data() : NULL);
@@ -169,7 +169,7 @@ Array<d3_word> D3plotPart::get_node_indices(
       shell_ids ? shell_ids->data() : NULL, shell_ids ? shell_ids->size() : 0,
       thick_shell_ids ? thick_shell_ids->data() : NULL,
       thick_shell_ids ? thick_shell_ids->size() : 0,
-      thick_shell_cons ? thick_shell_cons->data() : NULL,
+      solid_cons ? solid_cons->data() : NULL,
       beam_cons ? beam_cons->data() : NULL,
       shell_cons ? shell_cons->data() : NULL,
       thick_shell_cons ? thick_shell_cons->data() : NULL);
@@ -196,7 +196,7 @@ size_t D3plotPart::get_num_nodes(
       shell_ids ? shell_ids->size() : 0,
       thick_shell_ids ? thick_shell_ids->data() : NULL,
       thick_shell_ids ? thick_shell_ids->size() : 0,
-      thick_shell_cons ? thick_shell_cons->data() : NULL,
+      solid_cons ? solid_cons->data() : NULL,
       beam_cons ? beam_cons->data() : NULL,
       shell_cons ? shell_cons->data() : NULL,
       thick_shell_cons ? thick_shell_cons->data() : NULL);
-- 
2.43.0


From ca6eef12a2f72aff7c4b8564c2d7ea813602078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 59/92] fix: the include paths of ParseConfig were not freed

---
 src/cpp/key.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpp/key.cpp b/src/cpp/key.cpp
index 8fec482..973394f 100644
--- a/src/cpp/key.cpp
+++ b/src/cpp/key.cpp
@@ -256,6 +256,9 @@ KeyFile::ParseConfig::ParseConfig(const ParseConfig &rhs) noexcept {
 }
 
 KeyFile::ParseConfig::~ParseConfig() noexcept {
+  for (size_t i = 0; i < m_handle.num_extra_include_paths; i++) {
+    free(m_handle.extra_include_paths[i]);
+  }
   free(m_handle.extra_include_paths);
 }
 
-- 
2.43.0


From 39b7d80f3bb12971a98effd0a8ea42116f353a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 60/92] fix: assigning to C++ handle classes leaked or freed
 uninitialised handles

---
 src/cpp/binout.cpp            | 11 ++++++---
 src/cpp/d3plot.cpp            | 11 ++++++---
 src/cpp/d3plot_part.cpp       | 20 ++++++++++++----
 src/cpp/include_transform.cpp | 45 +++++++++++++++++++++++++----------
 src/cpp/key.cpp               | 31 ++++++++++++++----------
 5 files changed, 84 insertions(+), 34 deletions(-)

diff --git a/src/cpp/binout.cpp b/src/cpp/binout.cpp
index ecfcb24..aec6d42 100644
--- a/src/cpp/binout.cpp
+++ b/src/cpp/binout.cpp
@@ -38,7 +38,9 @@ const char *Binout::Exception::what() const noexcept {
   return m_error_str.data();
 }
 
-Binout::Binout(Binout &&rhs) noexcept { *this = std::move(rhs); }
+Binout::Binout(Binout &&rhs) noexcept : m_handle(rhs.m_handle) {
+  rhs.m_handle = {0};
+}
 
 Binout::Binout(const fs::path &file_name) {
   m_handle = binout_open(file_name.string().c_str());
@@ -53,8 +55,11 @@ Binout::Binout(const fs::path &file_name) {
 Binout::~Binout() noexcept { binout_close(&m_handle); }
 
 Binout &Binout::operator=(Binout &&rhs) noexcept {
-  m_handle = rhs.m_handle;
-  rhs.m_handle = {0};
+  if (this != &rhs) {
+    binout_close(&m_handle);
+    m_handle = rhs.m_handle;
+    rhs.m_handle = {0};
+  }
   return *this;
 }
 
diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index 555f2b6..6e639e3 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -41,7 +41,9 @@ size_t D3plot::index_for_id(const Array<d3_word> &ids, d3_word id) {
   return d3plot_index_for_id(id, ids.data(), ids.size());
 }
 
-D3plot::D3plot(D3plot &&rhs) noexcept { *this = std::move(rhs); }
+D3plot::D3plot(D3plot &&rhs) noexcept : m_handle(rhs.m_handle) {
+  rhs.m_handle = {0};
+}
 
 D3plot::D3plot(const fs::path &root_file_name) {
   m_handle = d3plot_open(root_file_name.string().c_str());
@@ -59,8 +61,11 @@ D3plot::D3plot(const fs::path &root_file_name) {
 D3plot::~D3plot() noexcept { d3plot_close(&m_handle); }
 
 D3plot &D3plot::operator=(D3plot &&rhs) noexcept {
-  m_handle = rhs.m_handle;
-  rhs.m_handle = {0};
+  if (this != &rhs) {
+    d3plot_close(&m_handle);
+    m_handle = rhs.m_handle;
+    rhs.m_handle = {0};
+  }
   return *this;
 }
 
diff --git a/src/cpp/d3plot_part.cpp b/src/cpp/d3plot_part.cpp
index 60865bf..465406a 100644
--- a/src/cpp/d3plot_part.cpp
+++ b/src/cpp/d3plot_part.cpp
@@ -29,21 +29,33 @@
 
 namespace dro {
 
-D3plotPart::D3plotPart(D3plotPart &&rhs) noexcept { *this = std::move(rhs); }
+D3plotPart::D3plotPart(D3plotPart &&rhs) noexcept : m_part(rhs.m_part) {
+  rhs.m_part = {0};
+}
 
-D3plotPart::D3plotPart(const D3plotPart &rhs) noexcept { *this = rhs; }
+D3plotPart::D3plotPart(const D3plotPart &rhs) noexcept : m_part{0} {
+  *this = rhs;
+}
 
 D3plotPart::D3plotPart(const d3plot_part &part) noexcept : m_part(part) {}
 
 D3plotPart::~D3plotPart() noexcept { d3plot_free_part(&m_part); }
 
 D3plotPart &D3plotPart::operator=(D3plotPart &&rhs) noexcept {
-  m_part = rhs.m_part;
-  rhs.m_part = {0};
+  if (this != &rhs) {
+    d3plot_free_part(&m_part);
+    m_part = rhs.m_part;
+    rhs.m_part = {0};
+  }
   return *this;
 }
 
 D3plotPart &D3plotPart::operator=(const D3plotPart &rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
+
+  d3plot_free_part(&m_part);
   m_part = rhs.m_part;
 
   m_part.solid_ids =
diff --git a/src/cpp/include_transform.cpp b/src/cpp/include_transform.cpp
index a7f7955..cf74286 100644
--- a/src/cpp/include_transform.cpp
+++ b/src/cpp/include_transform.cpp
@@ -5,11 +5,13 @@ namespace dro {
 
 IncludeTransform::IncludeTransform() noexcept { m_handle = {0}; }
 
-IncludeTransform::IncludeTransform(IncludeTransform &&rhs) noexcept {
-  *this = std::move(rhs);
+IncludeTransform::IncludeTransform(IncludeTransform &&rhs) noexcept
+    : m_handle(rhs.m_handle) {
+  rhs.m_handle = {0};
 }
 
-IncludeTransform::IncludeTransform(const IncludeTransform &rhs) noexcept {
+IncludeTransform::IncludeTransform(const IncludeTransform &rhs) noexcept
+    : m_handle{0} {
   *this = rhs;
 }
 
@@ -22,15 +24,24 @@ IncludeTransform::~IncludeTransform() noexcept {
 }
 
 IncludeTransform &IncludeTransform::operator=(IncludeTransform &&rhs) noexcept {
-  m_handle = rhs.m_handle;
-  rhs.m_handle = {0};
+  if (this != &rhs) {
+    key_free_include_transform(&m_handle);
+    m_handle = rhs.m_handle;
+    rhs.m_handle = {0};
+  }
   return *this;
 }
 
 IncludeTransform &
 IncludeTransform::operator=(const IncludeTransform &rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
+
+  key_free_include_transform(&m_handle);
   m_handle = rhs.m_handle;
-  m_handle.file_name = strdup(rhs.m_handle.file_name);
+  if (rhs.m_handle.file_name)
+    m_handle.file_name = strdup(rhs.m_handle.file_name);
   if (rhs.m_handle.prefix)
     m_handle.prefix = strdup(rhs.m_handle.prefix);
   if (rhs.m_handle.suffix)
@@ -63,13 +74,14 @@ TransformationOption::operator=(TransformationOption &&rhs) noexcept {
 
 DefineTransformation::DefineTransformation() noexcept { m_handle = {0}; }
 
-DefineTransformation::DefineTransformation(
-    DefineTransformation &&rhs) noexcept {
-  *this = std::move(rhs);
+DefineTransformation::DefineTransformation(DefineTransformation &&rhs) noexcept
+    : m_handle(rhs.m_handle) {
+  rhs.m_handle = {0};
 }
 
 DefineTransformation::DefineTransformation(
-    const DefineTransformation &rhs) noexcept {
+    const DefineTransformation &rhs) noexcept
+    : m_handle{0} {
   *this = rhs;
 }
 
@@ -85,13 +97,22 @@ DefineTransformation::~DefineTransformation() noexcept {
 
 DefineTransformation &
 DefineTransformation::operator=(DefineTransformation &&rhs) noexcept {
-  m_handle = rhs.m_handle;
-  rhs.m_handle = {0};
+  if (this != &rhs) {
+    key_free_define_transformation(&m_handle);
+    m_handle = rhs.m_handle;
+    rhs.m_handle = {0};
+  }
   return *this;
 }
 
 DefineTransformation &
 DefineTransformation::operator=(const DefineTransformation &rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
+
+  key_free_define_transformation(&m_handle);
+  m_handle = {0};
   m_handle.tranid = rhs.m_handle.tranid;
   if (rhs.m_handle.title) {
     m_handle.title = strdup(rhs.m_handle.title);
diff --git a/src/cpp/key.cpp b/src/cpp/key.cpp
index 973394f..ba698be 100644
--- a/src/cpp/key.cpp
+++ b/src/cpp/key.cpp
@@ -35,9 +35,13 @@ template <> constexpr bool is_string_v<String> = true;
 template <> constexpr bool is_string_v<SizedString> = true;
 template <> constexpr bool is_string_v<std::string> = true;
 
-Card::Card(Card &&rhs) noexcept { *this = std::move(rhs); }
+Card::Card(Card &&rhs) noexcept
+    : m_handle(rhs.m_handle), m_delete_handle(rhs.m_delete_handle) {
+  rhs.m_handle = nullptr;
+  rhs.m_delete_handle = false;
+}
 
-Card::Card(const Card &rhs) noexcept { *this = rhs; }
+Card::Card(const Card &rhs) noexcept : Card(nullptr) { *this = rhs; }
 
 Card::Card(card_t *handle) noexcept
     : m_handle(handle), m_delete_handle(false) {}
@@ -51,20 +55,23 @@ Card::~Card() noexcept {
 }
 
 Card &Card::operator=(Card &&rhs) noexcept {
-  m_handle = rhs.m_handle;
-  m_delete_handle = rhs.m_delete_handle;
-  rhs.m_handle = nullptr;
-  rhs.m_delete_handle = false;
+  // The previous handle is freed together with temp
+  Card temp(std::move(rhs));
+  std::swap(m_handle, temp.m_handle);
+  std::swap(m_delete_handle, temp.m_delete_handle);
   return *this;
 }
 
 Card &Card::operator=(const Card &rhs) noexcept {
-  m_handle = reinterpret_cast<card_t *>(malloc(sizeof(card_t)));
-  m_handle->string = strdup(rhs.m_handle->string);
-  m_handle->value_width = rhs.m_handle->value_width;
-  m_handle->current_index = rhs.m_handle->current_index;
-  m_delete_handle = true;
-  return *this;
+  Card copy(nullptr);
+  if (rhs.m_handle) {
+    copy.m_handle = reinterpret_cast<card_t *>(malloc(sizeof(card_t)));
+    copy.m_handle->string = strdup(rhs.m_handle->string);
+    copy.m_handle->value_width = rhs.m_handle->value_width;
+    copy.m_handle->current_index = rhs.m_handle->current_index;
+    copy.m_delete_handle = true;
+  }
+  return *this = std::move(copy);
 }
 
 void Card::begin(uint8_t value_width) noexcept {
-- 
2.43.0


From 0facb3e6ed873588e020009cfece6dedcd13b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 61/92] fix: integration points and history variables of C++
 beam states leaked

---
 src/cpp/d3plot.cpp | 5 +++--
 src/cpp/d3plot.hpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index 6e639e3..c72ae23 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -375,7 +375,7 @@ Array<D3plotThickShell> D3plot::read_thick_shells_state(size_t state) {
                                  num_elements);
 }
 
-Array<d3plot_beam> D3plot::read_beams_state(size_t state) {
+Array<D3plotBeam> D3plot::read_beams_state(size_t state) {
   size_t num_elements;
   d3plot_beam *elements =
       d3plot_read_beams_state(&m_handle, state, &num_elements);
@@ -383,7 +383,8 @@ Array<d3plot_beam> D3plot::read_beams_state(size_t state) {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  return Array<d3plot_beam>(elements, num_elements);
+  return Array<D3plotBeam>(reinterpret_cast<D3plotBeam *>(elements),
+                           num_elements);
 }
 
 Array<D3plotShell> D3plot::read_shells_state(size_t state) {
diff --git a/src/cpp/d3plot.hpp b/src/cpp/d3plot.hpp
index d3e4aef..fd47890 100644
--- a/src/cpp/d3plot.hpp
+++ b/src/cpp/d3plot.hpp
@@ -128,7 +128,7 @@ public:
   // Returns Axial Force, S shear resultant, T shear resultant, S bending
   // moment, T bending moment and Torsional resultant of all beams for a given
   // state
-  Array<d3plot_beam> read_beams_state(size_t state);
+  Array<D3plotBeam> read_beams_state(size_t state);
   // Returns stress, strain (if ISTRN == 1) and some other variables (see docs
   // pg. 36) of all shells for a given state
   Array<D3plotShell> read_shells_state(size_t state);
-- 
2.43.0


From 4fef607cc6e2b4e9f006ee7f99d49d70639668ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 62/92] fix: all time steps of C++ arrays referred to the
 memory of the first one

---
 src/cpp/array.hpp  | 16 ++++++++++++++++
 src/cpp/binout.cpp |  8 +-------
 src/cpp/d3plot.cpp | 36 ++++++------------------------------
 3 files changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index 6c848c3..bfc12d1 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -34,6 +34,7 @@
 #include <string>
 #include <type_traits>
 #include <utility>
+#include <vector>
 
 namespace dro {
 
@@ -145,6 +146,9 @@ public:
   size_t size() const noexcept { return m_size; }
   bool empty() const noexcept { return m_size == 0; }
 
+  // Copies the array into a number of arrays with the same size
+  std::vector<Array<T>> split(size_t num) const;
+
   // Convert the array to a std::string. Only works for uint8_t, int8_t and
   // char
   std::string str() const noexcept;
@@ -381,6 +385,18 @@ Array<T> &Array<T>::operator=(const Array<T> &rhs) noexcept {
   return *this = Array<T>(data, rhs.m_size);
 }
 
+template <typename T>
+std::vector<Array<T>> Array<T>::split(size_t num) const {
+  std::vector<Array<T>> parts;
+  parts.reserve(num);
+  for (size_t i = 0; i < num; i++) {
+    const size_t part_size = m_size / num;
+    const Array<T> part(m_data + i * part_size, part_size, false);
+    parts.push_back(part);
+  }
+  return parts;
+}
+
 template <typename T> std::string Array<T>::str() const noexcept {
   static_assert(std::is_same_v<T, char> || std::is_same_v<T, int8_t> ||
                 std::is_same_v<T, uint8_t>);
diff --git a/src/cpp/binout.cpp b/src/cpp/binout.cpp
index aec6d42..0b74843 100644
--- a/src/cpp/binout.cpp
+++ b/src/cpp/binout.cpp
@@ -185,13 +185,7 @@ Binout_read_timed(Binout &bin_file,
         bin_file.get_handle().error_string, false));
   }
 
-  std::vector<Array<T>> vec(num_timesteps);
-
-  for (size_t t = 0; t < num_timesteps; t++) {
-    vec[t] = Array<T>(&data[t * num_values], num_values, t == 0);
-  }
-
-  return vec;
+  return Array<T>(data, num_values * num_timesteps).split(num_timesteps);
 }
 
 template <>
diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index c72ae23..0caa30a 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -181,11 +181,7 @@ std::vector<Array<dVec3>> D3plot::read_all_node_coordinates() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<dVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<dVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<dVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 Array<dVec3> D3plot::read_node_velocity(size_t state) {
@@ -207,11 +203,7 @@ std::vector<Array<dVec3>> D3plot::read_all_node_velocity() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<dVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<dVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<dVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 Array<dVec3> D3plot::read_node_acceleration(size_t state) {
@@ -233,11 +225,7 @@ std::vector<Array<dVec3>> D3plot::read_all_node_acceleration() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<dVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<dVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<dVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 Array<fVec3> D3plot::read_node_coordinates_32(size_t state) {
@@ -259,11 +247,7 @@ std::vector<Array<fVec3>> D3plot::read_all_node_coordinates_32() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<fVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<fVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<fVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 Array<fVec3> D3plot::read_node_velocity_32(size_t state) {
@@ -285,11 +269,7 @@ std::vector<Array<fVec3>> D3plot::read_all_node_velocity_32() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<fVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<fVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<fVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 Array<fVec3> D3plot::read_node_acceleration_32(size_t state) {
@@ -311,11 +291,7 @@ std::vector<Array<fVec3>> D3plot::read_all_node_acceleration_32() {
     throw Exception(Exception::ErrorString(m_handle.error_string, false));
   }
 
-  std::vector<Array<fVec3>> time_steps(num_time_steps);
-  for (size_t t = 0; t < num_time_steps; t++) {
-    time_steps[t] = Array<fVec3>(&nodes[t * num_nodes], num_nodes, t == 0);
-  }
-  return time_steps;
+  return Array<fVec3>(nodes, num_nodes * num_time_steps).split(num_time_steps);
 }
 
 double D3plot::read_time(size_t state) {
-- 
2.43.0


From aa4126f237907b0256d6f83ba71c73abd6f2a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 63/92] fix: ownership of the history variables of mean
 surfaces

---
 src/cpp/d3plot_state.cpp | 25 +++++++++++++++++++------
 src/cpp/d3plot_state.hpp |  7 +++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/cpp/d3plot_state.cpp b/src/cpp/d3plot_state.cpp
index f0af9ff..4a48790 100644
--- a/src/cpp/d3plot_state.cpp
+++ b/src/cpp/d3plot_state.cpp
@@ -29,14 +29,28 @@
 
 namespace dro {
 
+D3plotSurface::D3plotSurface(const d3plot_surface &surface) noexcept
+    : d3plot_surface(surface) {}
+
+D3plotSurface::D3plotSurface(D3plotSurface &&rhs) noexcept
+    : d3plot_surface(rhs) {
+  rhs.history_variables = nullptr;
+}
+
+D3plotSurface &D3plotSurface::operator=(D3plotSurface &&rhs) noexcept {
+  // The previous history variables are freed by rhs
+  std::swap(static_cast<d3plot_surface &>(*this),
+            static_cast<d3plot_surface &>(rhs));
+  return *this;
+}
+
 D3plotSurface::~D3plotSurface() noexcept {
   d3plot_free_surface(*static_cast<d3plot_surface *>(this));
 }
 
 D3plotSurface D3plotShell::get_mean() const noexcept {
-  d3plot_surface ip =
-      d3plot_get_shell_mean(static_cast<const d3plot_shell *>(this));
-  return *static_cast<D3plotSurface *>(&ip);
+  return D3plotSurface(
+      d3plot_get_shell_mean(static_cast<const d3plot_shell *>(this)));
 }
 
 template <> Array<D3plotShell>::~Array<D3plotShell>() noexcept {
@@ -69,9 +83,8 @@ D3plotShell::get_add_ip_history_variables(size_t add_idx) const {
 }
 
 D3plotSurface D3plotThickShell::get_mean() const noexcept {
-  d3plot_surface ip = d3plot_get_thick_shell_mean(
-      static_cast<const d3plot_thick_shell *>(this));
-  return *static_cast<D3plotSurface *>(&ip);
+  return D3plotSurface(d3plot_get_thick_shell_mean(
+      static_cast<const d3plot_thick_shell *>(this)));
 }
 
 template <> Array<D3plotThickShell>::~Array<D3plotThickShell>() noexcept {
diff --git a/src/cpp/d3plot_state.hpp b/src/cpp/d3plot_state.hpp
index 6aa570e..3fee5c7 100644
--- a/src/cpp/d3plot_state.hpp
+++ b/src/cpp/d3plot_state.hpp
@@ -32,7 +32,14 @@ namespace dro {
 
 class D3plotSurface : public d3plot_surface {
 public:
+  // Takes ownership over the history variables of surface
+  explicit D3plotSurface(const d3plot_surface &surface) noexcept;
+  D3plotSurface(D3plotSurface &&rhs) noexcept;
+  D3plotSurface(const D3plotSurface &rhs) = delete;
   virtual ~D3plotSurface() noexcept;
+
+  D3plotSurface &operator=(D3plotSurface &&rhs) noexcept;
+  D3plotSurface &operator=(const D3plotSurface &rhs) = delete;
 };
 
 class D3plotShell : public d3plot_shell {
-- 
2.43.0


From 35c5e965ce6ebe1ad7d14082fe2e9d346572844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 64/92] fix: parsing a card value that is not a number did not
 throw an exception

---
 src/cpp/key.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cpp/key.hpp b/src/cpp/key.hpp
index 3b7a498..d935c36 100644
--- a/src/cpp/key.hpp
+++ b/src/cpp/key.hpp
@@ -28,8 +28,10 @@
 #include "array.hpp"
 #include "filesystem_bridge.hpp"
 #include <array>
+#include <cerrno>
 #include <cstdio>
 #include <cstdlib>
+#include <cstring>
 #include <exception>
 #include <functional>
 #include <key.h>
@@ -393,6 +395,10 @@ template <typename T> T Card::parse() const {
 template <typename T> T Card::parse(uint8_t value_width) const {
   if constexpr (std::is_integral_v<T>) {
     const auto value = card_parse_int_width(m_handle, value_width);
+    if (errno != 0) {
+      THROW_KEY_FILE_EXCEPTION("Can not parse the value as %s: %s",
+                               typeid(T).name(), strerror(errno));
+    }
     if (value < 0 && std::is_unsigned_v<T>) {
       THROW_KEY_FILE_EXCEPTION("Can not convert %lld into %s because of sign",
                                value, typeid(T).name());
@@ -414,6 +420,10 @@ template <typename T> T Card::parse(uint8_t value_width) const {
   } else if constexpr (std::is_floating_point_v<T>) {
     if constexpr (sizeof(T) == sizeof(float)) {
       const auto value = card_parse_float32_width(m_handle, value_width);
+      if (errno != 0) {
+        THROW_KEY_FILE_EXCEPTION("Can not parse the value as %s: %s",
+                                 typeid(T).name(), strerror(errno));
+      }
       if (value < 0.0f && std::is_unsigned_v<T>) {
         THROW_KEY_FILE_EXCEPTION("Can not convert %f into %s because of sign",
                                  value, typeid(T).name());
@@ -421,6 +431,10 @@ template <typename T> T Card::parse(uint8_t value_width) const {
       return value;
     } else {
       const auto value = card_parse_float64_width(m_handle, value_width);
+      if (errno != 0) {
+        THROW_KEY_FILE_EXCEPTION("Can not parse the value as %s: %s",
+                                 typeid(T).name(), strerror(errno));
+      }
       if (value < 0.0 && std::is_unsigned_v<T>) {
         THROW_KEY_FILE_EXCEPTION("Can not convert %f into %s because of sign",
                                  value, typeid(T).name());
-- 
2.43.0


From 86f1a1ba8c851ad1777b9cc3fff0af8d70cac42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 65/92] fix: exceptions thrown by key file callbacks leaked the
 parser

---
 src/cpp/key.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/cpp/key.cpp b/src/cpp/key.cpp
index ba698be..1cbe3e7 100644
--- a/src/cpp/key.cpp
+++ b/src/cpp/key.cpp
@@ -309,20 +309,33 @@ void KeyFile::parse_with_callback(const fs::path &file_name,
                                   std::optional<dro::String> *warnings) {
   char *error_string, *warning_string;
 
+  // Exceptions must not be thrown through the C functions, since they would not
+  // be able to release their memory and files
+  struct UserData {
+    KeyFile::Callback &callback;
+    std::exception_ptr exception;
+  } user_data{callback, nullptr};
+
   key_file_parse_with_callback(
       file_name.string().c_str(),
       [](key_parse_info_t info, const char *keyword_name, card_t *card,
-         size_t card_index, void *user_data) {
-        KeyFile::Callback *callback =
-            reinterpret_cast<KeyFile::Callback *>(user_data);
-
-        auto card_opt = card ? std::make_optional<Card>(card) : std::nullopt;
-
-        (*callback)(ParseInfo(&info),
-                    String(const_cast<char *>(keyword_name), false),
-                    std::move(card_opt), card_index);
+         size_t card_index, void *user_data_ptr) {
+        UserData *user_data = reinterpret_cast<UserData *>(user_data_ptr);
+        if (user_data->exception) {
+          return;
+        }
+
+        try {
+          auto card_opt = card ? std::make_optional<Card>(card) : std::nullopt;
+
+          user_data->callback(ParseInfo(&info),
+                              String(const_cast<char *>(keyword_name), false),
+                              std::move(card_opt), card_index);
+        } catch (...) {
+          user_data->exception = std::current_exception();
+        }
       },
-      parse_config.get_handle(), &error_string, &warning_string, &callback,
+      parse_config.get_handle(), &error_string, &warning_string, &user_data,
       NULL);
 
   if (warning_string) {
@@ -332,6 +345,10 @@ void KeyFile::parse_with_callback(const fs::path &file_name,
       *warnings = dro::String(warning_string);
     }
   }
+  if (user_data.exception) {
+    free(error_string);
+    std::rethrow_exception(user_data.exception);
+  }
   if (error_string) {
     throw Exception(Exception::ErrorString(error_string));
   }
-- 
2.43.0


From db304783ac5fe280b173ec7a2e151ef3f180a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 66/92] fix: copying mean surfaces freed their history
 variables twice

---
 src/cpp/d3plot_state.cpp | 35 ++++++++++++++++++++++++++++++-----
 src/cpp/d3plot_state.hpp | 10 +++++++---
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/cpp/d3plot_state.cpp b/src/cpp/d3plot_state.cpp
index 4a48790..c7857cd 100644
--- a/src/cpp/d3plot_state.cpp
+++ b/src/cpp/d3plot_state.cpp
@@ -29,28 +29,52 @@
 
 namespace dro {
 
-D3plotSurface::D3plotSurface(const d3plot_surface &surface) noexcept
-    : d3plot_surface(surface) {}
+template <typename T>
+static T *copy_values(const T *values, size_t size) noexcept {
+  if (!values || size == 0) {
+    return nullptr;
+  }
+  T *copy = reinterpret_cast<T *>(malloc(size * sizeof(T)));
+  memcpy(copy, values, size * sizeof(T));
+  return copy;
+}
+
+D3plotSurface::D3plotSurface(const d3plot_surface &surface,
+                             size_t num_history_variables) noexcept
+    : d3plot_surface(surface), m_num_history_variables(num_history_variables) {}
 
 D3plotSurface::D3plotSurface(D3plotSurface &&rhs) noexcept
-    : d3plot_surface(rhs) {
+    : D3plotSurface(rhs, rhs.m_num_history_variables) {
   rhs.history_variables = nullptr;
+  rhs.m_num_history_variables = 0;
+}
+
+D3plotSurface::D3plotSurface(const D3plotSurface &rhs) noexcept
+    : D3plotSurface(rhs, rhs.m_num_history_variables) {
+  history_variables =
+      copy_values(rhs.history_variables, m_num_history_variables);
 }
 
 D3plotSurface &D3plotSurface::operator=(D3plotSurface &&rhs) noexcept {
   // The previous history variables are freed by rhs
   std::swap(static_cast<d3plot_surface &>(*this),
             static_cast<d3plot_surface &>(rhs));
+  std::swap(m_num_history_variables, rhs.m_num_history_variables);
   return *this;
 }
 
+D3plotSurface &D3plotSurface::operator=(const D3plotSurface &rhs) noexcept {
+  return *this = D3plotSurface(rhs);
+}
+
 D3plotSurface::~D3plotSurface() noexcept {
   d3plot_free_surface(*static_cast<d3plot_surface *>(this));
 }
 
 D3plotSurface D3plotShell::get_mean() const noexcept {
   return D3plotSurface(
-      d3plot_get_shell_mean(static_cast<const d3plot_shell *>(this)));
+      d3plot_get_shell_mean(static_cast<const d3plot_shell *>(this)),
+      num_history_variables);
 }
 
 template <> Array<D3plotShell>::~Array<D3plotShell>() noexcept {
@@ -84,7 +108,8 @@ D3plotShell::get_add_ip_history_variables(size_t add_idx) const {
 
 D3plotSurface D3plotThickShell::get_mean() const noexcept {
   return D3plotSurface(d3plot_get_thick_shell_mean(
-      static_cast<const d3plot_thick_shell *>(this)));
+                           static_cast<const d3plot_thick_shell *>(this)),
+                       num_history_variables);
 }
 
 template <> Array<D3plotThickShell>::~Array<D3plotThickShell>() noexcept {
diff --git a/src/cpp/d3plot_state.hpp b/src/cpp/d3plot_state.hpp
index 3fee5c7..789acec 100644
--- a/src/cpp/d3plot_state.hpp
+++ b/src/cpp/d3plot_state.hpp
@@ -33,13 +33,17 @@ namespace dro {
 class D3plotSurface : public d3plot_surface {
 public:
   // Takes ownership over the history variables of surface
-  explicit D3plotSurface(const d3plot_surface &surface) noexcept;
+  D3plotSurface(const d3plot_surface &surface,
+                size_t num_history_variables) noexcept;
   D3plotSurface(D3plotSurface &&rhs) noexcept;
-  D3plotSurface(const D3plotSurface &rhs) = delete;
+  D3plotSurface(const D3plotSurface &rhs) noexcept;
   virtual ~D3plotSurface() noexcept;
 
   D3plotSurface &operator=(D3plotSurface &&rhs) noexcept;
-  D3plotSurface &operator=(const D3plotSurface &rhs) = delete;
+  D3plotSurface &operator=(const D3plotSurface &rhs) noexcept;
+
+private:
+  size_t m_num_history_variables;
 };
 
 class D3plotShell : public d3plot_shell {
-- 
2.43.0


From c4e52bf7e40798a269b22b7ab1a5dc3267f72586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 67/92] fix: copying arrays of element states freed their
 memory twice

---
 src/cpp/d3plot_state.cpp | 78 ++++++++++++++++++++++++++++++++++++++++
 src/cpp/d3plot_state.hpp |  9 +++++
 2 files changed, 87 insertions(+)

diff --git a/src/cpp/d3plot_state.cpp b/src/cpp/d3plot_state.cpp
index c7857cd..e35ea73 100644
--- a/src/cpp/d3plot_state.cpp
+++ b/src/cpp/d3plot_state.cpp
@@ -39,6 +39,41 @@ static T *copy_values(const T *values, size_t size) noexcept {
   return copy;
 }
 
+// Returns the position of ptr inside of base in the memory of copy
+template <typename T> static T *rebase(T *ptr, T *base, T *copy) noexcept {
+  return copy ? copy + (ptr - base) : nullptr;
+}
+
+// Copies (thick) shells together with the memory that is shared by all of them
+template <typename T>
+static T *copy_shells(const T *shells, size_t size) noexcept {
+  T *copy = copy_values(shells, size);
+  if (!copy) {
+    return nullptr;
+  }
+
+  const size_t num_add_ips = shells->num_additional_integration_points;
+  d3plot_surface *add_ips = copy_values(shells->add_ips, size * num_add_ips);
+  double *history_base = shells->mid.history_variables;
+  double *history =
+      copy_values(history_base,
+                  size * (3 + num_add_ips) * shells->num_history_variables);
+
+  for (size_t i = 0; i < size; i++) {
+    for (d3plot_surface *ip : {&copy[i].mid, &copy[i].inner, &copy[i].outer}) {
+      ip->history_variables =
+          rebase(ip->history_variables, history_base, history);
+    }
+    copy[i].add_ips = rebase(shells[i].add_ips, shells->add_ips, add_ips);
+  }
+  for (size_t i = 0; i < size * num_add_ips; i++) {
+    add_ips[i].history_variables =
+        rebase(add_ips[i].history_variables, history_base, history);
+  }
+
+  return copy;
+}
+
 D3plotSurface::D3plotSurface(const d3plot_surface &surface,
                              size_t num_history_variables) noexcept
     : d3plot_surface(surface), m_num_history_variables(num_history_variables) {}
@@ -77,6 +112,12 @@ D3plotSurface D3plotShell::get_mean() const noexcept {
       num_history_variables);
 }
 
+template <>
+Array<D3plotShell> &
+Array<D3plotShell>::operator=(const Array<D3plotShell> &rhs) noexcept {
+  return *this = Array<D3plotShell>(copy_shells(rhs.m_data, rhs.m_size), rhs.m_size);
+}
+
 template <> Array<D3plotShell>::~Array<D3plotShell>() noexcept {
   if (m_delete_data && m_data) {
     d3plot_free_shells_state(static_cast<d3plot_shell *>(m_data));
@@ -112,6 +153,12 @@ D3plotSurface D3plotThickShell::get_mean() const noexcept {
                        num_history_variables);
 }
 
+template <>
+Array<D3plotThickShell> &
+Array<D3plotThickShell>::operator=(const Array<D3plotThickShell> &rhs) noexcept {
+  return *this = Array<D3plotThickShell>(copy_shells(rhs.m_data, rhs.m_size), rhs.m_size);
+}
+
 template <> Array<D3plotThickShell>::~Array<D3plotThickShell>() noexcept {
   if (m_delete_data && m_data) {
     d3plot_free_thick_shells_state(
@@ -158,6 +205,37 @@ const Array<double> D3plotBeam::get_history_variables(uint8_t ip_idx) const {
                        false);
 }
 
+template <>
+Array<D3plotBeam> &
+Array<D3plotBeam>::operator=(const Array<D3plotBeam> &rhs) noexcept {
+  D3plotBeam *copy = copy_values(rhs.m_data, rhs.m_size);
+  if (copy) {
+    const size_t num_ips = copy->num_integration_points;
+    d3plot_beam_ip *ips_base = copy->ips;
+    d3plot_beam_ip *ips = copy_values(ips_base, rhs.m_size * num_ips);
+    // The same order as in d3plot_free_beams_state
+    double *history_base =
+        num_ips > 0 ? ips_base->history_variables : copy->history_average;
+    double *history =
+        copy_values(history_base, rhs.m_size * (3 + num_ips) *
+                                      rhs.m_data->num_history_variables);
+
+    for (size_t i = 0; i < rhs.m_size; i++) {
+      copy[i].ips = rebase(copy[i].ips, ips_base, ips);
+      copy[i].history_average =
+          rebase(copy[i].history_average, history_base, history);
+      copy[i].history_min = rebase(copy[i].history_min, history_base, history);
+      copy[i].history_max = rebase(copy[i].history_max, history_base, history);
+    }
+    for (size_t i = 0; i < rhs.m_size * num_ips; i++) {
+      ips[i].history_variables =
+          rebase(ips[i].history_variables, history_base, history);
+    }
+  }
+
+  return *this = Array<D3plotBeam>(copy, rhs.m_size);
+}
+
 template <> Array<D3plotBeam>::~Array<D3plotBeam>() noexcept {
   if (m_delete_data && m_data) {
     d3plot_free_beams_state(static_cast<d3plot_beam *>(m_data));
diff --git a/src/cpp/d3plot_state.hpp b/src/cpp/d3plot_state.hpp
index 789acec..ac95b77 100644
--- a/src/cpp/d3plot_state.hpp
+++ b/src/cpp/d3plot_state.hpp
@@ -69,6 +69,9 @@ public:
 };
 
 template <> Array<D3plotShell>::~Array<D3plotShell>() noexcept;
+template <>
+Array<D3plotShell> &
+Array<D3plotShell>::operator=(const Array<D3plotShell> &rhs) noexcept;
 
 class D3plotThickShell : public d3plot_thick_shell {
 public:
@@ -93,6 +96,9 @@ public:
 };
 
 template <> Array<D3plotThickShell>::~Array<D3plotThickShell>() noexcept;
+template <>
+Array<D3plotThickShell> &
+Array<D3plotThickShell>::operator=(const Array<D3plotThickShell> &rhs) noexcept;
 
 class D3plotBeam : public d3plot_beam {
 public:
@@ -112,5 +118,8 @@ public:
 };
 
 template <> Array<D3plotBeam>::~Array<D3plotBeam>() noexcept;
+template <>
+Array<D3plotBeam> &
+Array<D3plotBeam>::operator=(const Array<D3plotBeam> &rhs) noexcept;
 
 } // namespace dro
-- 
2.43.0


From 1ba76a6b9fd85260202af39c778b07f34a017b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 68/92] fix: the last character was ignored when comparing
 strings in python

---
 src/python/conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index c6a0aaf..ac54382 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -127,7 +127,7 @@ bool array_equals(const Array<T> &self, const py::object &other) {
         return false;
       }
 
-      for (size_t i = 0; i < self.size() - 1; i++) {
+      for (size_t i = 0; i < self.size(); i++) {
         const int other_byte = other_bytes[py::int_(i)].cast<int>();
 
         if (self[i] != static_cast<T>(other_byte)) {
-- 
2.43.0


From 3db77d116a5d1107b9af6467bdaeacc16425bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 69/92] fix: repr of python Vec3Array

---
 src/python/pybind11_d3plot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pybind11_d3plot.cpp b/src/python/pybind11_d3plot.cpp
index bf570e0..6f2e917 100644
--- a/src/python/pybind11_d3plot.cpp
+++ b/src/python/pybind11_d3plot.cpp
@@ -42,7 +42,7 @@ inline void add_d3plot_arrays_to_module(py::module_ &m) {
   dro::add_array_type_to_module<dro::D3plotThickShell>(m);
   dro::add_array_type_to_module<dro::D3plotBeam>(m);
   dro::add_array_type_to_module<dro::dVec3>(m).def(
-      "__repr__", dro::stream_to_string<dro::dVec3>);
+      "__repr__", dro::stream_to_string<dro::Array<dro::dVec3>>);
 }
 
 void add_d3plot_library_to_module(py::module_ &m) {
-- 
2.43.0


From 69896d1b26aa22436ad109e2a0f7386e58197f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 70/92] fix: python objects referred to memory of other objects
 that were already freed

---
 src/python/conversions.hpp     |  2 +-
 src/python/pybind11_binout.cpp | 17 ++++++----
 src/python/pybind11_d3plot.cpp | 61 +++++++++++++++++++++-------------
 src/python/pybind11_key.cpp    | 18 +++++-----
 4 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index ac54382..4da5b91 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -255,7 +255,7 @@ inline py::class_<Array<T>> add_array_type_to_module(py::module_ &m) {
                .def("__len__", &Array<T>::size)
                .def("__setitem__", &array_setitem<T>)
                .def("__getitem__", &array_getitem<T>,
-                    py::return_value_policy::reference)
+                    py::return_value_policy::reference_internal)
                .def("__eq__", &array_equals<T>)
                .def("__lt__", &array_less_than<T>)
                .def("__gt__", &array_greater_than<T>)
diff --git a/src/python/pybind11_binout.cpp b/src/python/pybind11_binout.cpp
index b351395..f927b1d 100644
--- a/src/python/pybind11_binout.cpp
+++ b/src/python/pybind11_binout.cpp
@@ -116,18 +116,23 @@ Binout_read(dro::Binout &self, std::string path) {
     default:
       // If the type is invalid it's likely to be a folder and then the children
       // should be returned
-      auto children = self.get_children(real_path);
+      // The children refer to the memory of the binout and need to be copied
+      const auto binout_children = self.get_children(real_path);
+      std::vector<dro::String> children(binout_children.begin(),
+                                        binout_children.end());
       if (children[children.size() - 1] == "metadata" &&
           children[0] == "d000001") {
         const auto metadata = real_path + "/metadata";
         const auto d000001 = real_path + "/d000001";
 
-        auto metadata_children = self.get_children(metadata);
-        auto d000001_children = self.get_children(d000001);
+        const auto binout_metadata_children = self.get_children(metadata);
+        const auto d000001_children = self.get_children(d000001);
 
-        std::move(std::make_move_iterator(d000001_children.begin()),
-                  std::make_move_iterator(d000001_children.end()),
-                  std::back_inserter(metadata_children));
+        std::vector<dro::String> metadata_children(
+            binout_metadata_children.begin(), binout_metadata_children.end());
+        metadata_children.insert(metadata_children.end(),
+                                 d000001_children.begin(),
+                                 d000001_children.end());
 
         std::sort(metadata_children.begin(), metadata_children.end(),
                   [](const auto &lhs, const auto &rhs) {
diff --git a/src/python/pybind11_d3plot.cpp b/src/python/pybind11_d3plot.cpp
index 6f2e917..9571397 100644
--- a/src/python/pybind11_d3plot.cpp
+++ b/src/python/pybind11_d3plot.cpp
@@ -165,16 +165,21 @@ void add_d3plot_library_to_module(py::module_ &m) {
       .def_readonly("outer_epsilon", &dro::D3plotThickShell::outer_epsilon)
       .def_readonly("outer_strain", &dro::D3plotThickShell::outer_strain)
       .def("get_mid_history_variables",
-           &dro::D3plotThickShell::get_mid_history_variables)
+           &dro::D3plotThickShell::get_mid_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_inner_history_variables",
-           &dro::D3plotThickShell::get_inner_history_variables)
+           &dro::D3plotThickShell::get_inner_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_outer_history_variables",
-           &dro::D3plotThickShell::get_outer_history_variables)
+           &dro::D3plotThickShell::get_outer_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_mean_history_variables",
            &dro::D3plotThickShell::get_mean_history_variables)
       .def("get_add_ip_history_variables",
-           &dro::D3plotThickShell::get_add_ip_history_variables)
-      .def("get_add_ips", &dro::D3plotThickShell::get_add_ips)
+           &dro::D3plotThickShell::get_add_ip_history_variables,
+           py::keep_alive<0, 1>())
+      .def("get_add_ips", &dro::D3plotThickShell::get_add_ips,
+           py::keep_alive<0, 1>())
       .def("get_mean", &dro::D3plotThickShell::get_mean)
       .def("__str__", &dro::stream_to_string<dro::D3plotThickShell>,
            py::return_value_policy::take_ownership)
@@ -189,11 +194,16 @@ void add_d3plot_library_to_module(py::module_ &m) {
       .def_readonly("t_bending_moment", &dro::D3plotBeam::t_bending_moment)
       .def_readonly("torsional_resultant",
                     &dro::D3plotBeam::torsional_resultant)
-      .def("get_history_average", &dro::D3plotBeam::get_history_average)
-      .def("get_history_min", &dro::D3plotBeam::get_history_min)
-      .def("get_history_max", &dro::D3plotBeam::get_history_max)
-      .def("get_integration_points", &dro::D3plotBeam::get_integration_points)
-      .def("get_history_variables", &dro::D3plotBeam::get_history_variables)
+      .def("get_history_average", &dro::D3plotBeam::get_history_average,
+           py::keep_alive<0, 1>())
+      .def("get_history_min", &dro::D3plotBeam::get_history_min,
+           py::keep_alive<0, 1>())
+      .def("get_history_max", &dro::D3plotBeam::get_history_max,
+           py::keep_alive<0, 1>())
+      .def("get_integration_points", &dro::D3plotBeam::get_integration_points,
+           py::keep_alive<0, 1>())
+      .def("get_history_variables", &dro::D3plotBeam::get_history_variables,
+           py::keep_alive<0, 1>())
       .def("__str__", &dro::stream_to_string<dro::D3plotBeam>,
            py::return_value_policy::take_ownership)
 
@@ -215,16 +225,21 @@ void add_d3plot_library_to_module(py::module_ &m) {
                     &dro::D3plotShell::element_dependent_variables)
       .def_readonly("internal_energy", &dro::D3plotShell::internal_energy)
       .def("get_mid_history_variables",
-           &dro::D3plotShell::get_mid_history_variables)
+           &dro::D3plotShell::get_mid_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_inner_history_variables",
-           &dro::D3plotShell::get_inner_history_variables)
+           &dro::D3plotShell::get_inner_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_outer_history_variables",
-           &dro::D3plotShell::get_outer_history_variables)
+           &dro::D3plotShell::get_outer_history_variables,
+           py::keep_alive<0, 1>())
       .def("get_mean_history_variables",
            &dro::D3plotShell::get_mean_history_variables)
       .def("get_add_ip_history_variables",
-           &dro::D3plotShell::get_add_ip_history_variables)
-      .def("get_add_ips", &dro::D3plotShell::get_add_ips)
+           &dro::D3plotShell::get_add_ip_history_variables,
+           py::keep_alive<0, 1>())
+      .def("get_add_ips", &dro::D3plotShell::get_add_ips,
+           py::keep_alive<0, 1>())
       .def("get_mean", &dro::D3plotShell::get_mean)
       .def("__str__", &dro::stream_to_string<dro::D3plotShell>,
            py::return_value_policy::take_ownership);
@@ -356,37 +371,37 @@ void add_d3plot_library_to_module(py::module_ &m) {
   py::class_<dro::D3plotPart>(m, "D3plotPart")
       .def("get_solid_elements", &dro::D3plotPart::get_solid_elements,
            "Returns all solid element ids of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_thick_shell_elements",
            &dro::D3plotPart::get_thick_shell_elements,
            "Returns all thick shell element ids of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_beam_elements", &dro::D3plotPart::get_beam_elements,
            "Returns all beam element ids of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_shell_elements", &dro::D3plotPart::get_shell_elements,
            "Returns all shell element ids of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_solid_element_indices",
            &dro::D3plotPart::get_solid_element_indices,
            "Returns all solid element indices (into the array returned by "
            "dynareadout.D3plot.read_solid_element_ids) of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_thick_shell_element_indices",
            &dro::D3plotPart::get_thick_shell_element_indices,
            "Returns all thick shell element indices (into the array returned "
            "by dynareadout.D3plot.read_solid_element_ids) of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_beam_element_indices",
            &dro::D3plotPart::get_beam_element_indices,
            "Returns all beam element indices (into the array returned by "
            "dynareadout.D3plot.read_solid_element_ids) of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_shell_element_indices",
            &dro::D3plotPart::get_shell_element_indices,
            "Returns all shell element indices (into the array returned by "
            "dynareadout.D3plot.read_solid_element_ids) of the part.",
-           py::return_value_policy::take_ownership)
+           py::keep_alive<0, 1>())
       .def("get_node_ids", &dro::D3plotPart::get_node_ids,
            "Returns all node ids of the part. All ids and connectivities of "
            "all different elements can be provided to improve performance, "
diff --git a/src/python/pybind11_key.cpp b/src/python/pybind11_key.cpp
index 4dbfce7..e1014b9 100644
--- a/src/python/pybind11_key.cpp
+++ b/src/python/pybind11_key.cpp
@@ -133,21 +133,21 @@ void add_key_library_to_module(py::module_ &m) {
   py::class_<dro::Keywords>(m, "Keywords")
       .def("__len__", [](dro::Keywords &self) { return self.size(); })
       .def("__getitem__", &dro::Keywords::operator[],
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 
   py::class_<dro::KeywordSlice>(m, "KeywordSlice")
       .def("__len__", &dro::KeywordSlice::size)
       .def("__getitem__", &dro::KeywordSlice::operator[],
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 
   py::class_<dro::Keyword>(m, "Keyword")
       .def("__len__", &dro::Keyword::num_cards)
       .def("__getitem__", &dro::Keyword::operator[],
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 
@@ -314,11 +314,11 @@ void add_key_library_to_module(py::module_ &m) {
            &dro::IncludeTransform::parse_include_transform_card,
            py::arg("card"), py::arg("card_index"))
       .def("get_file_name", &dro::IncludeTransform::get_file_name,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
       .def("get_suffix", &dro::IncludeTransform::get_suffix,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
       .def("get_fcttem", &dro::IncludeTransform::get_fcttem,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
       .def("get_idnoff", &dro::IncludeTransform::get_idnoff)
       .def("get_ideoff", &dro::IncludeTransform::get_ideoff)
       .def("get_idpoff", &dro::IncludeTransform::get_idpoff)
@@ -337,9 +337,9 @@ void add_key_library_to_module(py::module_ &m) {
 
   py::class_<dro::TransformationOption>(m, "TransformOption")
       .def("get_name", &dro::TransformationOption::get_name,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
       .def("get_parameters", &dro::TransformationOption::get_parameters,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 
@@ -351,7 +351,7 @@ void add_key_library_to_module(py::module_ &m) {
            py::arg("card"), py::arg("card_index"), py::arg("is_title") = true)
       .def("get_tranid", &dro::DefineTransformation::get_tranid)
       .def("get_options", &dro::DefineTransformation::get_options,
-           py::return_value_policy::take_ownership)
+           py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 }
\ No newline at end of file
-- 
2.43.0


From 99f06a7dcd8d119defc4e8993a96fb81037dad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 71/92] fix: reading an empty folder of a binout in python read
 out of bounds

---
 src/python/pybind11_binout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pybind11_binout.cpp b/src/python/pybind11_binout.cpp
index f927b1d..2aa48cf 100644
--- a/src/python/pybind11_binout.cpp
+++ b/src/python/pybind11_binout.cpp
@@ -120,7 +120,7 @@ Binout_read(dro::Binout &self, std::string path) {
       const auto binout_children = self.get_children(real_path);
       std::vector<dro::String> children(binout_children.begin(),
                                         binout_children.end());
-      if (children[children.size() - 1] == "metadata" &&
+      if (!children.empty() && children[children.size() - 1] == "metadata" &&
           children[0] == "d000001") {
         const auto metadata = real_path + "/metadata";
         const auto d000001 = real_path + "/d000001";
-- 
2.43.0


From bfbab3597e6281ebb5658f9bc099acad8e4427c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 72/92] fix: python arrays were created with uninitialised
 values

---
 src/python/conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index 4da5b91..6e3d069 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -73,7 +73,7 @@ public:
 namespace dro {
 
 template <typename T> Array<T> array_constructor(size_t size) {
-  T *data = reinterpret_cast<T *>(malloc(size * sizeof(T)));
+  T *data = reinterpret_cast<T *>(calloc(size, sizeof(T)));
   return Array<T>(data, size);
 }
 
-- 
2.43.0


From decba3636d416f314a3e4842d87a3b1c825e5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 73/92] fix: iterating over python keywords ended with a
 RuntimeError

---
 src/python/pybind11_key.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/pybind11_key.cpp b/src/python/pybind11_key.cpp
index e1014b9..c8e9d36 100644
--- a/src/python/pybind11_key.cpp
+++ b/src/python/pybind11_key.cpp
@@ -129,6 +129,14 @@ python_card_parse(dro::Card &self, bool trim_string, py::object value_width) {
   return py::none();
 }
 
+template <typename R, typename T> R key_getitem(T &self, size_t index) {
+  try {
+    return self[index];
+  } catch (const std::runtime_error &) {
+    throw py::index_error("Index out of range");
+  }
+}
+
 void add_key_library_to_module(py::module_ &m) {
   py::class_<dro::Keywords>(m, "Keywords")
       .def("__len__", [](dro::Keywords &self) { return self.size(); })
@@ -139,14 +147,14 @@ void add_key_library_to_module(py::module_ &m) {
 
   py::class_<dro::KeywordSlice>(m, "KeywordSlice")
       .def("__len__", &dro::KeywordSlice::size)
-      .def("__getitem__", &dro::KeywordSlice::operator[],
+      .def("__getitem__", &key_getitem<dro::Keyword, dro::KeywordSlice>,
            py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
 
   py::class_<dro::Keyword>(m, "Keyword")
       .def("__len__", &dro::Keyword::num_cards)
-      .def("__getitem__", &dro::Keyword::operator[],
+      .def("__getitem__", &key_getitem<dro::Card, dro::Keyword>,
            py::return_value_policy::take_ownership, py::keep_alive<0, 1>())
 
       ;
-- 
2.43.0


From bb431b35a705b7afb458879b0d88473069632df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 74/92] fix: default values of IncludeTransform when parsing
 card by card

---
 src/cpp/include_transform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpp/include_transform.cpp b/src/cpp/include_transform.cpp
index cf74286..14b00da 100644
--- a/src/cpp/include_transform.cpp
+++ b/src/cpp/include_transform.cpp
@@ -3,7 +3,11 @@
 
 namespace dro {
 
-IncludeTransform::IncludeTransform() noexcept { m_handle = {0}; }
+IncludeTransform::IncludeTransform() noexcept {
+  // Values whose cards do not get parsed have their default values
+  keyword_t empty_keyword = {0};
+  m_handle = key_parse_include_transform(&empty_keyword);
+}
 
 IncludeTransform::IncludeTransform(IncludeTransform &&rhs) noexcept
     : m_handle(rhs.m_handle) {
-- 
2.43.0


From 12c6e5014e9508d285145c8996802e5a788010c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 75/92] fix: overflow of the size in Array::New

---
 src/cpp/array.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index bfc12d1..f66403d 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -295,7 +295,12 @@ static std::ostream &operator<<(std::ostream &stream, const Array<T> &arr) {
 }
 
 template <typename T> Array<T> Array<T>::New(size_t size) {
-  T *data = reinterpret_cast<T *>(malloc(size * sizeof(T)));
+  T *data = nullptr;
+  if (size <= std::numeric_limits<size_t>::max() / sizeof(T)) {
+    data = reinterpret_cast<T *>(malloc(size * sizeof(T)));
+  } else {
+    errno = ENOMEM;
+  }
   if (!data) {
     throw std::runtime_error(
         std::string("Failed to allocate memory for new array: ") +
-- 
2.43.0


From 6285a75d6df974d1ba470f193c906d4b75670582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 76/92] fix: size of a String used as an Array

---
 src/cpp/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/array.hpp b/src/cpp/array.hpp
index f66403d..e9635c7 100644
--- a/src/cpp/array.hpp
+++ b/src/cpp/array.hpp
@@ -169,7 +169,7 @@ public:
   inline String(String &&rhs) noexcept;
   inline String(const String &rhs) noexcept;
   String(char *str, bool delete_data = true) noexcept
-      : Array<char>(str, ~0, delete_data) {}
+      : Array<char>(str, str ? strlen(str) : 0, delete_data) {}
 
   inline String &operator=(String &&rhs) noexcept;
   inline String &operator=(const String &rhs) noexcept;
-- 
2.43.0


From 66190dfeb257132b8551f72593c3192fe01663a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 77/92] fix: copying a part of an array of element states read
 out of bounds

---
 src/cpp/d3plot_state.cpp | 90 ++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/cpp/d3plot_state.cpp b/src/cpp/d3plot_state.cpp
index e35ea73..c9f8d8e 100644
--- a/src/cpp/d3plot_state.cpp
+++ b/src/cpp/d3plot_state.cpp
@@ -29,22 +29,35 @@
 
 namespace dro {
 
+template <typename T> static T *allocate_values(size_t size) noexcept {
+  return size ? reinterpret_cast<T *>(malloc(size * sizeof(T))) : nullptr;
+}
+
 template <typename T>
 static T *copy_values(const T *values, size_t size) noexcept {
   if (!values || size == 0) {
     return nullptr;
   }
-  T *copy = reinterpret_cast<T *>(malloc(size * sizeof(T)));
+  T *copy = allocate_values<T>(size);
   memcpy(copy, values, size * sizeof(T));
   return copy;
 }
 
-// Returns the position of ptr inside of base in the memory of copy
-template <typename T> static T *rebase(T *ptr, T *base, T *copy) noexcept {
-  return copy ? copy + (ptr - base) : nullptr;
+// Copies values to the position pos inside of the memory of a copied array.
+// Returns the position of the copied values and moves pos behind them
+template <typename T>
+static T *append_values(T *&pos, const T *values, size_t size) noexcept {
+  if (!pos || !values || size == 0) {
+    return nullptr;
+  }
+  T *copy = pos;
+  memcpy(copy, values, size * sizeof(T));
+  pos += size;
+  return copy;
 }
 
-// Copies (thick) shells together with the memory that is shared by all of them
+// Copies (thick) shells together with the memory that is shared by all of them.
+// The memory begins with the values of the first shell
 template <typename T>
 static T *copy_shells(const T *shells, size_t size) noexcept {
   T *copy = copy_values(shells, size);
@@ -52,23 +65,28 @@ static T *copy_shells(const T *shells, size_t size) noexcept {
     return nullptr;
   }
 
-  const size_t num_add_ips = shells->num_additional_integration_points;
-  d3plot_surface *add_ips = copy_values(shells->add_ips, size * num_add_ips);
-  double *history_base = shells->mid.history_variables;
-  double *history =
-      copy_values(history_base,
-                  size * (3 + num_add_ips) * shells->num_history_variables);
+  size_t num_add_ips = 0, num_history = 0;
+  for (size_t i = 0; i < size; i++) {
+    num_add_ips += shells[i].num_additional_integration_points;
+    num_history += (3 + shells[i].num_additional_integration_points) *
+                   shells[i].num_history_variables;
+  }
+  d3plot_surface *add_ips = allocate_values<d3plot_surface>(num_add_ips);
+  double *history = allocate_values<double>(num_history);
 
   for (size_t i = 0; i < size; i++) {
+    const size_t num = shells[i].num_history_variables;
     for (d3plot_surface *ip : {&copy[i].mid, &copy[i].inner, &copy[i].outer}) {
       ip->history_variables =
-          rebase(ip->history_variables, history_base, history);
+          append_values(history, ip->history_variables, num);
+    }
+    copy[i].add_ips =
+        append_values(add_ips, shells[i].add_ips,
+                      shells[i].num_additional_integration_points);
+    for (size_t j = 0; j < shells[i].num_additional_integration_points; j++) {
+      copy[i].add_ips[j].history_variables =
+          append_values(history, copy[i].add_ips[j].history_variables, num);
     }
-    copy[i].add_ips = rebase(shells[i].add_ips, shells->add_ips, add_ips);
-  }
-  for (size_t i = 0; i < size * num_add_ips; i++) {
-    add_ips[i].history_variables =
-        rebase(add_ips[i].history_variables, history_base, history);
   }
 
   return copy;
@@ -210,26 +228,28 @@ Array<D3plotBeam> &
 Array<D3plotBeam>::operator=(const Array<D3plotBeam> &rhs) noexcept {
   D3plotBeam *copy = copy_values(rhs.m_data, rhs.m_size);
   if (copy) {
-    const size_t num_ips = copy->num_integration_points;
-    d3plot_beam_ip *ips_base = copy->ips;
-    d3plot_beam_ip *ips = copy_values(ips_base, rhs.m_size * num_ips);
-    // The same order as in d3plot_free_beams_state
-    double *history_base =
-        num_ips > 0 ? ips_base->history_variables : copy->history_average;
-    double *history =
-        copy_values(history_base, rhs.m_size * (3 + num_ips) *
-                                      rhs.m_data->num_history_variables);
-
+    size_t num_ips = 0, num_history = 0;
     for (size_t i = 0; i < rhs.m_size; i++) {
-      copy[i].ips = rebase(copy[i].ips, ips_base, ips);
-      copy[i].history_average =
-          rebase(copy[i].history_average, history_base, history);
-      copy[i].history_min = rebase(copy[i].history_min, history_base, history);
-      copy[i].history_max = rebase(copy[i].history_max, history_base, history);
+      num_ips += copy[i].num_integration_points;
+      num_history += (3 + copy[i].num_integration_points) *
+                     copy[i].num_history_variables;
     }
-    for (size_t i = 0; i < rhs.m_size * num_ips; i++) {
-      ips[i].history_variables =
-          rebase(ips[i].history_variables, history_base, history);
+    d3plot_beam_ip *ips = allocate_values<d3plot_beam_ip>(num_ips);
+    double *history = allocate_values<double>(num_history);
+
+    for (size_t i = 0; i < rhs.m_size; i++) {
+      D3plotBeam &beam = copy[i];
+      const size_t num = beam.num_history_variables;
+      // The memory has to begin with the values of the first integration point
+      // or else with the average ones. See d3plot_free_beams_state
+      beam.ips = append_values(ips, beam.ips, beam.num_integration_points);
+      for (size_t j = 0; j < beam.num_integration_points; j++) {
+        beam.ips[j].history_variables =
+            append_values(history, beam.ips[j].history_variables, num);
+      }
+      beam.history_average = append_values(history, beam.history_average, num);
+      beam.history_min = append_values(history, beam.history_min, num);
+      beam.history_max = append_values(history, beam.history_max, num);
     }
   }
 
-- 
2.43.0


From c879736e70e37362e297651c9bf111489271ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 78/92] fix: bind the integration points of beams in Python

---
 src/python/pybind11_d3plot.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python/pybind11_d3plot.cpp b/src/python/pybind11_d3plot.cpp
index 9571397..91abb2e 100644
--- a/src/python/pybind11_d3plot.cpp
+++ b/src/python/pybind11_d3plot.cpp
@@ -142,6 +142,15 @@ void add_d3plot_library_to_module(py::module_ &m) {
 
       ;
 
+  py::class_<d3plot_beam_ip>(m, "d3plot_beam_ip")
+      .def_readonly("rs_shear_stress", &d3plot_beam_ip::rs_shear_stress)
+      .def_readonly("tr_shear_stress", &d3plot_beam_ip::tr_shear_stress)
+      .def_readonly("axial_stress", &d3plot_beam_ip::axial_stress)
+      .def_readonly("plastic_strain", &d3plot_beam_ip::plastic_strain)
+      .def_readonly("axial_strain", &d3plot_beam_ip::axial_strain)
+
+      ;
+
   py::class_<d3plot_solid>(m, "d3plot_solid")
       .def_readonly("sigma", &d3plot_solid::sigma)
       .def_readonly("stress", &d3plot_solid::stress)
-- 
2.43.0


From 90befadbafae91fdcdcd3605ecf80d8a7fb2c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:33 +0000
Subject: [PATCH 79/92] fix: report positions of binout files that can not be
 determined

---
 src/binout.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/binout.c b/src/binout.c
index 6114ed9..a85c0ef 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -170,7 +170,10 @@ binout_file binout_open(const char *file_name) {
     while (1) {
       /* Check if we are already at the end or if an error occurred in ftell*/
       const long current_file_pos = multi_file_tell(file, &file_index);
-      if (current_file_pos == -1 || current_file_pos == file_size) {
+      if (current_file_pos == -1) {
+        RECORD_FAILED("Failed to get the position of a record");
+      }
+      if (current_file_pos == file_size) {
         break;
       }
 
@@ -181,6 +184,11 @@ binout_file binout_open(const char *file_name) {
       BIN_FILE_READ(record_command, header.record_command_field_size, 1,
                     "Failed to read command");
 
+      const long fields_end_pos = multi_file_tell(file, &file_index);
+      if (fields_end_pos == -1) {
+        RECORD_FAILED("Failed to get the position of a record");
+      }
+
       /* The record can not be smaller than its own fields or reach behind the
        * end of the file*/
       const uint64_t record_fields_length =
@@ -188,8 +196,7 @@ binout_file binout_open(const char *file_name) {
           (uint64_t)header.record_command_field_size;
       if (record_length < record_fields_length ||
           record_length - record_fields_length >
-              (uint64_t)(file_size -
-                         multi_file_tell(file, &file_index))) {
+              (uint64_t)(file_size - fields_end_pos)) {
         RECORD_FAILED("The length of a record is invalid");
       }
 
@@ -294,6 +301,10 @@ binout_file binout_open(const char *file_name) {
         const uint64_t data_length =
             record_data_length - variable_fields_length;
         const long file_pos = multi_file_tell(file, &file_index);
+        if (file_pos == -1) {
+          free(variable_name);
+          RECORD_FAILED("Failed to get the position of Data of DATA record");
+        }
         /* Skip the data since we will read it at a later point, if it is
          * requested by the programmer*/
         if (multi_file_seek(file, &file_index, data_length, SEEK_CUR) != 0) {
-- 
2.43.0


From 3b615408f635d9087e70533f3f636832d001a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:47 +0000
Subject: [PATCH 80/92] fix: report files of a family that fail while states
 are looked for

---
 src/d3_buffer.c    | 14 +++++++++++---
 src/d3_buffer.h    |  3 +++
 src/d3plot.c       |  8 +++++---
 src/d3plot_state.c | 41 +++++++++++++++++++++++------------------
 4 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index 8faf033..5fe2ea8 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -315,7 +315,7 @@ void d3_buffer_read_words(d3_buffer *buffer, d3_pointer *ptr, void *words,
 
   if (ptr->cur_file == ULONG_MAX) {
     /* A previous read or skip has left the files*/
-    ERROR_AND_RETURN_BUFFER_PTR("Out of Bounds");
+    ERROR_AND_RETURN_BUFFER_PTR(D3_BUFFER_OUT_OF_BOUNDS);
   }
 
   if (num_words > ULONG_MAX / buffer->word_size) {
@@ -450,7 +450,10 @@ void d3_buffer_skip_words(d3_buffer *buffer, d3_pointer *ptr,
   BEGIN_PROFILE_FUNC();
 
   if (ULONG_MAX - num_words <= ptr->cur_word) {
-    ERROR_AND_NO_RETURN_BUFFER_PTR("Out of Bounds");
+    /* Keep the error of the skip or read that has failed before*/
+    if (ptr->cur_file != ULONG_MAX || !buffer->error_string) {
+      ERROR_AND_NO_RETURN_BUFFER_PTR(D3_BUFFER_OUT_OF_BOUNDS);
+    }
     d3_pointer_close(buffer, ptr);
 
     END_PROFILE_FUNC();
@@ -483,6 +486,11 @@ int d3_buffer_next_file(d3_buffer *buffer, d3_pointer *ptr) {
   multi_file_t *file = &buffer->files[ptr->cur_file].file;
 
   const long cur_file_pos = multi_file_tell(file, &ptr->multi_file_index);
+  if (cur_file_pos == -1) {
+    ERROR_AND_NO_RETURN_BUFFER_PTR("Tell Error");
+    END_PROFILE_FUNC();
+    return 0;
+  }
   const size_t cur_word =
       ptr->cur_word + (file_size - cur_file_pos) / buffer->word_size;
   const size_t cur_file = ptr->cur_file + 1;
@@ -571,7 +579,7 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
 
   if (i == buffer->num_files) {
     /* Out of bounds*/
-    ERROR_AND_NO_RETURN_BUFFER_PTR("Out of bounds");
+    ERROR_AND_NO_RETURN_BUFFER_PTR(D3_BUFFER_OUT_OF_BOUNDS);
 #ifndef NO_THREAD_SAFETY
     ptr.multi_file_index.file_handle = NULL;
     ptr.multi_file_index.index = ULONG_MAX;
diff --git a/src/d3_buffer.h b/src/d3_buffer.h
index 0a1313d..6871665 100644
--- a/src/d3_buffer.h
+++ b/src/d3_buffer.h
@@ -29,6 +29,9 @@
 #include <stdint.h>
 #include <stdio.h>
 
+/* The error string after leaving the files*/
+#define D3_BUFFER_OUT_OF_BOUNDS "Out of bounds"
+
 typedef struct {
   multi_file_index_t multi_file_index;
   size_t cur_file;
diff --git a/src/d3plot.c b/src/d3plot.c
index 12db2de..a3b760b 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -516,13 +516,15 @@ d3plot_file d3plot_open(const char *root_file_name) {
   while (result) {
     result = _d3plot_read_state_data(&plot_file, &d3_ptr);
     if (result == 2) {
-      if (!d3_buffer_next_file(&plot_file.buffer, &d3_ptr)) {
-        break;
-      }
+      const int has_next_file =
+          d3_buffer_next_file(&plot_file.buffer, &d3_ptr);
       if (plot_file.buffer.error_string) {
         ERROR_AND_RETURN_F("Failed to switch to the next file: %s",
                            plot_file.buffer.error_string);
       }
+      if (!has_next_file) {
+        break;
+      }
     }
   }
 
diff --git a/src/d3plot_state.c b/src/d3plot_state.c
index 580f72c..416ef40 100644
--- a/src/d3plot_state.c
+++ b/src/d3plot_state.c
@@ -39,6 +39,23 @@
 
 #include "d3plot_error_macros.h"
 
+/* Returns wether skipping parts of a state has failed. A state that is cut off
+ * by the end of the last file is just ignored, everything else is an error*/
+static int _d3plot_state_skip_failed(d3plot_file *plot_file) {
+  if (!plot_file->buffer.error_string) {
+    return 0;
+  }
+
+  if (strcmp(plot_file->buffer.error_string, D3_BUFFER_OUT_OF_BOUNDS) != 0) {
+    ERROR_AND_NO_RETURN_F_PTR("Failed to read a state: %s",
+                              plot_file->buffer.error_string);
+  }
+
+  free(plot_file->buffer.error_string);
+  plot_file->buffer.error_string = NULL;
+  return 1;
+}
+
 int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
   BEGIN_PROFILE_FUNC();
 
@@ -141,9 +158,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
   d3_buffer_skip_words(&plot_file->buffer, d3_ptr, CDP.numrbs);
   /* TODO: read function for RBS HOURGLASS ENERGY*/
 
-  if (plot_file->buffer.error_string) {
-    free(plot_file->buffer.error_string);
-    plot_file->buffer.error_string = NULL;
+  if (_d3plot_state_skip_failed(plot_file)) {
     END_PROFILE_FUNC();
     return 0;
   }
@@ -166,9 +181,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
     /* TODO: read function for RW_POS*/
   }
 
-  if (plot_file->buffer.error_string) {
-    free(plot_file->buffer.error_string);
-    plot_file->buffer.error_string = NULL;
+  if (_d3plot_state_skip_failed(plot_file)) {
     END_PROFILE_FUNC();
     return 0;
   }
@@ -233,9 +246,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
     d3_buffer_skip_words(&plot_file->buffer, d3_ptr, 3 * CDP.numnp);
   }
 
-  if (plot_file->buffer.error_string) {
-    free(plot_file->buffer.error_string);
-    plot_file->buffer.error_string = NULL;
+  if (_d3plot_state_skip_failed(plot_file)) {
     END_PROFILE_FUNC();
     return 0;
   }
@@ -253,9 +264,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
   d3_buffer_skip_words(&plot_file->buffer, d3_ptr, CDP.nt3d * CDP.nel8);
   /* TODO: read function for nt3d data*/
 
-  if (plot_file->buffer.error_string) {
-    free(plot_file->buffer.error_string);
-    plot_file->buffer.error_string = NULL;
+  if (_d3plot_state_skip_failed(plot_file)) {
     END_PROFILE_FUNC();
     return 0;
   }
@@ -283,9 +292,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
   DT_PTR_SET(D3PLT_PTR_STATE_ELEMENT_THICK_SHELL);
   d3_buffer_skip_words(&plot_file->buffer, d3_ptr, CDP.nv3dt * CDP.nelt);
 
-  if (plot_file->buffer.error_string) {
-    free(plot_file->buffer.error_string);
-    plot_file->buffer.error_string = NULL;
+  if (_d3plot_state_skip_failed(plot_file)) {
     END_PROFILE_FUNC();
     return 0;
   }
@@ -315,9 +322,7 @@ int _d3plot_read_state_data(d3plot_file *plot_file, d3_pointer *d3_ptr) {
 
   if (skip_words > 0) {
     d3_buffer_skip_words(&plot_file->buffer, d3_ptr, skip_words);
-    if (plot_file->buffer.error_string) {
-      free(plot_file->buffer.error_string);
-      plot_file->buffer.error_string = NULL;
+    if (_d3plot_state_skip_failed(plot_file)) {
       END_PROFILE_FUNC();
       return 0;
     }
-- 
2.43.0


From bf60a0943dd5578385dd2d406623abd950aeb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 81/92] fix: reading a part reports elements that can not be
 read

---
 src/d3plot.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index a3b760b..4540f22 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3211,30 +3211,35 @@ time_t d3plot_read_epoch_run_time(d3plot_file *plot_file) {
                              part_indices)                                     \
   ids = id_func(plot_file, &num_elements);                                     \
   if (plot_file->error_string) {                                               \
-    /* Just ignore those elements*/                                            \
-    D3PLOT_CLEAR_ERROR_STRING();                                               \
-  } else if (num_elements > 0) {                                               \
+    /* The part would be incomplete*/                                          \
+    d3plot_free_part(&part);                                                   \
+    END_PROFILE_FUNC();                                                        \
+    return part;                                                               \
+  }                                                                            \
+  if (num_elements > 0) {                                                      \
     el_type *els = el_func(plot_file, &num_elements);                          \
     if (plot_file->error_string) {                                             \
-      /* Just ignore those elements*/                                          \
-      D3PLOT_CLEAR_ERROR_STRING();                                             \
-    } else {                                                                   \
-      size_t i = 0;                                                            \
-      while (i < num_elements) {                                               \
-        /* For some reason materials in d3plot are parts -_('_')_-*/           \
-        if (els[i].material_index == part_index) {                             \
-          /* TODO: Insert these element ids sorted*/                           \
-          part.part_num++;                                                     \
-          part.part_ids =                                                      \
-              realloc(part.part_ids, part.part_num * sizeof(d3_word));         \
-          part.part_indices =                                                  \
-              realloc(part.part_indices, part.part_num * sizeof(size_t));      \
-          part.part_ids[part.part_num - 1] = ids[i];                           \
-          part.part_indices[part.part_num - 1] = i;                            \
-        }                                                                      \
+      free(ids);                                                               \
+      d3plot_free_part(&part);                                                 \
+      END_PROFILE_FUNC();                                                      \
+      return part;                                                             \
+    }                                                                          \
                                                                                \
-        i++;                                                                   \
+    size_t i = 0;                                                              \
+    while (i < num_elements) {                                                 \
+      /* For some reason materials in d3plot are parts -_('_')_-*/             \
+      if (els[i].material_index == part_index) {                               \
+        /* TODO: Insert these element ids sorted*/                             \
+        part.part_num++;                                                       \
+        part.part_ids =                                                        \
+            realloc(part.part_ids, part.part_num * sizeof(d3_word));           \
+        part.part_indices =                                                    \
+            realloc(part.part_indices, part.part_num * sizeof(size_t));        \
+        part.part_ids[part.part_num - 1] = ids[i];                             \
+        part.part_indices[part.part_num - 1] = i;                              \
       }                                                                        \
+                                                                               \
+      i++;                                                                     \
     }                                                                          \
                                                                                \
     free(ids);                                                                 \
-- 
2.43.0


From acaa8202f623d5196c51c655df971264897ac0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 82/92] fix: reading all element ids reports ids that can not
 be read

---
 src/d3plot.c | 53 +++++++++++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index 4540f22..d0703d8 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -612,36 +612,29 @@ d3_word *d3plot_read_all_element_ids(d3plot_file *plot_file, size_t *num_ids) {
   d3_word *all_ids = NULL;
   *num_ids = 0;
 
-  size_t num_ids_buffer;
-  d3_word *ids_buffer =
-      d3plot_read_solid_element_ids(plot_file, &num_ids_buffer);
-  /* If an error occurs when trying to read the element ids, those specific
-   * elements will be ignored*/
-  if (num_ids_buffer > 0) {
-    all_ids = _insert_sorted(all_ids, *num_ids, ids_buffer, num_ids_buffer);
-    *num_ids += num_ids_buffer;
-    free(ids_buffer);
-  }
-
-  ids_buffer = d3plot_read_beam_element_ids(plot_file, &num_ids_buffer);
-  if (num_ids_buffer > 0) {
-    all_ids = _insert_sorted(all_ids, *num_ids, ids_buffer, num_ids_buffer);
-    *num_ids += num_ids_buffer;
-    free(ids_buffer);
-  }
-
-  ids_buffer = d3plot_read_shell_element_ids(plot_file, &num_ids_buffer);
-  if (num_ids_buffer > 0) {
-    all_ids = _insert_sorted(all_ids, *num_ids, ids_buffer, num_ids_buffer);
-    *num_ids += num_ids_buffer;
-    free(ids_buffer);
-  }
-
-  ids_buffer = d3plot_read_thick_shell_element_ids(plot_file, &num_ids_buffer);
-  if (num_ids_buffer > 0) {
-    all_ids = _insert_sorted(all_ids, *num_ids, ids_buffer, num_ids_buffer);
-    *num_ids += num_ids_buffer;
-    free(ids_buffer);
+  d3_word *(*const read_functions[])(d3plot_file *, size_t *) = {
+      d3plot_read_solid_element_ids, d3plot_read_beam_element_ids,
+      d3plot_read_shell_element_ids, d3plot_read_thick_shell_element_ids};
+
+  size_t i = 0;
+  while (i < sizeof(read_functions) / sizeof(*read_functions)) {
+    size_t num_ids_buffer;
+    d3_word *ids_buffer = read_functions[i](plot_file, &num_ids_buffer);
+    if (plot_file->error_string) {
+      free(all_ids);
+      *num_ids = 0;
+
+      END_PROFILE_FUNC();
+      return NULL;
+    }
+
+    if (num_ids_buffer > 0) {
+      all_ids = _insert_sorted(all_ids, *num_ids, ids_buffer, num_ids_buffer);
+      *num_ids += num_ids_buffer;
+      free(ids_buffer);
+    }
+
+    i++;
   }
 
   END_PROFILE_FUNC();
-- 
2.43.0


From 0ae766e5f9db180133262822f294697acc26079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:32 +0000
Subject: [PATCH 83/92] fix: nodes of a part report elements that can not be
 read

---
 gen/d3plot_part_nodes_gen.c | 22 ++--------
 src/d3plot_part_nodes.c     | 18 ++++++++
 src/pgni.h                  | 88 +++++++------------------------------
 3 files changed, 38 insertions(+), 90 deletions(-)

diff --git a/gen/d3plot_part_nodes_gen.c b/gen/d3plot_part_nodes_gen.c
index 01172c9..d68897d 100644
--- a/gen/d3plot_part_nodes_gen.c
+++ b/gen/d3plot_part_nodes_gen.c
@@ -61,25 +61,18 @@ void pgni_add_element_function(FILE *file, const char *element_name /*1*/,
       "part, d3_word* part_node_ids, size_t* num_part_node_ids, const d3_word* "
       "node_ids, size_t num_nodes, const d3_word* "
       "%2$s, size_t %4$s, const %7$s* %3$s) {\n"
-      "if (part->%4$s != 0) {\n"
+      "/* Stop after the first error*/\n"
+      "if (!plot_file->error_string && part->%4$s != 0) {\n"
       "uint8_t loaded_ids = 0;\n"
       "uint8_t loaded_cons = 0;\n"
       "if (!%2$s) {\n"
       "loaded_ids = 1;\n"
       "%2$s = %5$s(plot_file, &%4$s);\n"
-      "if (plot_file->error_string) {\n"
-      "/*Ignore these elements*/\n"
-      "D3PLOT_CLEAR_ERROR_STRING();\n"
-      "}\n"
       "}\n"
       "if (%2$s) {\n"
       "if (!%3$s) {\n"
       "%3$s = %6$s(plot_file, &%4$s);\n"
       "loaded_cons = 1;\n"
-      "if (plot_file->error_string) {\n"
-      "/* Ignore these elements */\n"
-      "D3PLOT_CLEAR_ERROR_STRING();\n"
-      "}\n"
       "}\n"
       "if (%3$s) {\n"
       "size_t i = 0;"
@@ -140,25 +133,18 @@ void pgnind_add_element_function(FILE *file, const char *element_name /*1*/,
       "part, d3_word* part_node_indices, size_t* num_part_node_indices, const "
       "d3_word* "
       "%2$s, size_t %4$s, const %7$s* %3$s) {\n"
-      "if (part->%4$s != 0) {\n"
+      "/* Stop after the first error*/\n"
+      "if (!plot_file->error_string && part->%4$s != 0) {\n"
       "uint8_t loaded_ids = 0;\n"
       "uint8_t loaded_cons = 0;\n"
       "if (!%2$s) {\n"
       "loaded_ids = 1;\n"
       "%2$s = %5$s(plot_file, &%4$s);\n"
-      "if (plot_file->error_string) {\n"
-      "/*Ignore these elements*/\n"
-      "D3PLOT_CLEAR_ERROR_STRING();\n"
-      "}\n"
       "}\n"
       "if (%2$s) {\n"
       "if (!%3$s) {\n"
       "%3$s = %6$s(plot_file, &%4$s);\n"
       "loaded_cons = 1;\n"
-      "if (plot_file->error_string) {\n"
-      "/* Ignore these elements */\n"
-      "D3PLOT_CLEAR_ERROR_STRING();\n"
-      "}\n"
       "}\n"
       "if (%3$s) {\n"
       "size_t i = 0;"
diff --git a/src/d3plot_part_nodes.c b/src/d3plot_part_nodes.c
index da81b45..fe06b33 100644
--- a/src/d3plot_part_nodes.c
+++ b/src/d3plot_part_nodes.c
@@ -67,6 +67,15 @@ d3_word *d3plot_part_get_node_ids2(
     free((d3_word *)node_ids);
   }
 
+  /* Some elements could not be read*/
+  if (plot_file->error_string) {
+    free(part_node_ids);
+    *num_part_node_ids = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   /* Shrink to fit*/
   if (part_node_ids_cap != *num_part_node_ids) {
     part_node_ids =
@@ -99,6 +108,15 @@ d3_word *d3plot_part_get_node_indices2(
   PGNIND_ADD_SHELLS();
   PGNIND_ADD_THICK_SHELLS();
 
+  /* Some elements could not be read*/
+  if (plot_file->error_string) {
+    free(part_node_indices);
+    *num_part_node_indices = 0;
+
+    END_PROFILE_FUNC();
+    return NULL;
+  }
+
   /* Shrink to fit*/
   if (part_node_indices_cap != *num_part_node_indices) {
     part_node_indices =
diff --git a/src/pgni.h b/src/pgni.h
index 3073ea8..150e674 100644
--- a/src/pgni.h
+++ b/src/pgni.h
@@ -39,25 +39,18 @@ void pgni_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
                              const d3_word *node_ids, size_t num_nodes,
                              const d3_word *solid_ids, size_t num_solids,
                              const d3plot_solid_con *solid_cons) {
-  if (part->num_solids != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_solids != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!solid_ids) {
       loaded_ids = 1;
       solid_ids = d3plot_read_solid_element_ids(plot_file, &num_solids);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (solid_ids) {
       if (!solid_cons) {
         solid_cons = d3plot_read_solid_elements(plot_file, &num_solids);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (solid_cons) {
         size_t i = 0;
@@ -120,25 +113,18 @@ void pgni_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
                             const d3_word *node_ids, size_t num_nodes,
                             const d3_word *beam_ids, size_t num_beams,
                             const d3plot_beam_con *beam_cons) {
-  if (part->num_beams != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_beams != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!beam_ids) {
       loaded_ids = 1;
       beam_ids = d3plot_read_beam_element_ids(plot_file, &num_beams);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (beam_ids) {
       if (!beam_cons) {
         beam_cons = d3plot_read_beam_elements(plot_file, &num_beams);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (beam_cons) {
         size_t i = 0;
@@ -201,25 +187,18 @@ void pgni_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
                              const d3_word *node_ids, size_t num_nodes,
                              const d3_word *shell_ids, size_t num_shells,
                              const d3plot_shell_con *shell_cons) {
-  if (part->num_shells != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_shells != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!shell_ids) {
       loaded_ids = 1;
       shell_ids = d3plot_read_shell_element_ids(plot_file, &num_shells);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (shell_ids) {
       if (!shell_cons) {
         shell_cons = d3plot_read_shell_elements(plot_file, &num_shells);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (shell_cons) {
         size_t i = 0;
@@ -282,27 +261,20 @@ void pgni_add_element_thick_shells(
     size_t *num_part_node_ids, const d3_word *node_ids, size_t num_nodes,
     const d3_word *thick_shell_ids, size_t num_thick_shells,
     const d3plot_thick_shell_con *thick_shell_cons) {
-  if (part->num_thick_shells != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_thick_shells != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!thick_shell_ids) {
       loaded_ids = 1;
       thick_shell_ids =
           d3plot_read_thick_shell_element_ids(plot_file, &num_thick_shells);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (thick_shell_ids) {
       if (!thick_shell_cons) {
         thick_shell_cons =
             d3plot_read_thick_shell_elements(plot_file, &num_thick_shells);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (thick_shell_cons) {
         size_t i = 0;
@@ -365,25 +337,18 @@ void pgnind_add_element_solids(d3plot_file *plot_file, const d3plot_part *part,
                                size_t *num_part_node_indices,
                                const d3_word *solid_ids, size_t num_solids,
                                const d3plot_solid_con *solid_cons) {
-  if (part->num_solids != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_solids != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!solid_ids) {
       loaded_ids = 1;
       solid_ids = d3plot_read_solid_element_ids(plot_file, &num_solids);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (solid_ids) {
       if (!solid_cons) {
         solid_cons = d3plot_read_solid_elements(plot_file, &num_solids);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (solid_cons) {
         size_t i = 0;
@@ -446,25 +411,18 @@ void pgnind_add_element_beams(d3plot_file *plot_file, const d3plot_part *part,
                               size_t *num_part_node_indices,
                               const d3_word *beam_ids, size_t num_beams,
                               const d3plot_beam_con *beam_cons) {
-  if (part->num_beams != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_beams != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!beam_ids) {
       loaded_ids = 1;
       beam_ids = d3plot_read_beam_element_ids(plot_file, &num_beams);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (beam_ids) {
       if (!beam_cons) {
         beam_cons = d3plot_read_beam_elements(plot_file, &num_beams);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (beam_cons) {
         size_t i = 0;
@@ -527,25 +485,18 @@ void pgnind_add_element_shells(d3plot_file *plot_file, const d3plot_part *part,
                                size_t *num_part_node_indices,
                                const d3_word *shell_ids, size_t num_shells,
                                const d3plot_shell_con *shell_cons) {
-  if (part->num_shells != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_shells != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!shell_ids) {
       loaded_ids = 1;
       shell_ids = d3plot_read_shell_element_ids(plot_file, &num_shells);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (shell_ids) {
       if (!shell_cons) {
         shell_cons = d3plot_read_shell_elements(plot_file, &num_shells);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (shell_cons) {
         size_t i = 0;
@@ -607,27 +558,20 @@ void pgnind_add_element_thick_shells(
     d3plot_file *plot_file, const d3plot_part *part, d3_word *part_node_indices,
     size_t *num_part_node_indices, const d3_word *thick_shell_ids,
     size_t num_thick_shells, const d3plot_thick_shell_con *thick_shell_cons) {
-  if (part->num_thick_shells != 0) {
+  /* Stop after the first error*/
+  if (!plot_file->error_string && part->num_thick_shells != 0) {
     uint8_t loaded_ids = 0;
     uint8_t loaded_cons = 0;
     if (!thick_shell_ids) {
       loaded_ids = 1;
       thick_shell_ids =
           d3plot_read_thick_shell_element_ids(plot_file, &num_thick_shells);
-      if (plot_file->error_string) {
-        /*Ignore these elements*/
-        D3PLOT_CLEAR_ERROR_STRING();
-      }
     }
     if (thick_shell_ids) {
       if (!thick_shell_cons) {
         thick_shell_cons =
             d3plot_read_thick_shell_elements(plot_file, &num_thick_shells);
         loaded_cons = 1;
-        if (plot_file->error_string) {
-          /* Ignore these elements */
-          D3PLOT_CLEAR_ERROR_STRING();
-        }
       }
       if (thick_shell_cons) {
         size_t i = 0;
-- 
2.43.0


From a8568774b2ff52aab545f2144b1f4f6f9f0d6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 84/92] fix: calls on a closed d3plot read through a null
 pointer

---
 src/d3plot.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/d3plot.c b/src/d3plot.c
index d0703d8..5bbe6f6 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -534,6 +534,12 @@ d3plot_file d3plot_open(const char *root_file_name) {
   return plot_file;
 }
 
+/* Returns the data pointer or 0 if the file is not open*/
+static size_t _d3plot_get_data_pointer(const d3plot_file *plot_file,
+                                       size_t data_type) {
+  return plot_file->data_pointers ? plot_file->data_pointers[data_type] : 0;
+}
+
 void d3plot_close(d3plot_file *plot_file) {
   BEGIN_PROFILE_FUNC();
 
@@ -544,6 +550,8 @@ void d3plot_close(d3plot_file *plot_file) {
   free(plot_file->initial_node_coords);
   free(plot_file->initial_node_coords_32);
 
+  /* Set everything to 0 so that functions can be called after d3plot_close*/
+  memset(&plot_file->control_data, 0, sizeof(plot_file->control_data));
   plot_file->num_states = 0;
   plot_file->data_pointers = NULL;
   plot_file->error_string = NULL;
@@ -662,8 +670,8 @@ d3_word *d3plot_read_part_ids(d3plot_file *plot_file, size_t *num_parts) {
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  if (plot_file->data_pointers[D3PLT_PTR_PART_IDS] == 0) {
-    if (plot_file->data_pointers[D3PLT_PTR_PART_TITLES] == 0) {
+  if (_d3plot_get_data_pointer(plot_file, D3PLT_PTR_PART_IDS) == 0) {
+    if (_d3plot_get_data_pointer(plot_file, D3PLT_PTR_PART_TITLES) == 0) {
       ERROR_AND_NO_RETURN_PTR("Could not retrieve part ids");
       *num_parts = 0;
 
@@ -719,7 +727,7 @@ char **d3plot_read_part_titles(d3plot_file *plot_file, size_t *num_parts) {
   BEGIN_PROFILE_FUNC();
   D3PLOT_CLEAR_ERROR_STRING();
 
-  if (plot_file->data_pointers[D3PLT_PTR_PART_TITLES] == 0) {
+  if (_d3plot_get_data_pointer(plot_file, D3PLT_PTR_PART_TITLES) == 0) {
     ERROR_AND_NO_RETURN_PTR("Could not retrieve part titles");
     *num_parts = 0;
 
@@ -3143,7 +3151,8 @@ char *d3plot_read_title(d3plot_file *plot_file) {
   /* We never set D3PLT_PTR_TITLE, but because the Title is at position 0 we
    * don't need to*/
   d3_pointer d3_ptr = d3_buffer_read_words_at(
-      &plot_file->buffer, title, 10, plot_file->data_pointers[D3PLT_PTR_TITLE]);
+      &plot_file->buffer, title, 10,
+      _d3plot_get_data_pointer(plot_file, D3PLT_PTR_TITLE));
   d3_pointer_close(&plot_file->buffer, &d3_ptr);
   if (plot_file->buffer.error_string) {
     ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
@@ -3166,7 +3175,8 @@ struct tm *d3plot_read_run_time(d3plot_file *plot_file) {
   d3_word run_time = 0;
   d3_pointer d3_ptr =
       d3_buffer_read_words_at(&plot_file->buffer, &run_time, 1,
-                              plot_file->data_pointers[D3PLT_PTR_RUN_TIME]);
+                              _d3plot_get_data_pointer(plot_file,
+                                                       D3PLT_PTR_RUN_TIME));
   d3_pointer_close(&plot_file->buffer, &d3_ptr);
   if (plot_file->buffer.error_string) {
     ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
@@ -3187,7 +3197,8 @@ time_t d3plot_read_epoch_run_time(d3plot_file *plot_file) {
   d3_word run_time = 0;
   d3_pointer d3_ptr =
       d3_buffer_read_words_at(&plot_file->buffer, &run_time, 1,
-                              plot_file->data_pointers[D3PLT_PTR_RUN_TIME]);
+                              _d3plot_get_data_pointer(plot_file,
+                                                       D3PLT_PTR_RUN_TIME));
   d3_pointer_close(&plot_file->buffer, &d3_ptr);
   if (plot_file->buffer.error_string) {
     ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
@@ -3405,7 +3416,7 @@ double *_d3plot_read_node_data(d3plot_file *plot_file, size_t state,
   D3PLOT_CLEAR_ERROR_STRING();
   *num_nodes = 0;
 
-  if (plot_file->data_pointers[data_type] == 0) {
+  if (_d3plot_get_data_pointer(plot_file, data_type) == 0) {
     ERROR_AND_NO_RETURN_F_PTR(
         "This node data is not present IU=%llu IV=%llu IA=%llu",
         plot_file->control_data.iu, plot_file->control_data.iv,
@@ -3465,7 +3476,7 @@ float *_d3plot_read_node_data_32(d3plot_file *plot_file, size_t state,
   D3PLOT_CLEAR_ERROR_STRING();
   *num_nodes = 0;
 
-  if (plot_file->data_pointers[data_type] == 0) {
+  if (_d3plot_get_data_pointer(plot_file, data_type) == 0) {
     ERROR_AND_NO_RETURN_F_PTR(
         "This node data is not present IU=%llu IV=%llu IA=%llu",
         plot_file->control_data.iu, plot_file->control_data.iv,
-- 
2.43.0


From b1c184b42360ed2166c0a1c5fa1e8b10fb8cb131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:00 +0000
Subject: [PATCH 85/92] fix: python strings that begin with each other were not
 ordered

---
 src/python/conversions.hpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index 6e3d069..d070008 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -23,6 +23,7 @@
  * 3. This notice may not be removed or altered from any source distribution.
  ************************************************************************************/
 
+#include <algorithm>
 #include <array.hpp>
 #include <cstring>
 #include <d3_defines.h>
@@ -162,19 +163,23 @@ bool array_equals(const Array<T> &self, const py::object &other) {
   return false;
 }
 
+// Compares the contents of two arrays like strings
+template <typename T>
+int array_compare(const Array<T> &self, const Array<T> &other) noexcept {
+  const size_t size = std::min(self.size(), other.size());
+  const int rv = size ? memcmp(self.data(), other.data(), size) : 0;
+  if (rv != 0) {
+    return rv;
+  }
+
+  return self.size() < other.size() ? -1 : self.size() > other.size();
+}
+
 template <typename T>
 bool array_less_than(const Array<T> &self, const Array<T> &other) {
   if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t> ||
                 std::is_same_v<T, char>) {
-    if (self.size() <= other.size()) {
-      return strncmp(reinterpret_cast<const char *>(self.data()),
-                     reinterpret_cast<const char *>(other.data()),
-                     self.size()) < 0;
-    } else {
-      return strncmp(reinterpret_cast<const char *>(other.data()),
-                     reinterpret_cast<const char *>(self.data()),
-                     other.size()) > 0;
-    }
+    return array_compare(self, other) < 0;
   }
 
   throw py::type_error("This array can not be compared");
@@ -184,15 +189,7 @@ template <typename T>
 bool array_greater_than(const Array<T> &self, const Array<T> &other) {
   if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t> ||
                 std::is_same_v<T, char>) {
-    if (self.size() <= other.size()) {
-      return strncmp(reinterpret_cast<const char *>(self.data()),
-                     reinterpret_cast<const char *>(other.data()),
-                     self.size()) > 0;
-    } else {
-      return strncmp(reinterpret_cast<const char *>(other.data()),
-                     reinterpret_cast<const char *>(self.data()),
-                     other.size()) < 0;
-    }
+    return array_compare(self, other) > 0;
   }
 
   throw py::type_error("This array can not be compared");
-- 
2.43.0


From 8851fe99c17d41d451b7a9d57df2ee96d0c516bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:00 +0000
Subject: [PATCH 86/92] fix: python arrays were never equal to other arrays

---
 src/python/conversions.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index d070008..7b3288c 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -119,6 +119,12 @@ template <typename T> T &array_getitem(Array<T> &self, size_t index) {
 
 template <typename T>
 bool array_equals(const Array<T> &self, const py::object &other) {
+  if constexpr (std::is_integral_v<T> || std::is_floating_point_v<T>) {
+    if (py::isinstance<Array<T>>(other)) {
+      return self == other.cast<const Array<T> &>();
+    }
+  }
+
   if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t> ||
                 std::is_same_v<T, char>) {
     if (py::isinstance<py::str>(other)) {
-- 
2.43.0


From 3de0771c0ab377e93851cab9952bac1247fa53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 87/92] fix: calls that returned early left their profiling
 section running

---
 src/binout.c           | 1 +
 src/binout_directory.c | 1 +
 src/d3_buffer.c        | 3 +++
 src/d3plot.c           | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/src/binout.c b/src/binout.c
index a85c0ef..85bd2d5 100644
--- a/src/binout.c
+++ b/src/binout.c
@@ -417,6 +417,7 @@ char **binout_get_children(binout_file *bin_file,
   const binout_entry_t *folder_or_file =
       binout_directory_get_children(&bin_file->directory, &path, num_children);
   if (!folder_or_file) {
+    END_PROFILE_FUNC();
     return NULL;
   }
 
diff --git a/src/binout_directory.c b/src/binout_directory.c
index c815363..da9f7c3 100644
--- a/src/binout_directory.c
+++ b/src/binout_directory.c
@@ -288,6 +288,7 @@ const binout_entry_t *binout_directory_get_file(const binout_directory_t *dir,
   BEGIN_PROFILE_FUNC();
 
   if (dir->num_children == 0) {
+    END_PROFILE_FUNC();
     return NULL;
   }
 
diff --git a/src/d3_buffer.c b/src/d3_buffer.c
index 5fe2ea8..42ccd13 100644
--- a/src/d3_buffer.c
+++ b/src/d3_buffer.c
@@ -405,6 +405,7 @@ d3_pointer d3_buffer_read_words_at(d3_buffer *buffer, void *words,
   if (buffer->error_string) {
     ERROR_AND_NO_RETURN_BUFFER_F_PTR("Failed to seek the buffer: %s",
                                      buffer->error_string);
+    END_PROFILE_FUNC();
     return ptr;
   }
 
@@ -588,6 +589,7 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
 #endif
     ptr.cur_file = ULONG_MAX;
     ptr.cur_word = ULONG_MAX;
+    END_PROFILE_FUNC();
     return ptr;
   }
 
@@ -632,6 +634,7 @@ d3_pointer d3_buffer_seek(d3_buffer *buffer, size_t word_pos) {
   if (multi_file_seek(file, &ptr.multi_file_index, seek_pos, SEEK_SET) != 0) {
     ERROR_AND_NO_RETURN_BUFFER_PTR("Seek Error");
     d3_pointer_close(buffer, &ptr);
+    END_PROFILE_FUNC();
     return ptr;
   }
 
diff --git a/src/d3plot.c b/src/d3plot.c
index 5bbe6f6..0afeb59 100644
--- a/src/d3plot.c
+++ b/src/d3plot.c
@@ -3181,6 +3181,7 @@ struct tm *d3plot_read_run_time(d3plot_file *plot_file) {
   if (plot_file->buffer.error_string) {
     ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
                               plot_file->buffer.error_string);
+    END_PROFILE_FUNC();
     return NULL;
   }
   const time_t epoch_time = run_time;
@@ -3203,6 +3204,7 @@ time_t d3plot_read_epoch_run_time(d3plot_file *plot_file) {
   if (plot_file->buffer.error_string) {
     ERROR_AND_NO_RETURN_F_PTR("Failed to read words: %s",
                               plot_file->buffer.error_string);
+    END_PROFILE_FUNC();
     return (time_t)0;
   }
   const time_t epoch_time = run_time;
-- 
2.43.0


From 64d8ff4708a7518c320a41c39c9eec7a3e599ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 88/92] fix: only the nested times of one entry of the
 profiling report were sorted

---
 src/profiling.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/profiling.c b/src/profiling.c
index 0b22e25..a0a35c2 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -65,10 +65,17 @@ void quick_sort_execution_times(profiling_stack_t *stack, signed long low,
     quick_sort_execution_times(stack, low, pi - 1);
     quick_sort_execution_times(stack, pi + 1, high);
   }
+}
+
+/* Sort the stacks and everything below all of them*/
+void sort_execution_times(profiling_stack_t *stack, size_t num_stacks) {
+  quick_sort_execution_times(stack, 0, (signed long)num_stacks - 1);
 
-  if (stack->num_sub_executions != 0) {
-    quick_sort_execution_times(stack->sub_executions, 0,
-                               stack->num_sub_executions - 1);
+  size_t i = 0;
+  while (i < num_stacks) {
+    sort_execution_times(stack[i].sub_executions, stack[i].num_sub_executions);
+
+    i++;
   }
 }
 
@@ -246,8 +253,8 @@ void END_PROFILING(const char *out_file_name) {
       return;
     }
 
-    quick_sort_execution_times(profiling_context.execution_stacks, 0,
-                               profiling_context.num_execution_stacks - 1);
+    sort_execution_times(profiling_context.execution_stacks,
+                         profiling_context.num_execution_stacks);
 
     fprintf(out_file,
             "--------------------- Profiling ----------------------\n");
-- 
2.43.0


From 022e600682bc3a5b4384f84a8987519ac38bb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 89/92] fix: iterators of keywords and cards could not be used
 with ->

---
 src/cpp/key.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cpp/key.hpp b/src/cpp/key.hpp
index d935c36..427fcbc 100644
--- a/src/cpp/key.hpp
+++ b/src/cpp/key.hpp
@@ -147,6 +147,13 @@ private:
   bool m_delete_handle;
 };
 
+// Keeps the object alive of which a member is accessed through operator-> of an
+// iterator
+template <typename T> struct ArrowProxy {
+  T object;
+  T *operator->() noexcept { return &object; }
+};
+
 // A Keyword of a LS Dyna key file (input deck) with all its cards
 class Keyword {
 public:
@@ -179,7 +186,7 @@ public:
     difference_type operator-(const CardsIterator &rhs) const noexcept {
       return m_index - rhs.m_index;
     }
-    Card operator->() noexcept { return Card(&m_data[m_index]); }
+    ArrowProxy<Card> operator->() noexcept { return {**this}; }
     Card operator*() noexcept { return Card(&m_data[m_index]); }
 
   public:
@@ -239,7 +246,7 @@ public:
     difference_type operator-(const Iterator &rhs) const noexcept {
       return (difference_type)m_data - (difference_type)rhs.m_data;
     }
-    Keyword operator->() noexcept { return Keyword(m_data); }
+    ArrowProxy<Keyword> operator->() noexcept { return {**this}; }
     Keyword operator*() noexcept { return Keyword(m_data); }
 
   public:
-- 
2.43.0


From a38a69ca6f7ea60212681f2c4260030d7eb580a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 90/92] fix: the difference of keyword iterators was counted in
 bytes

---
 src/cpp/key.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cpp/key.hpp b/src/cpp/key.hpp
index 427fcbc..9f148bf 100644
--- a/src/cpp/key.hpp
+++ b/src/cpp/key.hpp
@@ -244,11 +244,17 @@ public:
       return m_data != rhs.m_data;
     }
     difference_type operator-(const Iterator &rhs) const noexcept {
-      return (difference_type)m_data - (difference_type)rhs.m_data;
+      return rhs.num_left() - num_left();
     }
     ArrowProxy<Keyword> operator->() noexcept { return {**this}; }
     Keyword operator*() noexcept { return Keyword(m_data); }
 
+  private:
+    // The number of keywords from this one to the end of the slice
+    difference_type num_left() const noexcept {
+      return m_data ? static_cast<difference_type>(m_left) + 1 : 0;
+    }
+
   public:
     keyword_t *m_data;
     size_t m_left;
-- 
2.43.0


From 11d8a11127af61a7692d71319d414936f59208e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 91/92] fix: printed tensors had a colon instead of a semicolon
 before XZ

---
 src/cpp/d3plot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/d3plot.cpp b/src/cpp/d3plot.cpp
index 0caa30a..6ab0ac1 100644
--- a/src/cpp/d3plot.cpp
+++ b/src/cpp/d3plot.cpp
@@ -464,7 +464,7 @@ D3plotPart D3plot::read_part_by_id(size_t part_id,
 
 std::ostream &operator<<(std::ostream &stream, const d3plot_tensor &t) {
   return stream << "(X: " << t.x << "; Y: " << t.y << "; Z: " << t.z
-                << "; XY: " << t.xy << "; YZ: " << t.yz << ": XZ: " << t.xz
+                << "; XY: " << t.xy << "; YZ: " << t.yz << "; XZ: " << t.xz
                 << ")";
 }
 
-- 
2.43.0


From 96ff07c53d4b859e853491102cb2130d3d9ef58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:45 +0000
Subject: [PATCH 92/92] fix: assigning to an element of a python result array
 shared and freed memory of another one

---
 src/python/conversions.hpp | 87 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 86 insertions(+), 1 deletion(-)

diff --git a/src/python/conversions.hpp b/src/python/conversions.hpp
index 7b3288c..d5f8693 100644
--- a/src/python/conversions.hpp
+++ b/src/python/conversions.hpp
@@ -78,6 +78,91 @@ template <typename T> Array<T> array_constructor(size_t size) {
   return Array<T>(data, size);
 }
 
+template <typename T> void array_assign(T &dst, const T &src) { dst = src; }
+
+// The array keeps the memory of its elements, therefore only the values get
+// copied
+inline void assign_history_variables(double *dst, const double *src,
+                                     size_t size) {
+  if (dst && src) {
+    memmove(dst, src, size * sizeof(double));
+  }
+}
+
+inline void check_assignable(bool assignable) {
+  if (!assignable) {
+    throw py::value_error("Elements with different numbers of history "
+                          "variables or integration points can not be assigned");
+  }
+}
+
+template <typename T>
+void assign_point(T &dst, const T &src, size_t num_history_variables) {
+  double *history_variables = dst.history_variables;
+  dst = src;
+  dst.history_variables = history_variables;
+  assign_history_variables(history_variables, src.history_variables,
+                           num_history_variables);
+}
+
+template <typename T> void assign_shell(T &dst, const T &src) {
+  const size_t num = dst.num_history_variables;
+  check_assignable(num == src.num_history_variables &&
+                   dst.num_additional_integration_points ==
+                       src.num_additional_integration_points);
+
+  const T old = dst;
+  dst = src;
+  dst.mid = old.mid;
+  dst.inner = old.inner;
+  dst.outer = old.outer;
+  dst.add_ips = old.add_ips;
+  assign_point(dst.mid, src.mid, num);
+  assign_point(dst.inner, src.inner, num);
+  assign_point(dst.outer, src.outer, num);
+  for (size_t i = 0; i < src.num_additional_integration_points; i++) {
+    assign_point(dst.add_ips[i], src.add_ips[i], num);
+  }
+}
+
+inline void array_assign(D3plotShell &dst, const D3plotShell &src) {
+  assign_shell(dst, src);
+}
+
+inline void array_assign(D3plotThickShell &dst, const D3plotThickShell &src) {
+  assign_shell(dst, src);
+}
+
+inline void array_assign(D3plotBeam &dst, const D3plotBeam &src) {
+  const size_t num = dst.num_history_variables;
+  check_assignable(num == src.num_history_variables &&
+                   dst.num_integration_points == src.num_integration_points);
+
+  const D3plotBeam old = dst;
+  dst = src;
+  dst.history_average = old.history_average;
+  dst.history_min = old.history_min;
+  dst.history_max = old.history_max;
+  dst.ips = old.ips;
+  assign_history_variables(dst.history_average, src.history_average, num);
+  assign_history_variables(dst.history_min, src.history_min, num);
+  assign_history_variables(dst.history_max, src.history_max, num);
+  for (size_t i = 0; i < src.num_integration_points; i++) {
+    assign_point(dst.ips[i], src.ips[i], num);
+  }
+}
+
+// The number of their history variables is not known
+inline void array_assign(d3plot_surface &dst, const d3plot_surface &src) {
+  check_assignable(!dst.history_variables && !src.history_variables);
+  dst = src;
+}
+
+inline void array_assign(d3plot_beam_ip &dst, const d3plot_beam_ip &src) {
+  check_assignable(!dst.history_variables && !src.history_variables);
+  dst = src;
+}
+
 template <typename T>
 void array_setitem(Array<T> &self, size_t index, py::object other) {
   if (py::isinstance<py::str>(other)) {
@@ -102,7 +187,7 @@ void array_setitem(Array<T> &self, size_t index, py::object other) {
     }
   } else {
     if constexpr (std::is_copy_assignable_v<T>) {
-      self[index] = other.cast<T>();
+      array_assign(self[index], other.cast<T>());
     } else {
       self[index] = std::move(other).cast<T>();
     }
-- 
2.43.0

