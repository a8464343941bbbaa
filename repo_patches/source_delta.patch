From bdc0ba2f4642a2f449309575e7544178e7f42e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 01/24] fix: return an invalid descriptor when a file lock
 cannot be acquired

kvtree_open_with_lock returned KVTREE_FAILURE (1), which callers took for
an open descriptor and then read, wrote and closed standard output.
---
 src/kvtree_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 81c6def..954b23e 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -222,7 +222,7 @@ int kvtree_open_with_lock(const char* file, int flags, mode_t mode, int write)
   int ret = kvtree_file_lock_read_write(file, fd, write);
   if (ret != KVTREE_SUCCESS) {
     close(fd);
-    return ret;
+    return -1;
   }
 
   /* return the opened file descriptor */
-- 
2.43.0


From 81523af2d652f19a93707682696a66ea576c6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 02/24] fix: close the file descriptor even if releasing the
 lock fails

---
 src/kvtree_io.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index 954b23e..cd3493b 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -234,12 +234,13 @@ int kvtree_close_with_unlock(const char* file, int fd)
 {
   /* release the file lock */
   int ret = kvtree_file_unlock(file, fd);
-  if (ret != KVTREE_SUCCESS) {
-    return ret;
+
+  /* close the file, even if we failed to release the lock */
+  if (kvtree_close(file, fd) != KVTREE_SUCCESS) {
+    ret = KVTREE_FAILURE;
   }
 
-  /* close the file */
-  return kvtree_close(file, fd);
+  return ret;
 }
 
 /* seek file descriptor to specified position */
-- 
2.43.0


From 8585f40f18c966cc78b4ea844d0daada44b08561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 03/24] fix: report failures in kvtree_write_with_lock and drop
 the old file's tail

Write and close errors were ignored, and a shorter tree left the end of a
longer previous file in place.
---
 src/kvtree.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index a43c4a9..e818ecc 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1571,13 +1571,26 @@ int kvtree_write_with_lock(const char* file, kvtree* hash)
 {
   int fd = kvtree_read_write_with_lock(file, hash, 1);
   if (fd >= 0) {
-    /* write the file into the hash */
-    kvtree_write_fd(file, fd, hash);
+    int rc = KVTREE_SUCCESS;
+
+    /* write the hash to the file */
+    ssize_t nwrite = kvtree_write_fd(file, fd, hash);
+    if (nwrite < 0) {
+      rc = KVTREE_FAILURE;
+    } else if (ftruncate(fd, (off_t) nwrite) == -1) {
+      /* failed to drop what is left of a longer, older version of the file */
+      kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
+        errno, strerror(errno), __FILE__, __LINE__
+      );
+      rc = KVTREE_FAILURE;
+    }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, fd);
+    if (kvtree_close_with_unlock(file, fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
-    return KVTREE_SUCCESS;
+    return rc;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
       file, __FILE__, __LINE__
-- 
2.43.0


From e91639cb6b1cc94c846fb89b160160fbb5865653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 04/24] fix: report seek, write, truncate and close failures in
 kvtree_write_close_unlock

---
 src/kvtree.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index e818ecc..d01d5c2 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1653,6 +1653,8 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
  * file with hash, close, and unlock file */
 int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 {
+  int rc = KVTREE_SUCCESS;
+
   /* check that we got a pointer to a file descriptor */
   if (fd == NULL) {
     kvtree_err("Must provide a pointer to an opened file descriptor @ %s:%d",
@@ -1687,10 +1689,11 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 
   if (*fd >= 0) {
     /* wind the file pointer back to the start of the file */
-    lseek(*fd, 0, SEEK_SET);
-
-    /* write the updated hash back to the file */
-    ssize_t nwrite = kvtree_write_fd(file, *fd, hash);
+    ssize_t nwrite = -1;
+    if (kvtree_lseek(file, *fd, 0, SEEK_SET) == KVTREE_SUCCESS) {
+      /* write the updated hash back to the file */
+      nwrite = kvtree_write_fd(file, *fd, hash);
+    }
 
     /* truncate file to new size */
     if (nwrite >= 0) {
@@ -1698,17 +1701,22 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
         kvtree_err("ftruncate() failed: errno=%d (%s) @ %s:%d",
           errno, strerror(errno), __FILE__, __LINE__
         );
+        rc = KVTREE_FAILURE;
       }
+    } else {
+      rc = KVTREE_FAILURE;
     }
 
     /* close the file and release the lock */
-    kvtree_close_with_unlock(file, *fd);
+    if (kvtree_close_with_unlock(file, *fd) != KVTREE_SUCCESS) {
+      rc = KVTREE_FAILURE;
+    }
 
     /* mark the file descriptor as closed */
     *fd = -1;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /** write kvtree as gather/scatter file, input kvtree must be in form:
-- 
2.43.0


From 853c45751e6e862f5b67b12008d9709f2fedd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 05/24] fix: fail and release the lock in kvtree_lock_open_read
 when the read fails

The read result was ignored: a damaged or unreadable file looked empty and
the matching write then replaced it.
---
 src/kvtree.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index d01d5c2..8e0cdb7 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1642,7 +1642,12 @@ int kvtree_lock_open_read(const char* file, int* fd, kvtree* hash)
   *fd = kvtree_open_with_lock(file, O_RDWR | O_CREAT, mode_file, 1);
   if (*fd >= 0) {
     /* read the file into the hash */
-    kvtree_read_fd(file, *fd, hash);
+    if (kvtree_read_fd(file, *fd, hash) < 0) {
+      kvtree_err("Couldn't read file %s @ %s:%d", file, __FILE__, __LINE__);
+      kvtree_close_with_unlock(file, *fd);
+      *fd = -1;
+      return KVTREE_FAILURE;
+    }
     return KVTREE_SUCCESS;
   }
 
-- 
2.43.0


From 86e7bd9d62b100d076c7a693720baa64d85dd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 06/24] fix: pass the size to the out-of-memory message

---
 src/kvtree_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvtree_helpers.c b/src/kvtree_helpers.c
index d7ba4e9..fb3e2d1 100644
--- a/src/kvtree_helpers.c
+++ b/src/kvtree_helpers.c
@@ -70,7 +70,7 @@ void* kvtree_malloc(size_t size, const char* file, int line)
   if (size > 0) {
     ptr = malloc(size);
     if (ptr == NULL) {
-      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", file, line);
+      kvtree_abort(-1, "Failed to allocate %llu bytes @ %s:%d", (unsigned long long) size, file, line);
     }
   }
   return ptr;
-- 
2.43.0


From c2c0307370881878c1de019a4531c0fcafd9fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 07/24] fix: reject files whose size or contents are
 inconsistent

A bad size field made kvtree_read_fd abort the process or read before and
beyond its buffer, and contents that do not form a packed hash were read
out of bounds.
---
 src/kvtree.c | 64 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 8e0cdb7..1dcb70d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1103,6 +1103,38 @@ size_t kvtree_unpack(const char* buf, kvtree* hash)
 /** @name Read and write hash to a file */
 ///@{
 
+/** returns the number of bytes of the packed hash at the start of buf,
+ * or 0 if there is no complete packed hash within bufsize bytes */
+static size_t kvtree_unpack_check(const char* buf, size_t bufsize)
+{
+  /* read in the COUNT value */
+  size_t size = sizeof(uint32_t);
+  if (bufsize < size) {
+    return 0;
+  }
+  uint32_t count_network = 0;
+  memcpy(&count_network, buf, sizeof(uint32_t));
+  uint32_t count = kvtree_ntoh32(count_network);
+
+  /* check each element: a KEY string and its hash */
+  uint32_t i;
+  for (i = 0; i < count; i++) {
+    const char* end = (const char*) memchr(buf + size, '\0', bufsize - size);
+    if (end == NULL) {
+      return 0;
+    }
+    size = (size_t) (end - buf) + 1;
+
+    size_t hash_size = kvtree_unpack_check(buf + size, bufsize - size);
+    if (hash_size == 0) {
+      return 0;
+    }
+    size += hash_size;
+  }
+
+  return size;
+}
+
 /** computes the size needed to persist a hash
 includes room for header, data, and crc32 */
 size_t kvtree_persist_size(const kvtree* hash)
@@ -1388,16 +1420,26 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   uint32_t flags;
   kvtree_unpack_uint32_t(header, sizeof(header), &size, &flags);
 
-  /* check that the filesize is valid (positive) */
-  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE) {
+  /* check that the filesize has room for the header, an (empty) hash,
+   * and the crc value if it's set */
+  int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
+  size_t crc_size = crc_set ? sizeof(uint32_t) : 0;
+  if (filesize < KVTREE_FILE_HASH_HEADER_SIZE + sizeof(uint32_t) + crc_size) {
     kvtree_err("Invalid file size stored in %s @ %s:%d",
       file, __FILE__, __LINE__
     );
     return -1;
   }
 
-  /* allocate a buffer to read the hash and crc */
-  char* buf = (char*) KVTREE_MALLOC(filesize);
+  /* allocate a buffer to read the hash and crc, the file size may be bad
+   * so do not abort if there is not enough memory for it */
+  char* buf = (char*) malloc(filesize);
+  if (buf == NULL) {
+    kvtree_err("Failed to allocate %llu bytes to read %s @ %s:%d",
+      (unsigned long long) filesize, file, __FILE__, __LINE__
+    );
+    return -1;
+  }
 
   /* copy the header into the buffer */
   memcpy(buf, header, size);
@@ -1421,11 +1463,7 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   }
 
   /* check the crc value if it's set */
-  int crc_set = flags & KVTREE_FILE_FLAGS_CRC32;
   if (crc_set) {
-    /* TODO: we should check that the remainder above is at least 4
-     * (for the crc) */
-
     /* compute the crc value of the data */
     uLong crc = crc32(0L, Z_NULL, 0);
     crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
@@ -1445,6 +1483,16 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     }
   }
 
+  /* check that the contents form a packed hash */
+  size_t body_size = filesize - size - crc_size;
+  if (kvtree_unpack_check(buf + size, body_size) != body_size) {
+    kvtree_err("Invalid hash stored in %s @ %s:%d",
+      file, __FILE__, __LINE__
+    );
+    kvtree_free(&buf);
+    return -1;
+  }
+
   /* create a temporary hash to read data into, unpack, and merge */
   kvtree* tmp_hash = kvtree_new();
   kvtree_unpack(buf + size, tmp_hash);
-- 
2.43.0


From c9e6f1da0df47a493e66e01e5bd54ec4f81142c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 08/24] fix: compare integer keys without overflow when sorting

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 1dcb70d..feda7d2 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -551,7 +551,7 @@ static int kvtree_cmp_fn_int_asc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_a - int_b);
+  return (int_a > int_b) - (int_a < int_b);
 }
 
 /** sort integers in descending order */
@@ -561,7 +561,7 @@ static int kvtree_cmp_fn_int_desc(const void* a, const void* b)
   struct sort_elem_int* elem_b = (struct sort_elem_int*) b;
   int int_a = elem_a->key;
   int int_b = elem_b->key;
-  return (int) (int_b - int_a);
+  return (int_b > int_a) - (int_b < int_a);
 }
 
 /** sort the hash assuming the keys are ints */
-- 
2.43.0


From ca122e07507050a37de0d935826063cde83dbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 09/24] fix: start a new segment for data that begins on a
 segment boundary

Data ending exactly on a boundary never overflows it, so the next rank
joined the previous writer, which could collect data without limit.
---
 src/kvtree_mpi_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 71cd502..7158bb2 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -49,11 +49,12 @@ static int pick_writer(
     /* force rank 0 to start a segment, even if it has no bytes */
     starts_new = 1;
   } else if (count > 0) {
-    /* otherwise we only start a segment if our bytes overflow the boundary */
+    /* otherwise we only start a segment if our bytes overflow the boundary,
+     * or if they start right at the boundary */
     unsigned long segindex = offset / segsize;
     unsigned long seglastbyte = (segindex + 1) * segsize - 1;
     unsigned long mylastbyte  = offset + count - 1;
-    if (mylastbyte > seglastbyte) {
+    if (mylastbyte > seglastbyte || offset % segsize == 0) {
       starts_new = 1;
     }
   }
-- 
2.43.0


From 102d5befe4b4534200316b83faa4c5ef4d64423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 10/24] fix: print and log trees of any depth

The indentation was built in a fixed buffer that deep trees overflowed.
---
 src/kvtree.c | 54 +++++++++++++---------------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index feda7d2..60acd09 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2003,23 +2003,16 @@ end:
 /** prints specified hash element to stdout for debugging */
 static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (mode == KVTREE_PRINT_TREE) {
     if (elem != NULL) {
       if (elem->key != NULL) {
-        printf("%s%s\n", tmp, elem->key);
+        printf("%*s%s\n", indent, "", elem->key);
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
       }
       kvtree_print_mode(elem->hash, indent, mode);
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2034,25 +2027,25 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
           if (elem2->hash == NULL || kvtree_size(elem2->hash) == 0) {
             /* my hash has one value, and the hash for that one value
              * is empty, so print this as a key/value pair */
-            printf("%s%s = %s\n", tmp, elem->key, elem2->key);
+            printf("%*s%s = %s\n", indent, "", elem->key, elem2->key);
           } else {
             /* my hash has one value, but the hash for that one value is
              * non-empty so we need to recurse into hash */
-            printf("%s%s\n", tmp, elem->key);
+            printf("%*s%s\n", indent, "", elem->key);
             kvtree_print_mode(elem->hash, indent, mode);
           }
         } else {
           /* hash for current element has 0 or more than one items,
            * so we need to recurse into hash */
-          printf("%s%s\n", tmp, elem->key);
+          printf("%*s%s\n", indent, "", elem->key);
           kvtree_print_mode(elem->hash, indent, mode);
         }
       } else {
-        printf("%sNULL KEY\n", tmp);
+        printf("%*sNULL KEY\n", indent, "");
         kvtree_print_mode(elem->hash, indent, mode);
       }
     } else {
-      printf("%sNULL ELEMENT\n", tmp);
+      printf("%*sNULL ELEMENT\n", indent, "");
     }
 
     return KVTREE_SUCCESS;
@@ -2064,20 +2057,13 @@ static int kvtree_elem_print(const kvtree_elem* elem, int indent, int mode)
 /** prints specified hash to stdout for debugging */
 int kvtree_print_mode(const kvtree* hash, int indent, int mode)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_print(elem, indent + 2, mode);
     }
   } else {
-    printf("%sNULL LIST\n", tmp);
+    printf("%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2091,22 +2077,15 @@ int kvtree_print(const kvtree* hash, int indent)
 /** logs specified hash element to stdout for debugging */
 static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (elem != NULL) {
     if (elem->key != NULL) {
-      kvtree_dbg(log_level, "%s%s\n", tmp, elem->key);
+      kvtree_dbg(log_level, "%*s%s\n", indent, "", elem->key);
     } else {
-      kvtree_dbg(log_level, "%sNULL KEY\n", tmp);
+      kvtree_dbg(log_level, "%*sNULL KEY\n", indent, "");
     }
     kvtree_log(elem->hash, log_level, indent);
   } else {
-    kvtree_dbg(log_level, "%sNULL ELEMENT\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL ELEMENT\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
@@ -2114,20 +2093,13 @@ static int kvtree_elem_log(const kvtree_elem* elem, int log_level, int indent)
 /** prints specified hash to stdout for debugging */
 int kvtree_log(const kvtree* hash, int log_level, int indent)
 {
-  char tmp[KVTREE_MAX_FILENAME];
-  int i;
-  for (i = 0; i < indent; i++) {
-    tmp[i] = ' ';
-  }
-  tmp[indent] = '\0';
-
   if (hash != NULL) {
     kvtree_elem* elem;
     LIST_FOREACH(elem, hash, pointers) {
       kvtree_elem_log(elem, log_level, indent+2);
     }
   } else {
-    kvtree_dbg(log_level, "%sNULL LIST\n", tmp);
+    kvtree_dbg(log_level, "%*sNULL LIST\n", indent, "");
   }
   return KVTREE_SUCCESS;
 }
-- 
2.43.0


From 4ad5415b0bc9f49af02fc3e919fc5c3c0888673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 11/24] fix: receive an empty hash from MPI_PROC_NULL

The size was left uninitialized, since such a receive does not set it.
---
 src/kvtree_mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi.c b/src/kvtree_mpi.c
index fc9ce37..8682b82 100644
--- a/src/kvtree_mpi.c
+++ b/src/kvtree_mpi.c
@@ -65,8 +65,8 @@ int kvtree_recv(kvtree* hash, int rank, MPI_Comm comm)
   /* clear the hash */
   kvtree_unset_all(hash);
 
-  /* get the size of the incoming hash */
-  int size;
+  /* get the size of the incoming hash, nothing comes from MPI_PROC_NULL */
+  int size = 0;
   MPI_Status status;
   MPI_Recv(&size, 1, MPI_INT, rank, 0, comm, &status);
 
-- 
2.43.0


From 38ed8324b80f5dcce9e74258417f69f3a0348200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 12/24] fix: do not leak a new hash in kvtree_set_kv without a
 key or value

---
 src/kvtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 60acd09..30c330d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -700,7 +700,7 @@ int kvtree_list_int(const kvtree* hash, int* n, int** v)
 /** shortcut to create a key and subkey in a hash with one call */
 kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
 {
-  if (hash == NULL) {
+  if (hash == NULL || key == NULL) {
     return NULL;
   }
 
@@ -710,7 +710,7 @@ kvtree* kvtree_set_kv(kvtree* hash, const char* key, const char* val)
   }
 
   kvtree* v = kvtree_get(k, val);
-  if (v == NULL) {
+  if (v == NULL && val != NULL) {
     v = kvtree_set(k, val, kvtree_new());
   }
 
-- 
2.43.0


From f39d47519712b0dd954959c66b32157a80ce1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 13/24] fix: serial scatter read of incomplete sets, odd
 prefixes, and leaks

kvtree_read_scatter_single merged an incomplete set into the caller's tree
before failing, took the prefix for a regular expression, and leaked the
regex and each subfile's ranks.
---
 src/kvtree.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 30c330d..54bacb8 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1923,13 +1923,12 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   char* prefix_file_copy = strdup(prefix);
   char* prefix_file = basename(prefix_file_copy);
 
-  /* Create our regex to match our prefix files */
-  char pattern[PATH_MAX];
-  snprintf(pattern, sizeof(pattern), "^%s\\.0\\.[0-9]+$", prefix_file);
-  pattern[sizeof(pattern) - 1] = '\0';
+  /* Create our regex to match what follows the prefix in our prefix files */
+  size_t prefix_len = strlen(prefix_file);
+  unsigned long actual_ranks = 0;
 
   regex_t regex;
-  rc = regcomp(&regex, pattern, REG_EXTENDED);
+  rc = regcomp(&regex, "^\\.0\\.[0-9]+$", REG_EXTENDED);
   if (rc) {
     rc = KVTREE_FAILURE;
     goto end;
@@ -1937,12 +1936,12 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 
   DIR* d = opendir(prefix_dir);
   if (!d) {
+    regfree(&regex);
     rc = KVTREE_FAILURE;
     goto end;
   }
 
   /* For each file/dir in our prefix dir */
-  unsigned long actual_ranks = 0;
   struct dirent* dir;
   while ((dir = readdir(d)) != NULL) {
     /*
@@ -1950,7 +1949,10 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
      * like "rank2file.".
      */
     /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = regexec(&regex, dir->d_name, 0, NULL, 0);
+    rc = strncmp(dir->d_name, prefix_file, prefix_len);
+    if (rc == 0) {
+      rc = regexec(&regex, dir->d_name + prefix_len, 0, NULL, 0);
+    }
     if (rc == 0) {  /* Did we get both numbers in the extension? */
       /* subfile matches */
 
@@ -1974,6 +1976,7 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
             if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
               actual_ranks += kvtree_size(subfile_rank_tree);
             }
+            kvtree_delete(&subfile_rank_tree);
           }
         }
       }
@@ -1981,18 +1984,22 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
     }
   }
   closedir(d);
-  kvtree_merge(data, final_tree);
-  rc = KVTREE_SUCCESS;
+  regfree(&regex);
+
+  /* check that we have every rank, each from a single subfile */
+  rc = KVTREE_FAILURE;
+  if (actual_ranks == expected_ranks &&
+      (unsigned long) kvtree_size(final_tree) == expected_ranks)
+  {
+    rc = kvtree_merge(data, final_tree);
+  }
 
 end:
   kvtree_free(&prefix_dir_copy);
   kvtree_free(&prefix_file_copy);
   kvtree_delete(&final_tree);
-  if (rc != KVTREE_SUCCESS || actual_ranks != expected_ranks) {
-    return KVTREE_FAILURE;
-  }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 ///@}
 
-- 
2.43.0


From 695b73539d0ab39b6f2a6a10d0f1690f06e11ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 14/24] fix: free the file name when a scatter read fails

---
 src/kvtree_mpi_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 7158bb2..67b3d4c 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -484,6 +484,7 @@ static int kvtree_read_scatter_map(
 
   /* check for read errors */
   if (! kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
+    kvtree_free(&newfile);
     rc = KVTREE_FAILURE;
     goto cleanup;
   }
-- 
2.43.0


From c9c895f91fa0269d876e67886259fccca332c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 15/24] fix: report a failure to close a gather file

---
 src/kvtree_mpi_io.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 67b3d4c..86a2876 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -247,7 +247,9 @@ static unsigned long kvtree_write_gather_map(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err("Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
@@ -357,7 +359,9 @@ int kvtree_write_gather(
       kvtree_free(&buf);
 
       /* close the file */
-      kvtree_close(mappath, fd);
+      if (kvtree_close(mappath, fd) != KVTREE_SUCCESS) {
+        rc = KVTREE_FAILURE;
+      }
     } else {
       kvtree_err( "Opening file for write: %s @ %s:%d",
         mappath, __FILE__, __LINE__
-- 
2.43.0


From f5383219de4c79f7d6d447b82477b9ecad220d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 16/24] verification hook: segment size of gather files
 (KVTREE_VERIF_HOOKS)

---
 src/kvtree_mpi_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 86a2876..be0785f 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -32,6 +32,13 @@ static int pick_writer(
 {
   /* use a segment size of 1MB */
   unsigned long segsize = 1024*1024;
+#ifdef KVTREE_VERIF_HOOKS
+  /* let the verification lower the segment size, to reach many levels of
+   * maps with few ranks */
+  if (getenv("KVTREE_VERIF_SEGSIZE") != NULL) {
+    segsize = strtoul(getenv("KVTREE_VERIF_SEGSIZE"), NULL, 10);
+  }
+#endif
 
   /* get communicator info */
   int rank, ranks;
-- 
2.43.0


From 7432b9c36ac9ddf7f68eeb4e4ccb5bb73df5afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 17/24] fix: serial scatter read follows the files the map
 lists, ignoring stale parts

---
 src/kvtree.c | 130 +++++++++++++++++++++------------------------------
 1 file changed, 53 insertions(+), 77 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 54bacb8..dba0067 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -18,10 +18,7 @@
 #include <fcntl.h>
 #include <string.h>
 #include <errno.h>
-#include <libgen.h>
-#include <dirent.h>
 #include <limits.h>
-#include <regex.h>
 
 
 /* need at least version 8.5 of queue.h from Berkeley */
@@ -1871,6 +1868,51 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
   return rc;
 }
 
+/* Read the map or part file named prefix followed by file, and merge the data
+ * of each rank found in the part files below it into data.  Adds the number of
+ * rank entries read to *count.  Each file must have a lower level than the map
+ * that lists it, and part files are at level 0. */
+static int kvtree_read_scatter_file(
+  const char* prefix, const char* file, unsigned long maxlevel,
+  kvtree* data, unsigned long* count)
+{
+  int rc = KVTREE_FAILURE;
+
+  size_t len = strlen(prefix) + strlen(file) + 1;
+  char* path = (char*) KVTREE_MALLOC(len);
+  snprintf(path, len, "%s%s", prefix, file);
+
+  unsigned long level;
+  kvtree* tree = kvtree_new();
+  if (kvtree_read_file(path, tree) == KVTREE_SUCCESS &&
+      kvtree_util_get_unsigned_long(tree, "LEVEL", &level) == KVTREE_SUCCESS &&
+      level <= maxlevel)
+  {
+    kvtree* ranks = kvtree_get(tree, "RANK");
+    if (level == 0) {
+      *count += (unsigned long) kvtree_size(ranks);
+      rc = kvtree_merge(data, ranks);
+    } else {
+      rc = KVTREE_SUCCESS;
+      kvtree_elem* elem;
+      for (elem = kvtree_elem_first(ranks);
+           elem != NULL && rc == KVTREE_SUCCESS;
+           elem = kvtree_elem_next(elem))
+      {
+        char* name;
+        rc = kvtree_util_get_str(kvtree_elem_hash(elem), "FILE", &name);
+        if (rc == KVTREE_SUCCESS) {
+          rc = kvtree_read_scatter_file(prefix, name, level - 1, data, count);
+        }
+      }
+    }
+  }
+
+  kvtree_delete(&tree);
+  kvtree_free(&path);
+  return rc;
+}
+
 /*
  * Given a prefix passed to a kvtree_write_gather() (like "/tmp/rank2file",
  * read all the rank data from all the scattered subfiles, and construct a
@@ -1917,86 +1959,20 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
   /* Start construction of the final tree that we will return */
   final_tree = kvtree_new();
 
-  /* Look at all the subfiles with our prefix and read in the file lists */
-  char* prefix_dir_copy = strdup(prefix);
-  char* prefix_dir = dirname(prefix_dir_copy);
-  char* prefix_file_copy = strdup(prefix);
-  char* prefix_file = basename(prefix_file_copy);
-
-  /* Create our regex to match what follows the prefix in our prefix files */
-  size_t prefix_len = strlen(prefix_file);
+  /* Read the part files listed in the map, starting from the root file */
   unsigned long actual_ranks = 0;
+  rc = kvtree_read_scatter_file(prefix, "", ULONG_MAX, final_tree, &actual_ranks);
 
-  regex_t regex;
-  rc = regcomp(&regex, "^\\.0\\.[0-9]+$", REG_EXTENDED);
-  if (rc) {
-    rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  DIR* d = opendir(prefix_dir);
-  if (!d) {
-    regfree(&regex);
+  /* check that we have every rank, each from a single subfile */
+  if (rc == KVTREE_SUCCESS) {
     rc = KVTREE_FAILURE;
-    goto end;
-  }
-
-  /* For each file/dir in our prefix dir */
-  struct dirent* dir;
-  while ((dir = readdir(d)) != NULL) {
-    /*
-     * Search for any file starting with "prefix_file."
-     * like "rank2file.".
-     */
-    /* Is this one of our subfiles?  It should have .0.x in the extension */
-    rc = strncmp(dir->d_name, prefix_file, prefix_len);
-    if (rc == 0) {
-      rc = regexec(&regex, dir->d_name + prefix_len, 0, NULL, 0);
+    if (actual_ranks == expected_ranks &&
+        (unsigned long) kvtree_size(final_tree) == expected_ranks)
+    {
+      rc = kvtree_merge(data, final_tree);
     }
-    if (rc == 0) {  /* Did we get both numbers in the extension? */
-      /* subfile matches */
-
-      /* Construct the full path to the subfile kvtree */
-      char tmp[PATH_MAX];
-      memset(tmp, 0, sizeof(tmp));
-      snprintf(tmp, sizeof(tmp), "%s/%s", prefix_dir, dir->d_name);
-      tmp[sizeof(tmp) - 1] = '\0';
-
-      /* Read in the subfile */
-      kvtree* subfile_tree = kvtree_new();
-      rc = kvtree_read_file(tmp, subfile_tree);
-      if (rc == KVTREE_SUCCESS) {
-        /* Sanity: each subfile we want will have LEVEL=0 */
-        unsigned long level;
-        rc = kvtree_util_get_unsigned_long(subfile_tree, "LEVEL", &level);
-        if (rc == KVTREE_SUCCESS && level == 0) {
-          /* Break off and remove the "RANK" subtree from the rank2file tree */
-          kvtree* subfile_rank_tree = kvtree_extract(subfile_tree, "RANK");
-          if (subfile_rank_tree) {
-            if (kvtree_merge(final_tree, subfile_rank_tree) == KVTREE_SUCCESS) {
-              actual_ranks += kvtree_size(subfile_rank_tree);
-            }
-            kvtree_delete(&subfile_rank_tree);
-          }
-        }
-      }
-      kvtree_delete(&subfile_tree);
-    }
-  }
-  closedir(d);
-  regfree(&regex);
-
-  /* check that we have every rank, each from a single subfile */
-  rc = KVTREE_FAILURE;
-  if (actual_ranks == expected_ranks &&
-      (unsigned long) kvtree_size(final_tree) == expected_ranks)
-  {
-    rc = kvtree_merge(data, final_tree);
   }
 
-end:
-  kvtree_free(&prefix_dir_copy);
-  kvtree_free(&prefix_file_copy);
   kvtree_delete(&final_tree);
 
   return rc;
-- 
2.43.0


From 5b498382962f20e7f6ca876a7ba00e6e802d5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 18/24] fix: build part file names of any length in
 gather/scatter

Names of part and map files were cut at 1023 bytes, so with a long prefix
a gather-write overwrote its own files and still reported success.
---
 src/kvtree.c        | 10 ++++++----
 src/kvtree_mpi_io.c | 36 ++++++++++++++++++++++--------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index dba0067..5c5a74d 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1832,8 +1832,11 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
     }
 
     /* build name for part file */
-    char filename[1024];
-    snprintf(filename, sizeof(filename), "%s.0.%d", prefix, writer);
+    char partname[1024];
+    snprintf(partname, sizeof(partname), ".0.%d", writer);
+    size_t filename_len = strlen(prefix) + strlen(partname) + 1;
+    char* filename = (char*) KVTREE_MALLOC(filename_len);
+    snprintf(filename, filename_len, "%s%s", prefix, partname);
 
     /* write hash to file */
     if (kvtree_write_file(filename, entries) != KVTREE_SUCCESS) {
@@ -1843,10 +1846,9 @@ int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 
     /* delete part hash and path */
     kvtree_delete(&entries);
+    kvtree_free(&filename);
 
     /* record file name of part in files hash, relative to prefix directory */
-    char partname[1024];
-    snprintf(partname, sizeof(partname), ".0.%d", writer);
     unsigned long offset = 0;
     kvtree* files_rank_hash = kvtree_set_kv_int(files_hash, "RANK", writer);
     kvtree_util_set_str(files_rank_hash, "FILE", partname);
diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index be0785f..2c45ffd 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -20,6 +20,20 @@
 #include <errno.h>
 #include <limits.h>
 
+/* returns newly allocated path of file, given as a suffix of prefix,
+ * or NULL if there is no prefix, caller must free with kvtree_free */
+static char* kvtree_prefix_path(const char* prefix, const char* file)
+{
+  if (prefix == NULL) {
+    return NULL;
+  }
+
+  size_t len = strlen(prefix) + strlen(file) + 1;
+  char* path = (char*) KVTREE_MALLOC(len);
+  snprintf(path, len, "%s%s", prefix, file);
+  return path;
+}
+
 #define KVTREE_MAP_COUNT (0)
 #define KVTREE_MAP_RANKS (1)
 #define KVTREE_MAP_RANK  (2)
@@ -208,8 +222,7 @@ static unsigned long kvtree_write_gather_map(
     snprintf(mapfile, sizeof(mapfile), ".%d.%d", level, writer);
   }
 
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_prefix_path(prefix, mapfile);
 
   /* call gather recursively if there's another level */
   if (! allranks) {
@@ -265,8 +278,9 @@ static unsigned long kvtree_write_gather_map(
     }
   }
 
-  /* free the hash */
+  /* free the hash and the file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   return rc;
 }
@@ -322,9 +336,8 @@ int kvtree_write_gather(
 
   /* define file name */
   char mapfile[1024];
-  char mappath[1024];
   snprintf(mapfile, sizeof(mapfile), ".0.%d", writer);
-  snprintf(mappath, sizeof(mappath), "%s%s", prefix, mapfile);
+  char* mappath = kvtree_prefix_path(prefix, mapfile);
 
   /* write map to files */
   unsigned long offset = 0;
@@ -377,8 +390,9 @@ int kvtree_write_gather(
     }
   }
 
-  /* free the hash */
+  /* free the hash and the file name */
   kvtree_delete(&save);
+  kvtree_free(&mappath);
 
   /* determine whether everyone wrote their files ok */
   if (kvtree_alltrue(rc == KVTREE_SUCCESS, comm)) {
@@ -464,9 +478,7 @@ static int kvtree_read_scatter_map(
     if (kvtree_util_get_str(elem_hash, "FILE", &value) == KVTREE_SUCCESS)
     {
       /* return string of full path to file to caller */
-      char mappath[1024];
-      snprintf(mappath, sizeof(mappath), "%s%s", prefix, value);
-      newfile = strdup(mappath);
+      newfile = kvtree_prefix_path(prefix, value);
     } else {
       rc = KVTREE_FAILURE;
     }
@@ -534,10 +546,6 @@ int kvtree_read_scatter(
   MPI_Comm_rank(comm, &rank_world);
   MPI_Comm_size(comm, &ranks_world);
 
-  /* build path to file */
-  char mappath[1024];
-  snprintf(mappath, sizeof(mappath), "%s", prefix);
-
   /* fetch file names and offsets containing file hash data */
   int valid = 0;
   char* file = NULL;
@@ -545,7 +553,7 @@ int kvtree_read_scatter(
   if (rank_world == 0) {
     /* rank 0 is only valid reader to start with */
     valid  = 1;
-    file   = strdup(mappath);
+    file   = kvtree_prefix_path(prefix, "");
     offset = 0;
   }
   if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
-- 
2.43.0


From ac5fdcc916dea5c20f0fd69664a02633be9ccc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 19/24] fix: fail kvtree_write_to_gather when given no prefix
 or no data

A missing prefix was printed into the name of the part file, which created a
file named (null).0.0, and missing data overwrote the root file.
---
 src/kvtree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5c5a74d..7647c68 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1777,6 +1777,12 @@ int kvtree_write_close_unlock(const char* file, int* fd, const kvtree* hash)
 int kvtree_write_to_gather(const char* prefix, kvtree* data, int ranks)
 {
   int rc = KVTREE_SUCCESS;
+
+  /* check that we have a file name and data to write */
+  if (prefix == NULL || data == NULL) {
+    return KVTREE_FAILURE;
+  }
+
   /* record up to 8K entries per file */
   long entries_per_file = 8192;
 
-- 
2.43.0


From a9997a1b304fdab0ab986bb51043fa5c9adc8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 20/24] fix: report a failure to flush a file to disk

---
 src/kvtree_io.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kvtree_io.c b/src/kvtree_io.c
index cd3493b..78c8072 100644
--- a/src/kvtree_io.c
+++ b/src/kvtree_io.c
@@ -115,8 +115,16 @@ int kvtree_open(const char* file, int flags, ...)
 /* fsync and close file */
 int kvtree_close(const char* file, int fd)
 {
+  int rc = KVTREE_SUCCESS;
+
   /* fsync first */
   if (fsync(fd) < 0) {
+    /* data may not have reached the disk,
+     * unless this kind of file just does not support fsync */
+    if (errno != EINVAL && errno != EROFS) {
+      rc = KVTREE_FAILURE;
+    }
+
     /* print warning that fsync failed */
     kvtree_dbg(2, "Failed to fsync file descriptor: %s errno=%d %s @ %s:%d",
       file, errno, strerror(errno), __FILE__, __LINE__
@@ -132,7 +140,7 @@ int kvtree_close(const char* file, int fd)
     return KVTREE_FAILURE;
   }
 
-  return KVTREE_SUCCESS;
+  return rc;
 }
 
 /*
-- 
2.43.0


From 0a0167b03636ed1c0534079a57a3c5f59250a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 21/24] fix: leave the caller's hash unmodified when closing a
 file that was read fails

---
 src/kvtree.c | 55 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 7647c68..f7f8f1a 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1354,11 +1354,14 @@ ssize_t kvtree_read_persist(const void* buf, size_t bufsize, kvtree* hash)
 }
 #endif
 
-/** executes logic of kvtree_read using an opened file descriptor */
-ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
+/** reads a hash from an opened file descriptor into a new hash returned in
+ * outhash, which is set to NULL if the file is empty or on error */
+static ssize_t kvtree_read_fd_new(const char* file, int fd, kvtree** outhash)
 {
-  /* check that we have a hash, a file name, and a file descriptor */
-  if (file == NULL || fd < 0 || hash == NULL) {
+  *outhash = NULL;
+
+  /* check that we have a file name, and a file descriptor */
+  if (file == NULL || fd < 0) {
     kvtree_err("Bad file/fd/hash in %s @ %s:%d",
       file, __FILE__, __LINE__);
     return -1;
@@ -1490,11 +1493,9 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
     return -1;
   }
 
-  /* create a temporary hash to read data into, unpack, and merge */
-  kvtree* tmp_hash = kvtree_new();
-  kvtree_unpack(buf + size, tmp_hash);
-  kvtree_merge(hash, tmp_hash);
-  kvtree_delete(&tmp_hash);
+  /* create a hash to read data into, and unpack */
+  *outhash = kvtree_new();
+  kvtree_unpack(buf + size, *outhash);
 
   /* free the buffer holding the file contents */
   kvtree_free(&buf);
@@ -1502,6 +1503,25 @@ ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
   return filesize;
 }
 
+/** executes logic of kvtree_read using an opened file descriptor */
+ssize_t kvtree_read_fd(const char* file, int fd, kvtree* hash)
+{
+  /* check that we have a hash, a file name, and a file descriptor */
+  if (file == NULL || fd < 0 || hash == NULL) {
+    kvtree_err("Bad file/fd/hash in %s @ %s:%d",
+      file, __FILE__, __LINE__);
+    return -1;
+  }
+
+  /* read into a temporary hash, and merge */
+  kvtree* tmp_hash = NULL;
+  ssize_t nread = kvtree_read_fd_new(file, fd, &tmp_hash);
+  kvtree_merge(hash, tmp_hash);
+  kvtree_delete(&tmp_hash);
+
+  return nread;
+}
+
 /** opens specified file and reads in a hash storing its contents in
  * the given hash object */
 int kvtree_read_file(const char* file, kvtree* hash)
@@ -1531,7 +1551,8 @@ int kvtree_read_file(const char* file, kvtree* hash)
   int rc = KVTREE_SUCCESS;
 
   /* read the hash */
-  ssize_t nread = kvtree_read_fd(file, fd, hash);
+  kvtree* tmp_hash = NULL;
+  ssize_t nread = kvtree_read_fd_new(file, fd, &tmp_hash);
   if (nread < 0) {
     rc = KVTREE_FAILURE;
   }
@@ -1541,6 +1562,12 @@ int kvtree_read_file(const char* file, kvtree* hash)
     rc = KVTREE_FAILURE;
   }
 
+  /* only modify the caller's hash if nothing failed */
+  if (rc == KVTREE_SUCCESS) {
+    kvtree_merge(hash, tmp_hash);
+  }
+  kvtree_delete(&tmp_hash);
+
   return rc;
 }
 
@@ -1586,7 +1613,8 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
   if (fd >= 0) {
     int rc;
     /* read the file into the hash */
-    rc = kvtree_read_fd(file, fd, hash);
+    kvtree* tmp_hash = NULL;
+    rc = kvtree_read_fd_new(file, fd, &tmp_hash);
     if (rc == -1) {
       kvtree_err("Couldn't read file @ %s:%d", __FILE__, __LINE__);
       kvtree_close_with_unlock(file, fd);
@@ -1596,9 +1624,14 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
     /* close the file and release the lock */
     rc = kvtree_close_with_unlock(file, fd);
     if (rc != 0) {
+      kvtree_delete(&tmp_hash);
       return KVTREE_FAILURE;
     }
 
+    /* only modify the caller's hash if nothing failed */
+    kvtree_merge(hash, tmp_hash);
+    kvtree_delete(&tmp_hash);
+
     return KVTREE_SUCCESS;
   } else {
     kvtree_err("Failed to open file with lock %s @ %s:%d",
-- 
2.43.0


From 5aa9fd37446c85cec1700629f240c2033d361438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 22/24] fix: serial read of a scattered set must find an entry
 for each rank

kvtree_read_scatter_single accepted a set with as many entries as ranks even
when one of them belonged to no rank, so that another rank was missing.
---
 src/kvtree.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index f7f8f1a..5ef2eed 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -2006,10 +2006,25 @@ int kvtree_read_scatter_single(const char* prefix, kvtree* data)
 
   /* check that we have every rank, each from a single subfile */
   if (rc == KVTREE_SUCCESS) {
-    rc = KVTREE_FAILURE;
-    if (actual_ranks == expected_ranks &&
-        (unsigned long) kvtree_size(final_tree) == expected_ranks)
+    if (actual_ranks != expected_ranks ||
+        (unsigned long) kvtree_size(final_tree) != expected_ranks)
+    {
+      rc = KVTREE_FAILURE;
+    }
+
+    /* some rank is missing if one of the entries is not for any of them */
+    kvtree_elem* elem;
+    for (elem = kvtree_elem_first(final_tree);
+         elem != NULL;
+         elem = kvtree_elem_next(elem))
     {
+      int rank = kvtree_elem_key_int(elem);
+      if (rank < 0 || (unsigned long) rank >= expected_ranks) {
+        rc = KVTREE_FAILURE;
+      }
+    }
+
+    if (rc == KVTREE_SUCCESS) {
       rc = kvtree_merge(data, final_tree);
     }
   }
-- 
2.43.0


From 86e82b71f1beac63c2860cbc247888309949d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 23/24] fix: checksum all of a file of 4 GiB or more

zlib's crc32 takes a uInt length, so the length of a larger file was cut to
its low 32 bits when its checksum was computed and when it was checked, and
damage beyond that went unnoticed.  kvtree_read_with_lock also kept the
number of bytes read in an int.
---
 src/kvtree.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/kvtree.c b/src/kvtree.c
index 5ef2eed..61c7a8c 100644
--- a/src/kvtree.c
+++ b/src/kvtree.c
@@ -1132,6 +1132,24 @@ static size_t kvtree_unpack_check(const char* buf, size_t bufsize)
   return size;
 }
 
+/** computes the crc32 over a buffer, which may be larger than what fits in
+ * the uInt length that zlib takes */
+static uint32_t kvtree_crc32_buf(const char* buf, size_t bufsize)
+{
+  uLong crc = crc32(0L, Z_NULL, 0);
+  while (bufsize > 0) {
+    /* process the buffer in pieces */
+    size_t n = bufsize;
+    if (n > 0x40000000) {
+      n = 0x40000000;
+    }
+    crc = crc32(crc, (const Bytef*) buf, (uInt) n);
+    buf += n;
+    bufsize -= n;
+  }
+  return (uint32_t) crc;
+}
+
 /** computes the size needed to persist a hash
 includes room for header, data, and crc32 */
 size_t kvtree_persist_size(const kvtree* hash)
@@ -1183,8 +1201,7 @@ int kvtree_write_persist(void** ptr_buf, size_t* ptr_size, const kvtree* hash)
   size += kvtree_pack(buf + size, hash);
 
   /* compute the crc over the length of the file */
-  uLong crc = crc32(0L, Z_NULL, 0);
-  crc = crc32(crc, (const Bytef*) buf, (uInt) size);
+  uint32_t crc = kvtree_crc32_buf(buf, size);
 
   /* write the crc to the buffer */
   kvtree_pack_uint32_t(buf, filesize, &size, (uint32_t) crc);
@@ -1465,8 +1482,7 @@ static ssize_t kvtree_read_fd_new(const char* file, int fd, kvtree** outhash)
   /* check the crc value if it's set */
   if (crc_set) {
     /* compute the crc value of the data */
-    uLong crc = crc32(0L, Z_NULL, 0);
-    crc = crc32(crc, (const Bytef*) buf, (uInt) filesize - sizeof(uint32_t));
+    uint32_t crc = kvtree_crc32_buf(buf, filesize - sizeof(uint32_t));
 
     /* read the crc value */
     uint32_t crc_file_network, crc_file;
@@ -1614,8 +1630,8 @@ int kvtree_read_with_lock(const char* file, kvtree* hash)
     int rc;
     /* read the file into the hash */
     kvtree* tmp_hash = NULL;
-    rc = kvtree_read_fd_new(file, fd, &tmp_hash);
-    if (rc == -1) {
+    ssize_t nread = kvtree_read_fd_new(file, fd, &tmp_hash);
+    if (nread < 0) {
       kvtree_err("Couldn't read file @ %s:%d", __FILE__, __LINE__);
       kvtree_close_with_unlock(file, fd);
       return KVTREE_FAILURE;
-- 
2.43.0


From 20e42f2a70cff8772b2ff0e88747c306917bbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 24/24] fix: reading maps that list each other in parallel
 never ended

kvtree_read_scatter_map recursed as long as rank 0 read a map of level 2 or
more, so two map files of one level that list each other kept the collective
read going forever. As in the serial read, each file must have a lower level
than the map that lists it.
---
 src/kvtree_mpi_io.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kvtree_mpi_io.c b/src/kvtree_mpi_io.c
index 2c45ffd..025c06c 100644
--- a/src/kvtree_mpi_io.c
+++ b/src/kvtree_mpi_io.c
@@ -403,7 +403,7 @@ int kvtree_write_gather(
 
 static int kvtree_read_scatter_map(
   const char*     prefix,
-  int             depth,
+  int             maxlevel,
   int*            ptr_valid,
   char**          ptr_file,
   unsigned long*  ptr_offset,
@@ -502,6 +502,12 @@ static int kvtree_read_scatter_map(
     {
       rc = KVTREE_FAILURE;
     }
+
+    /* each file must have a lower level than the map that lists it,
+     * otherwise we may never get to the end of the maps */
+    if (level_id > maxlevel) {
+      rc = KVTREE_FAILURE;
+    }
   }
   MPI_Bcast(&level_id, 1, MPI_INT, 0, comm);
 
@@ -523,7 +529,7 @@ static int kvtree_read_scatter_map(
 
   /* recurse if we still have levels to read */
   if (level_id > 1) {
-    rc = kvtree_read_scatter_map(prefix, depth+1, ptr_valid, ptr_file, ptr_offset, comm);
+    rc = kvtree_read_scatter_map(prefix, level_id - 1, ptr_valid, ptr_file, ptr_offset, comm);
   }
 
 cleanup:
@@ -556,7 +562,7 @@ int kvtree_read_scatter(
     file   = kvtree_prefix_path(prefix, "");
     offset = 0;
   }
-  if (kvtree_read_scatter_map(prefix, 1, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
+  if (kvtree_read_scatter_map(prefix, INT_MAX, &valid, &file, &offset, comm) != KVTREE_SUCCESS)
   {
     rc = KVTREE_FAILURE;
   }
-- 
2.43.0

