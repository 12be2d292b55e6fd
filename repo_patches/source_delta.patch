From 85aa45016c8c20cd35c8ea99e41cd418bbf5f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 01/48] fix: interpret dot-dot after repeated slashes, dots and
 in relative paths

---
 src/dir.c | 59 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..1ed977f 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -277,37 +277,42 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 
 static sqfs_err clear_dot_dot(char *path)
 {
-	char *dot_dot, *dot_dot_left;
-	
+	char *in = path, *out = path;
+
 	// we might get a path like /a/b/../../c/d
-	// in which case we need to interpret dot-dot's
-	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
-	}
-	// what about /a/b/c/d/..
-	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
+	// in which case we need to interpret dot-dot's;
+	// empty and dot components do not count as something to go back from
+	while (*in) {
+		const char *name;
+		size_t size;
+
+		while ('/' == *in) {
+			++in;
+		}
+		name = in;
+		while (*in && '/' != *in) {
+			++in;
+		}
+		size = in - name;
+		if (0 == size || (1 == size && '.' == *name)) {
+			continue;
+		}
+		if (2 == size && '.' == name[0] && '.' == name[1]) {
+			if (out == path) {
 				return SQFS_ERR;
 			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		*dot_dot_left = '\0';
+			do {
+				--out;
+			} while (out > path && '/' != *out);
+			continue;
+		}
+		if (out != path || '/' == *path) {
+			*out++ = '/';
+		}
+		memmove(out, name, size);
+		out += size;
 	}
+	*out = '\0';
 	return SQFS_OK;
 }
 
-- 
2.43.0


From 0527d3d84f90ad371798611c3c08a703054a1d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 02/48] fix: expand symbolic links in place, bounded in number
 and length

---
 src/dir.c | 156 +++++++++++++++++++++++-------------------------------
 1 file changed, 67 insertions(+), 89 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 1ed977f..c7d1db3 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -320,78 +320,55 @@ sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
 
 	sqfs_err error;
 	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
 
-	if(strlen(path) > SQUASHFS_PATH_LEN){
+	if (strlen(path) > SQUASHFS_PATH_LEN) {
 		errno = ENAMETOOLONG;
 		return SQFS_ERR;
 	}
+	// find node from /
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	} else if (!found) {
+		errno = ENOENT;
+		return SQFS_ERR;
+	}
+	return SQFS_OK;
+}
 
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
-			return SQFS_ERR;
-		}
-
-
-	} while (S_ISLNK(node->base.mode));
-
+/* Replace the component at name (which ends where rest begins) of *path,
+	 a symbolic link with the given inode, by its target. */
+static sqfs_err sqfs_expand_link(sqfs *fs, sqfs_inode *inode, char **path,
+		const char *name, const char *rest, short *absolute) {
+	char target[SQUASHFS_PATH_LEN]; // is enough for path?
+	size_t head, tail = strlen(rest);
+	ssize_t size;
+	char *expanded;
+
+	size = squash_readlink_inode(fs, inode, target, sizeof(target));
+	if (size <= 0) {
+		return SQFS_ERR;
+	}
+	*absolute = ('/' == target[0]);
+	head = *absolute ? 0 : name - *path;
+	if (head + size + tail > SQUASHFS_PATH_LEN) {
+		errno = ENAMETOOLONG;
+		return SQFS_ERR;
+	}
+	expanded = malloc(head + size + tail + 1);
+	if (NULL == expanded) {
+		errno = ENOMEM;
+		return SQFS_ERR;
+	}
+	memcpy(expanded, *path, head);
+	memcpy(expanded + head, target, size);
+	memcpy(expanded + head + size, rest, tail + 1);
+	free(*path);
+	*path = expanded;
 	return SQFS_OK;
 }
 
@@ -399,24 +376,27 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 		short *found, short follow_link) {
 	sqfs_err err, ret;
 	sqfs_name buf;
-	sqfs_path path_here;
 	sqfs_dir_entry entry;
+	sqfs_inode start = *inode;
 	char *path, *path0;
-	short is_last_component;
+	short absolute;
+	int links = 0;
 	memset(&buf, 0, sizeof(sqfs_name));
 	memset(&entry, 0, sizeof(sqfs_dir_entry));
 
 	*found = 0;
 	sqfs_dentry_init(&entry, buf);
 
-	path = strdup(incoming_path);
-	if (NULL == path) {
+	path0 = strdup(incoming_path);
+	if (NULL == path0) {
 		return SQFS_ERR;
 	}
-	path0 = path;
 
+again:
+	path = path0;
 	err = clear_dot_dot(path);
 	if (SQFS_OK != err) {
+		*found = 0;
 		ret = SQFS_OK; /* not found */
 		goto exit;
 	}
@@ -453,29 +433,27 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			ret = err;
 			goto exit;
 		}
-		if (!*path) {
-			is_last_component = 1;
-		} else if (path0 + strlen(path0) - 1 == path) {
-			assert('/' == *path);
-			is_last_component = 1;
-		} else {
-			is_last_component = 0;
-		}
 
-		if (S_ISLNK(inode->base.mode)) {
-			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
-				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+		if (S_ISLNK(inode->base.mode) && (*path || follow_link)) {
+			if (++links > SQUASHFS_MAX_LINK_LEVEL) {
+				errno = ELOOP;
+				ret = SQFS_ERR;
+				goto exit;
+			}
+			err = sqfs_expand_link(fs, inode, &path0, name, path, &absolute);
+			if (SQFS_OK != err) {
+				ret = err;
+				goto exit;
+			}
+			if (absolute) {
+				err = sqfs_inode_get(fs, &start, sqfs_inode_root(fs));
 				if (SQFS_OK != err) {
 					ret = err;
 					goto exit;
 				}
 			}
+			*inode = start;
+			goto again;
 		}
 	}
 	
-- 
2.43.0


From d0f4e33a7e8b15c01d7121e1e518c7084c84d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 03/48] fix: give a cache slot to a block only once the block
 is read

---
 src/fs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..3460aa8 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -183,11 +183,13 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		sqfs_block_cache_entry loaded;
+		ret = sqfs_md_block_read(fs, *pos, &loaded.data_size, &loaded.block);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		*entry = loaded;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -205,11 +207,13 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		sqfs_block *loaded;
+		ret = sqfs_data_block_read(fs, pos, hdr, &loaded);
 		if (ret) {
 			goto exit;
 		}
+		entry = sqfs_cache_add(cache, pos);
+		entry->block = loaded;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From 692bbcb64c02ca3429dda7eb202a0ab6f5b24df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 04/48] fix: release a cache that could not be set up only once

---
 src/cache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..610c05b 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -42,7 +42,7 @@ sqfs_err sqfs_cache_init(sqfs_cache *cache, size_t size, size_t count,
 	if (cache->idxs && cache->buf)
 		return SQFS_OK;
 	
-	sqfs_cache_destroy(cache);
+	/* destroying the cache releases what was obtained */
 	return SQFS_ERR;
 }
 
@@ -62,6 +62,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From e1cb344bd97b1d236d2849535d241b62760a5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 05/48] fix: report an unsupported compressor instead of
 aborting

---
 src/decompress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..07ea9bc 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -26,7 +26,6 @@
 #include "squash/squashfs_fs.h"
 
 #include <zlib.h>
-#include <assert.h>
 
 static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 		void *out, size_t *outsz) {
@@ -39,6 +38,7 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type)
+		return NULL;
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From 1cfd07b491ba7b071ba6ee760c78e6ca87da73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 06/48] fix: reading nothing, or past the end of a file, yields
 zero bytes

---
 src/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index d680b5f..ad26d91 100644
--- a/src/file.c
+++ b/src/file.c
@@ -122,9 +122,9 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start > file_size)
+	if (*size < 0 || start < 0)
 		return SQFS_ERR;
-	if (start == file_size) {
+	if (start >= file_size || *size == 0) {
 		*size = 0;
 		return SQFS_OK;
 	}
-- 
2.43.0


From 132c048b6e7c845507768d28ef7d621aef292105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 07/48] fix: find a tail fragment without an index past the end
 of the block list

---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index ad26d91..7f2009e 100644
--- a/src/file.c
+++ b/src/file.c
@@ -282,7 +282,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 479311980bbe62354bcb504ce158e170bdeec494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 08/48] fix: read a link into an empty buffer fails instead of
 overrunning it

---
 src/fs.c       | 2 ++
 src/readlink.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fs.c b/src/fs.c
index 3460aa8..d915ce5 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -291,6 +291,8 @@ sqfs_err sqfs_readlink(sqfs *fs, sqfs_inode *inode, char *buf, size_t *size) {
 		return SQFS_OK;
 	}
 
+	if (*size == 0)
+		return SQFS_ERR;
 	if (want > *size - 1)
 		want = *size - 1;
 	cur = inode->next;
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..076f2a3 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From 37ad0d7afa1113529a5175da4e0ee1153b94a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 09/48] fix: a failed open releases the lock, descriptor and
 memory it took

---
 src/fd.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index e564c8a..38ed4ea 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -17,9 +17,10 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
-	int *handle;
+	int *handle = NULL;
+	struct squash_file **fds;
 
 	// try locating the file and fetching its stat
 	if (NULL == file)
@@ -37,8 +38,6 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	{
 		goto failure;
 	}
-	file->filename = strdup(path);
-
 	if (!found)
 	{
 		errno = ENOENT;
@@ -51,6 +50,13 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	}
 	file->fs = fs;
 	file->pos = 0;
+	file->filename = strdup(path);
+	// construct a handle (mainly) for win32
+	handle = (int *)malloc(sizeof(int));
+	if (NULL == file->filename || NULL == handle) {
+		errno = ENOMEM;
+		goto failure;
+	}
 
 	// get a dummy fd from the system
 	fd = dup(0);
@@ -66,32 +72,25 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
 		squash_global_fdtable.nr = nr;
 	}
-	MUTEX_UNLOCK(&squash_global_mutex);
 
-	// construct a handle (mainly) for win32
-	handle = (int *)malloc(sizeof(int));
-	if (NULL == handle) {
-		errno = ENOMEM;
-		goto failure;
-	}
+	// insert the fd into the global fd table
 	*handle = fd;
 	file->payload = (void *)handle;
-
-	// insert the fd into the global fd table
 	file->fd = fd;
-	MUTEX_LOCK(&squash_global_mutex);
 	squash_global_fdtable.fds[fd] = file;
         if (squash_global_fdtable.end < fd + 1) {
         	squash_global_fdtable.end = fd + 1;
@@ -103,6 +102,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		int saved = errno;
+		close(fd);
+		errno = saved;
+	}
+	free(handle);
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 0d49a2f30042e61e4e473bb18f0176d70e59c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 10/48] fix: refuse seeks to negative positions and unknown
 directives

---
 src/fd.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 38ed4ea..fd2642b 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -186,26 +186,43 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
+	off_t pos;
 	if (!SQUASH_VALID_VFD(vfd))
 	{
 		errno = EBADF;
 		return -1;
 	}
 	file = squash_global_fdtable.fds[vfd];
+	pos = (off_t)file->pos;
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		pos = offset;
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		pos = (off_t)((uint64_t)pos + (uint64_t)offset);
+		if (offset > 0 && pos < 0)
+		{
+			errno = EOVERFLOW;
+			return -1;
+		}
+	}
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
+	{
+		pos = file->node.xtra.reg.file_size;
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		errno = EINVAL;
+		return -1;
+	}
+	if (pos < 0)
+	{
+		errno = EINVAL;
+		return -1;
 	}
-	return file->pos;
+	file->pos = pos;
+	return pos;
 }
 
 static void squash_halt()
-- 
2.43.0


From 1cd479d00689bc26da2b3cebd4eab3e339aaa53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 11/48] fix: close a descriptor and forget it in one step

---
 src/fd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fd.c b/src/fd.c
index fd2642b..446e230 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -123,15 +123,19 @@ int squash_close(int vfd)
 	int ret;
 	struct squash_file *file;
 
+        MUTEX_LOCK(&squash_global_mutex);
         if (!SQUASH_VALID_VFD(vfd)) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
+        // with the lock held, so that nobody is given the number again
+        // before its entry is gone
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -229,6 +233,9 @@ static void squash_halt()
 {
 	if (squash_global_fdtable.fds) {
 		free(squash_global_fdtable.fds);
+		squash_global_fdtable.fds = NULL;
+		squash_global_fdtable.nr = 0;
+		squash_global_fdtable.end = 0;
 	}
 	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
-- 
2.43.0


From f1638e2785ff04d679fbd83eb4ca76150d6f18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 12/48] fix: a failed extraction removes its file and closes
 what it opened

---
 src/extract.c | 66 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..f576e77 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -113,6 +113,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -133,7 +136,8 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		} else {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
 		}
-		if (-1 == ret) {
+		if (ret < 0 || ret >= squash_buf_sz) {
+			errno = ENAMETOOLONG;
 			return NULL;
 		}
 		if (-1 == stat(squash_buf, &statbuf)) {
@@ -145,12 +149,22 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 }
 #endif // _WIN32
 
+static void squash_remove_tmpf(SQUASH_OS_PATH tmpf)
+{
+#ifdef _WIN32
+	DeleteFileW(tmpf);
+#else
+	unlink(tmpf);
+#endif
+	free((void *)tmpf);
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
-	FILE *fp;
-	int fd;
-	SQUASH_OS_PATH tmpf;
+	FILE *fp = NULL;
+	int fd, saved;
+	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
 	char buffer[16 * 1024];
@@ -161,15 +175,20 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->node.base.mode)) {
+		errno = EINVAL;
+		goto failure;
+	}
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
+		goto failure;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
 #ifdef _WIN32
 	fp = _wfopen(tmpf, L"wb");
@@ -177,29 +196,44 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	fp = fopen(tmpf, "wb");
 #endif
 	if (NULL == fp) {
-		free(tmpf);
-		return NULL;
+		free((void *)tmpf);
+		tmpf = NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	size = fclose(fp);
+	fp = NULL;
+	if (0 != size) {
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+failure:
+	if (!errno) {
+		errno = EIO;
+	}
+	saved = errno;
+	if (NULL != fp) {
+		fclose(fp);
+	}
+	if (NULL != tmpf) {
+		squash_remove_tmpf(tmpf);
+	}
+	squash_close(fd);
+	errno = saved;
+	return NULL;
 }
 
 struct SquashExtractEntry {
-- 
2.43.0


From dcc3463008abb4402053514fe18822568fa65610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 13/48] fix: the extraction cache owns its paths and is empty
 once cleared

---
 src/extract.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index f576e77..01c5075 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -238,7 +238,7 @@ failure:
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
@@ -256,31 +256,39 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static int squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return -1;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return -1;
+	}
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	return 0;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
 
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
 		return found->ret;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
-	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+	if (NULL != ret && -1 == squash_extract_cache_insert(fs, path, ret)) {
+		// nobody would ever remove it
+		squash_remove_tmpf(ret);
+		errno = ENOMEM;
+		return NULL;
 	}
 	return ret;
 }
@@ -288,12 +296,12 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 void squash_extract_clear_cache()
 {
 	struct SquashExtractEntry* ptr = squash_extract_cache;
+	squash_extract_cache = NULL;
 	while (NULL != ptr) {
-#ifdef _WIN32
-		DeleteFileW(ptr->ret);
-#else
-		unlink(ptr->ret);
-#endif
-		ptr = ptr->next;
+		struct SquashExtractEntry* next = ptr->next;
+		squash_remove_tmpf(ptr->ret);
+		free(ptr->path);
+		free(ptr);
+		ptr = next;
 	}
 }
-- 
2.43.0


From f3f8e82cd824447812faf1d808239000d0cf526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 14/48] fix: a failed opendir closes its descriptor; links are
 followed as asked

---
 src/dirent.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index a379069..ccf5e45 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -16,8 +16,7 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	sqfs_err error;
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
-	int *handle;
-	
+
 	if (NULL == dir)
 	{
 		errno = ENOMEM;
@@ -26,18 +25,18 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
+	dir->fd = -1;
 	dir->filename = strdup(filename);
-	dir->fd = squash_open(fs, filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
+	dir->fd = squash_open_inner(fs, filename, follow_link);
 	if (-1 == dir->fd)
 	{
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
-	MUTEX_LOCK(&squash_global_mutex);
-	free(handle);
-	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
-	MUTEX_UNLOCK(&squash_global_mutex);
 
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -56,16 +55,33 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 		errno = ENOENT;
 		goto failure;
 	}
+	if (!S_ISDIR(dir->node.base.mode))
+	{
+		errno = ENOTDIR;
+		goto failure;
+	}
 	error = sqfs_dir_open(fs, &dir->node, &dir->dir, 0);
 	if (SQFS_OK != error)
 	{
 		goto failure;
 	}
+
+	// nothing fails from here on: the descriptor takes over the stream
+	MUTEX_LOCK(&squash_global_mutex);
+	free(squash_global_fdtable.fds[dir->fd]->payload);
+	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
+	MUTEX_UNLOCK(&squash_global_mutex);
 	return dir;
 failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != dir->fd) {
+		int saved = errno;
+		squash_close(dir->fd);
+		errno = saved;
+	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From f0d784f03a3bf97f428219e911f9243983015003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 15/48] fix: readdir keeps its entries when memory is short and
 fits the longest name

---
 src/dirent.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index ccf5e45..4647ebc 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -120,12 +120,13 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		void *entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
@@ -140,6 +141,9 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			if (!errno) {
+				errno = EIO;
+			}
 			return NULL;
 		}
 		else if (!dirp->entries[dirp->actual_nr].not_eof)
@@ -156,8 +160,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			if (SQUASHFS_NAME_LEN < minsize) {
 				minsize = SQUASHFS_NAME_LEN;
 			}
-			if (sizeof(sysentry->d_name) < minsize) {
-				minsize = sizeof(sysentry->d_name);
+			if (sizeof(sysentry->d_name) - 1 < minsize) {
+				minsize = sizeof(sysentry->d_name) - 1;
 			}
 			memcpy(sysentry->d_name, dirp->entries[dirp->actual_nr].name, minsize);
 #ifndef __linux__
-- 
2.43.0


From 5350f732c8c33b9eae6993a5eef3c558162867f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 16/48] fix: a directory entry that could not be read is not
 skipped halfway

---
 src/dir.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index c7d1db3..1488512 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -125,6 +125,7 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir before = *dir;
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -134,12 +135,12 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 			return 0;
 		
 		if ((*err = sqfs_dir_md_read(fs, dir, &dir->header, sizeof(dir->header))))
-			return 0;
+			goto failure;
 		++(dir->header.count); /* biased by one */
 	}
 	
 	if ((*err = sqfs_dir_md_read(fs, dir, &e, sizeof(e))))
-		return 0;
+		goto failure;
 	--(dir->header.count);
 	
 	entry->type = e.type;
@@ -150,11 +151,15 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	*err = sqfs_dir_md_read(fs, dir, entry->name, sqfs_dentry_name_size(entry));
 	if (*err)
-		return 0;
+		goto failure;
 	
 	entry->next_offset = dir->offset;
 
 	return 1;
+
+failure:
+	*dir = before; /* the next attempt starts at the same entry */
+	return 0;
 }
 
 
-- 
2.43.0


From eef11c411871b2e996d3562c326f0b7a5465cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 17/48] fix: a stream whose descriptor cannot be closed stays
 valid

---
 src/dirent.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dirent.c b/src/dirent.c
index 4647ebc..395fdb5 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -94,13 +94,11 @@ SQUASH_DIR *squash_opendir(sqfs *fs, const char *filename)
 int squash_closedir(SQUASH_DIR *dirp)
 {
 	int ret;
+	void *entries = dirp->entries;
+	void *filename = dirp->filename;
+	void *payload = dirp->payload;
 
 	assert(-1 != dirp->fd);
-	free(dirp->entries);
-	free(dirp->filename);
-	if (dirp->payload) {
-		free(dirp->payload);
-	}
 	// dirp itself will be freed by squash_close as `payload`
 	ret = squash_close(dirp->fd);
 	if (0 != ret) {
@@ -109,6 +107,9 @@ int squash_closedir(SQUASH_DIR *dirp)
 		}
 		return -1;
 	}
+	free(entries);
+	free(filename);
+	free(payload);
 	return 0;
 }
 
-- 
2.43.0


From d55acfbce7e2ccbe68d9f7004cabc77475569c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 18/48] fix: scandir lists directories of any size and fails
 cleanly

---
 src/scandir.c | 58 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..6b8b9cd 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -18,43 +18,73 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 {
 	SQUASH_DIR * openeddir = 0;
 	size_t n = 0;
+	size_t cap = 16;
+	int saved;
 	struct SQUASH_DIRENT **list = NULL;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
 	if((dirname == NULL) || (namelist == NULL))
+	{
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
-
+	list = (struct SQUASH_DIRENT **)malloc(cap*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 
-	while(( ent = squash_readdir(openeddir)) != NULL)
+	for(;;)
 	{
+		//tell the end of the directory from a failure
+		saved = errno;
+		errno = 0;
+		ent = squash_readdir(openeddir);
+		if(ent == NULL && errno)
+			goto failure;
+		errno = saved;
+		if(ent == NULL)
+			break;
+
 		if( select && !select(ent))
 			continue;
 
+		if(n == cap)
+		{
+			struct SQUASH_DIRENT **bigger = realloc((void *)list,2*cap*sizeof(struct SQUASH_DIRENT *));
+			if(bigger == NULL)
+			{
+				errno = ENOMEM;
+				goto failure;
+			}
+			list = bigger;
+			cap *= 2;
+		}
+
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+		{
+			errno = ENOMEM;
+			goto failure;
+		}
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
 	}
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
-	if(*namelist == NULL)
-		*namelist = list;
+	*namelist = list;
 
 
 	//sort the array
@@ -63,4 +93,12 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
+failure:
+	saved = errno;
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = saved;
+	return -1;
 }
\ No newline at end of file
-- 
2.43.0


From 835c69861f47d95972feb77188d659dfcf5fe469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 19/48] fix: an initialised stack is empty

---
 src/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..dc29c29 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,7 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From 6b1702119c284eacefa316d9108467006dead5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 20/48] fix: growing a hash map keeps every value, their order,
 and fails without loss

---
 src/hash.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..6e2c9e0 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -27,7 +27,7 @@
 #include <stdlib.h>
 #include <string.h>
 
-static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
+static sqfs_err sqfs_hash_add_internal(sqfs_hash *h,
 		sqfs_hash_key k, sqfs_hash_value v) {
 	size_t hash = (k & (h->capacity - 1));	
 	sqfs_hash_bucket *b = malloc(sizeof(sqfs_hash_bucket) + h->value_size);
@@ -43,33 +43,41 @@ static sqfs_err sqfs_hash_add_internal(sqfs_hash *h, int doubling,
 }
 
 static sqfs_err sqfs_hash_double(sqfs_hash *h) {
-	sqfs_hash_bucket **ob = h->buckets;
-	size_t oc = h->capacity;
+	sqfs_hash bigger;
 	size_t i;
 	sqfs_err err;
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
+	if ((err = sqfs_hash_init(&bigger, h->value_size, h->capacity * 2)))
 		return err;
 	
-	for (i = 0; i < oc; ++i) {
-		sqfs_hash_bucket *b = ob[i];
+	for (i = 0; i < h->capacity; ++i) {
+		/* keep the order: the newest value of a key comes first */
+		sqfs_hash_bucket **low = &bigger.buckets[i];
+		sqfs_hash_bucket **high = &bigger.buckets[i + h->capacity];
+		sqfs_hash_bucket *b = h->buckets[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			b->next = NULL;
+			if (b->key & h->capacity) {
+				*high = b;
+				high = &b->next;
+			} else {
+				*low = b;
+				low = &b->next;
+			}
 			b = n;
 		}
 	}
 	
-	free(ob);
-	return err;
+	free(h->buckets);
+	bigger.size = h->size;
+	*h = bigger;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
 	memset(h, 0, sizeof(*h));
-	if ((initial & (initial - 1))) /* not power of two? */
+	if (initial == 0 || (initial & (initial - 1))) /* not power of two? */
 		return SQFS_ERR;
 	
 	h->buckets = calloc(initial, sizeof(sqfs_hash_bucket*));
@@ -111,7 +119,7 @@ sqfs_err sqfs_hash_add(sqfs_hash *h, sqfs_hash_key k, sqfs_hash_value v) {
 		if (err)
 			return err;
 	}
-	return sqfs_hash_add_internal(h, 0, k, v);
+	return sqfs_hash_add_internal(h, k, v);
 }
 
 sqfs_err sqfs_hash_remove(sqfs_hash *h, sqfs_hash_key k) {
-- 
2.43.0


From 9a7330563b2b982be74b7a4b92ff55062e0c73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 21/48] fix: keep link counts unsigned as stored

---
 include/squash/fs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..a916708 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -51,7 +51,7 @@ struct sqfs {
 
 struct sqfs_inode {
 	struct squashfs_base_inode base;
-	int nlink;
+	uint32_t nlink;
 	
 	sqfs_md_cursor next;
 	
-- 
2.43.0


From ec5e8b2c203b56756b8cd06504dce6f4e6b2cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 22/48] fix: check the requested access of files made in the
 work directory

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..3fdb824 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -640,14 +640,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 9e3bd6111cd9a394f16d06b3d8bbb7461d4dc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 23/48] fix: positional reads keep the position on failure;
 empty parts of vectored reads are skipped

---
 sample/enclose_io_unix.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3fdb824..c252deb 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -591,9 +591,6 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 			return -1;
 		}
 		read_ssize = squash_read(d, buf, nbyte);
-		if (-1 == read_ssize) {
-			return -1;
-		}
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
 		assert(backup_off == lseek_off);
 		return read_ssize;
@@ -609,13 +606,16 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		ssize_t i_ssize;
 		ssize_t ret = 0;
 		for (i = 0; i < iovcnt; ++i) {
+			if (0 == iov[i].iov_len) {
+				continue;
+			}
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				return ret > 0 ? ret : -1;
+			}
+			ret += i_ssize;
+			if ((size_t)i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From 779b9e4595969af6312822fcedf365c24a958101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 24/48] fix: positions and lengths beyond 2 GiB pass the I/O
 layer whole

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..a477dc6 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -142,7 +142,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		} while (0)
 
 int enclose_io_exepath(char* buffer, size_t* size);
-int enclose_io_dos_return(int statement);
+int64_t enclose_io_dos_return(int64_t statement);
 short enclose_io_if(const char* path);
 SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name);
 void enclose_io_chdir_helper(const char *path);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c252deb..81e04de 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -656,9 +656,9 @@ int enclose_io_access(const char *path, int mode)
 
 #endif // !_WIN32
 
-int enclose_io_dos_return(int statement) {
+int64_t enclose_io_dos_return(int64_t statement) {
 #ifdef _WIN32
-	int ret = (statement);
+	int64_t ret = (statement);
 	if (-1 == ret) {
 		ENCLOSE_IO_SET_LAST_ERROR;
 		return ret;
-- 
2.43.0


From 43a87c5bc1e65a505220bd753c158cb8653ba705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 25/48] fix: openat hands its arguments on to open

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index a477dc6..e83eb78 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -152,7 +152,7 @@ char *enclose_io_getwd(char *buf);
 int enclose_io_stat(const char *path, struct stat *buf);
 int enclose_io_fstat(int fildes, struct stat *buf);
 int enclose_io_open(int nargs, const char *pathname, int flags, ...);
-int enclose_io_openat(int fd, int nargs, const char *pathname, int flags, ...);
+int enclose_io_openat(int nargs, int dirfd, const char *pathname, int flags, ...);
 int enclose_io_close(int fildes);
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte);
 off_t enclose_io_lseek(int fildes, off_t offset, int whence);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 81e04de..8abb419 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1259,7 +1259,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1267,7 +1267,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(nargs - 1, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1282,7 +1282,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1290,7 +1290,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(nargs - 1, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 7d62a80d0aa071760fefa38d4229afcc2ae072c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 26/48] fix: getcwd reports a buffer that is too small

---
 sample/enclose_io_unix.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 8abb419..5e52cae 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -791,8 +791,13 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				return NULL;
 			}
 		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
+			// memcpy_len counts the trailing slash, which makes room for the terminator
+			if (size < memcpy_len) {
+				errno = size ? ERANGE : EINVAL;
+				#ifdef _WIN32
+				ENCLOSE_IO_SET_LAST_ERROR;
+				#endif
+				return NULL;
 			}
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
-- 
2.43.0


From 9be0cc42d5ebf505a49734718c57304453d8045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 27/48] fix: a work directory that cannot be made releases the
 lock and its name

---
 sample/enclose_io_unix.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 5e52cae..c318bdd 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -73,6 +73,7 @@ static int mkdir_workdir_halt_rm(const char *arg1, const struct stat *ptr, int f
 	} else {
 		unlink(arg1);
 	}
+	return 0;
 }
 #endif
 
@@ -93,7 +94,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #ifdef _WIN32
 			mkdir_workdir = malloc(MAX_PATH * 3);
@@ -101,28 +102,28 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (mkdir(mkdir_workdir)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				free(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #else
 			mkdir_workdir = generic_mkdir_workdir;
@@ -130,16 +131,18 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 			if (atexit(mkdir_workdir_halt)) {
+				rmdir(mkdir_workdir);
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
-				return NULL;
+				goto out;
 			}
 #endif
 		}
+out:
 		MUTEX_UNLOCK(&squash_global_mutex);
 	}
 	return mkdir_workdir;
-- 
2.43.0


From 56afd520c3098555e5c5b2ea9cda7195f0a4b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 28/48] fix: creating a file leaves the caller's path alone

---
 sample/enclose_io_unix.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c318bdd..a62c861 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1077,11 +1077,17 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			const char *dir_thereof_ptr = strrchr(pathname, '/');
 			if (dir_thereof_ptr) {
-				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				// pathname is not ours to change
+				char *dir_thereof = strdup(pathname);
+				if (NULL == dir_thereof) {
+					errno = ENOMEM;
+					return enclose_io_dos_return(-1);
+				}
+				dir_thereof[dir_thereof_ptr - pathname] = 0;
+				enclose_io_mkdir(dir_thereof, 0777);
+				free(dir_thereof);
 			}
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
-- 
2.43.0


From 55c8bccbb74a0757e336444581c1ad4f4e96dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 29/48] fix: only names under the reserved directory belong to
 the image

---
 sample/enclose_io_unix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index a62c861..1a0fe59 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1167,6 +1167,8 @@ short enclose_io_is_path(char *pathname)
 		if (0 == strncmp((pathname), "/__enclose_io_memfs__", 21)
 #ifdef _WIN32
 			|| 0 == strncmp((pathname), "\\__enclose_io_memfs__", 21)
+#else
+			&& ('/' == (pathname)[21] || '\0' == (pathname)[21])
 #endif
 			) {
 				return 1;
-- 
2.43.0


From 53997aef4b38859918c67109b41027adb8a80cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 30/48] fix: dlopen fails when the library cannot be extracted

---
 sample/enclose_io_unix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 1a0fe59..9385543 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -629,7 +629,15 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    SQUASH_OS_PATH extracted;
+    if (NULL == path) {
+        return dlopen(NULL, mode);
+    }
+    extracted = enclose_io_ifextract(path, NULL);
+    if (NULL == extracted) {
+        return NULL;
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From e0ba000db27859f67fdf5f8198719946c86862c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 31/48] fix: fdopendir refuses what is no directory and
 releases the name on failure

---
 sample/enclose_io_unix.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9385543..23dfd11 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -452,6 +452,11 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -471,6 +476,11 @@ DIR * enclose_io_fdopendir(int fd)
 		errno = ENOENT;
 		goto failure;
 	}
+	if (!S_ISDIR(dir->node.base.mode))
+	{
+		errno = ENOTDIR;
+		goto failure;
+	}
 	error = sqfs_dir_open(fs, &dir->node, &dir->dir, 0);
 	if (SQFS_OK != error)
 	{
@@ -489,6 +499,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From a451cc5b6df5f399ed1607a392308c0f864b87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 32/48] fix: relative directory changes start at the enclosed
 working directory

---
 sample/enclose_io_unix.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 23dfd11..aef4cc3 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -736,7 +736,24 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
+#ifndef _WIN32
+	if (enclose_io_cwd[0] && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	}
+#endif
 	if (enclose_io_is_path(path)) {
+		if (SQUASHFS_PATH_LEN - 1 < strlen(path)) {
+			// no room left for the trailing slash
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 59365d0f72745a34a72e816d7a566c6369f62267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 33/48] fix: names too long for the image are refused instead
 of cut

---
 sample/enclose_io_common.h | 19 ++++++++++++++++---
 sample/enclose_io_unix.c   | 35 +++++++++++++++++++++++------------
 sample/enclose_io_win32.c  | 18 +++++++++---------
 3 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index e83eb78..3ef71b2 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -45,6 +45,12 @@
 extern sqfs *enclose_io_fs;
 extern sqfs_path enclose_io_cwd;
 
+/*
+ * A name in the work directory. Names too long for it are cut,
+ * but never to a length the system accepts.
+ */
+typedef char enclose_io_workdir_path[4 * SQUASHFS_PATH_LEN + 2];
+
 #define ENCLOSE_IO_PP_NARG(...) \
     ENCLOSE_IO_PP_NARG_(__VA_ARGS__,ENCLOSE_IO_PP_RSEQ_N())
 #define ENCLOSE_IO_PP_NARG_(...) \
@@ -72,7 +78,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 
 #define ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(PATH, RETURN1, RETURN2) \
 	if (mkdir_workdir) { \
-		sqfs_path mkdir_workdir_expanded; \
+		enclose_io_workdir_path mkdir_workdir_expanded; \
 		char *mkdir_workdir_expanded_head; \
 		size_t mkdir_workdir_len; \
 		size_t memcpy_len; \
@@ -80,8 +86,8 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		mkdir_workdir_len = strlen(mkdir_workdir); \
 		memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len); \
 		memcpy_len = strlen(PATH); \
-		if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) { \
-			memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len; \
+		if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) { \
+			memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len; \
 		} \
 		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
 		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
@@ -95,6 +101,13 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 	} \
 	return(RETURN1)
 
+/* names too long to be expanded are refused instead of cut */
+#define ENCLOSE_IO_CHECK_EXPANDED_NAME(path, RETURN)	\
+			if (SQUASHFS_PATH_LEN < strlen(enclose_io_cwd) + strlen(path)) { \
+				errno = ENAMETOOLONG; \
+				return RETURN; \
+			}
+
 #define ENCLOSE_IO_GEN_EXPANDED_NAME(path)	\
 			enclose_io_cwd_len = strlen(enclose_io_cwd); \
 			memcpy(enclose_io_expanded, enclose_io_cwd, enclose_io_cwd_len); \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index aef4cc3..ad1285d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -217,6 +217,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		const char* workdir;
 		const char* workdir_path;
 
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
 		workdir = enclose_io_mkdir_workdir();
@@ -340,6 +341,7 @@ int enclose_io_execv(const char *path, char *const argv[])
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io__exec(enclose_io_expanded, argv);
 	} else if (enclose_io_is_path(path)) {
@@ -355,6 +357,7 @@ int enclose_io_lstat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -378,6 +381,7 @@ ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -403,6 +407,7 @@ DIR * enclose_io_opendir(const char *filename)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(filename, NULL);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(filename);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -572,6 +577,7 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(dirname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(dirname);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -658,6 +664,7 @@ int enclose_io_access(const char *path, int mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -709,6 +716,7 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
+        ENCLOSE_IO_CHECK_EXPANDED_NAME(path, NULL);
         ENCLOSE_IO_GEN_EXPANDED_NAME(path);
         return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
     }
@@ -741,6 +749,7 @@ int enclose_io_chdir(const char *path)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io_chdir(enclose_io_expanded);
 	}
@@ -755,7 +764,7 @@ int enclose_io_chdir(const char *path)
 			return -1;
 		}
 		if (mkdir_workdir) {
-			sqfs_path mkdir_workdir_expanded;
+			enclose_io_workdir_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
@@ -763,8 +772,8 @@ int enclose_io_chdir(const char *path)
 			mkdir_workdir_len = strlen(mkdir_workdir);
 			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 			memcpy_len = strlen(path);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+			if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+				memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -880,7 +889,7 @@ EncloseIOSetCurrentDirectoryW(
 		W_ENCLOSE_IO_PATH_CONVERT(lpPathName);
 
 		if (mkdir_workdir) {
-			sqfs_path mkdir_workdir_expanded;
+			enclose_io_workdir_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
@@ -888,8 +897,8 @@ EncloseIOSetCurrentDirectoryW(
 			mkdir_workdir_len = strlen(mkdir_workdir);
 			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 			memcpy_len = strlen(enclose_io_converted);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+			if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+				memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1016,6 +1025,7 @@ int enclose_io_stat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -1048,6 +1058,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_CHECK_EXPANDED_NAME(pathname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(pathname);
 		if (!(O_CREAT & flags)) {
 			ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
@@ -1069,7 +1080,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_workdir_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -1077,8 +1088,8 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				mkdir_workdir_len = strlen(mkdir_workdir);
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_expanded);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+					memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -1126,7 +1137,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				free(dir_thereof);
 			}
 			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_workdir_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -1134,8 +1145,8 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				mkdir_workdir_len = strlen(mkdir_workdir);
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(pathname);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+					memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
diff --git a/sample/enclose_io_win32.c b/sample/enclose_io_win32.c
index 2929257..dea3958 100644
--- a/sample/enclose_io_win32.c
+++ b/sample/enclose_io_win32.c
@@ -105,7 +105,7 @@ int enclose_io_wchdir(const wchar_t *path)
 		W_ENCLOSE_IO_PATH_CONVERT(path);
 
 		if (mkdir_workdir) {
-			sqfs_path mkdir_workdir_expanded;
+			enclose_io_workdir_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
 			size_t mkdir_workdir_len;
 			size_t memcpy_len;
@@ -113,8 +113,8 @@ int enclose_io_wchdir(const wchar_t *path)
 			mkdir_workdir_len = strlen(mkdir_workdir);
 			memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 			memcpy_len = strlen(enclose_io_converted);
-			if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-				memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+			if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+				memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 			}
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -311,7 +311,7 @@ EncloseIOCreateFileW(
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_workdir_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -319,8 +319,8 @@ EncloseIOCreateFileW(
 				mkdir_workdir_len = strlen(mkdir_workdir);
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_expanded);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+					memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
@@ -384,7 +384,7 @@ EncloseIOCreateFileW(
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
-				sqfs_path mkdir_workdir_expanded;
+				enclose_io_workdir_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
 				size_t mkdir_workdir_len;
 				size_t memcpy_len;
@@ -392,8 +392,8 @@ EncloseIOCreateFileW(
 				mkdir_workdir_len = strlen(mkdir_workdir);
 				memcpy(mkdir_workdir_expanded, mkdir_workdir, mkdir_workdir_len);
 				memcpy_len = strlen(enclose_io_converted);
-				if (SQUASHFS_PATH_LEN - mkdir_workdir_len < memcpy_len) {
-					memcpy_len = SQUASHFS_PATH_LEN - mkdir_workdir_len;
+				if (sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len < memcpy_len) {
+					memcpy_len = sizeof(mkdir_workdir_expanded) - 1 - mkdir_workdir_len;
 				}
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_converted, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
-- 
2.43.0


From b88a4ba23292bb39dd9abe247c09a78f346f585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 34/48] fix: the work directory's parent name is released

---
 sample/enclose_io_unix.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index ad1285d..27f7e31 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -91,7 +91,12 @@ static char * enclose_io_mkdir_workdir()
 	if (NULL == mkdir_workdir) {
 		MUTEX_LOCK(&squash_global_mutex);
 		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
+			SQUASH_OS_PATH tmpdir = squash_tmpdir();
+			if (NULL == tmpdir) {
+				goto out;
+			}
+			generic_mkdir_workdir = squash_tmpf(tmpdir, NULL);
+			free((void *)tmpdir);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
 				goto out;
-- 
2.43.0


From 53f079659590a23223783881aa9a09e81bf83893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 35/48] fix: mkdir on a file of the image does not make a
 directory hiding it

---
 sample/enclose_io_unix.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 27f7e31..4f13f6d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -225,6 +225,11 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		ENCLOSE_IO_CHECK_EXPANDED_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
+		if (0 == ret && !S_ISDIR(buf.st_mode)) {
+			// a directory of that name would hide it
+			errno = EEXIST;
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
@@ -253,6 +258,11 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		const char* workdir_path;
 
 		ret = squash_stat(enclose_io_fs, path, &buf);
+		if (0 == ret && !S_ISDIR(buf.st_mode)) {
+			// a directory of that name would hide it
+			errno = EEXIST;
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
-- 
2.43.0


From 0284e6af496f36fe9dd7f4f5fc30d4c04aaffd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 36/48] fix: cached blocks are used with the mutex of their
 cache held, not after it is released

---
 include/squash/file.h |  1 +
 include/squash/fs.h   |  3 ++-
 src/file.c            | 17 ++++++++++++++---
 src/fs.c              | 38 ++++++++++++++++----------------------
 src/table.c           |  6 +++++-
 5 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/include/squash/file.h b/include/squash/file.h
index eafd8ed..2fddedb 100644
--- a/include/squash/file.h
+++ b/include/squash/file.h
@@ -34,6 +34,7 @@
 sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 	uint32_t idx);
 
+/* The caller holds the mutex of the fragment cache until it is done with the block */
 sqfs_err sqfs_frag_block(sqfs *fs, sqfs_inode *inode,
 	size_t *offset, size_t *size, sqfs_block **block);
 
diff --git a/include/squash/fs.h b/include/squash/fs.h
index a916708..aeca776 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -103,7 +103,8 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Don't dispose after getting block, it's in the cache: the caller holds the
+ * mutex of the cache until it is done with the block */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
diff --git a/src/file.c b/src/file.c
index 7f2009e..413d46f 100644
--- a/src/file.c
+++ b/src/file.c
@@ -137,6 +137,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	buf_orig = buf;
 	while (*size > 0) {
 		sqfs_block *block = NULL;
+		sqfs_cache *locked = NULL; /* the cache holding the block */
 		size_t data_off, data_size;
 		size_t take;
 		
@@ -144,9 +145,13 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (fragment) { /* fragment */
 			if (inode->xtra.reg.frag_idx == SQUASHFS_INVALID_FRAG)
 				break;
+			locked = &fs->frag_cache;
+			MUTEX_LOCK(&locked->mutex);
 			err = sqfs_frag_block(fs, inode, &data_off, &data_size, &block);
-			if (err)
+			if (err) {
+				MUTEX_UNLOCK(&locked->mutex);
 				return err;
+			}
 		} else {			
 			if ((err = sqfs_blocklist_next(&bl)))
 				return err;
@@ -159,10 +164,14 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 				if (data_size > block_size)
 					data_size = block_size;
 			} else {
-				err = sqfs_data_cache(fs, &fs->data_cache, bl.block,
+				locked = &fs->data_cache;
+				MUTEX_LOCK(&locked->mutex);
+				err = sqfs_data_cache(fs, locked, bl.block,
 					bl.header, &block);
-				if (err)
+				if (err) {
+					MUTEX_UNLOCK(&locked->mutex);
 					return err;
+				}
 				data_size = block->size;
 			}
 		}
@@ -176,6 +185,8 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		} else {
 			memset(buf, 0, take);
 		}
+		if (locked)
+			MUTEX_UNLOCK(&locked->mutex);
 		read_off = 0;
 		*size -= take;
 		buf = (char*)buf + take;
diff --git a/src/fs.c b/src/fs.c
index d915ce5..fed2b4c 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -178,48 +178,36 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
-	sqfs_err ret;
-	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
 		sqfs_block_cache_entry loaded;
-		ret = sqfs_md_block_read(fs, *pos, &loaded.data_size, &loaded.block);
-		if (ret) {
-			goto exit;
-		}
+		sqfs_err err = sqfs_md_block_read(fs, *pos, &loaded.data_size, &loaded.block);
+		if (err)
+			return err;
 		entry = sqfs_cache_add(&fs->md_cache, *pos);
 		*entry = loaded;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
-	ret = SQFS_OK;
-exit:
-	MUTEX_UNLOCK(&fs->md_cache.mutex);
-	return ret;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
-	sqfs_err ret;
-	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
 		sqfs_block *loaded;
-		ret = sqfs_data_block_read(fs, pos, hdr, &loaded);
-		if (ret) {
-			goto exit;
-		}
+		sqfs_err err = sqfs_data_block_read(fs, pos, hdr, &loaded);
+		if (err)
+			return err;
 		entry = sqfs_cache_add(cache, pos);
 		entry->block = loaded;
 	}
 	*block = entry->block;
-	ret = SQFS_OK;
-exit:
-	MUTEX_UNLOCK(&cache->mutex);
-	return ret;
+	return SQFS_OK;
 }
 
 void sqfs_block_dispose(sqfs_block *block) {
@@ -239,9 +227,14 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 	while (size > 0) {
 		sqfs_block *block;
 		size_t take;
-		sqfs_err err = sqfs_md_cache(fs, &pos, &block);
-		if (err)
+		sqfs_err err;
+
+		MUTEX_LOCK(&fs->md_cache.mutex);
+		err = sqfs_md_cache(fs, &pos, &block);
+		if (err) {
+			MUTEX_UNLOCK(&fs->md_cache.mutex);
 			return err;
+		}
 		
 		take = block->size - cur->offset;
 		if (take > size)
@@ -258,6 +251,7 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 	}
 	return SQFS_OK;
 }
diff --git a/src/table.c b/src/table.c
index e4fbd5c..39222f1 100644
--- a/src/table.c
+++ b/src/table.c
@@ -57,10 +57,14 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		off = pos % SQUASHFS_METADATA_SIZE;
 	
 	sqfs_off_t bpos = table->blocks[bnum];
-	if (sqfs_md_cache(fs, &bpos, &block))
+	MUTEX_LOCK(&fs->md_cache.mutex);
+	if (sqfs_md_cache(fs, &bpos, &block)) {
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 		return SQFS_ERR;
+	}
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
 	/* BLOCK CACHED, DON'T DISPOSE */
+	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	return SQFS_OK;
 }
-- 
2.43.0


From 566e4e21b978526fd45320c7f60c5102044638b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 37/48] fix: the descriptor table is looked up under its mutex,
 not while another thread moves it

---
 include/squash.h         |  5 +++--
 sample/enclose_io_unix.c |  8 +++-----
 src/fd.c                 | 33 +++++++++++++++++++++++++++------
 src/stat.c               |  5 +++--
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..be7bd41 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_vfd_file(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_vfd_file(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -58,6 +58,7 @@ sqfs_err squash_start();
 ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufsize);
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
+struct squash_file * squash_vfd_file(int vfd);
 
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4f13f6d..372a97f 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -451,13 +451,12 @@ DIR * enclose_io_fdopendir(int fd)
 	struct squash_file *file;
 	sqfs *fs;
 
-	if (!SQUASH_VALID_VFD(fd))
+	file = SQUASH_VFD_FILE(fd);
+	if (NULL == file)
 	{
 		return fdopendir(fd);
 	}
 
-	file = squash_global_fdtable.fds[fd];
-
 	dir = calloc(1, sizeof(SQUASH_DIR));
 
 	if (NULL == dir)
@@ -507,9 +506,8 @@ DIR * enclose_io_fdopendir(int fd)
 		goto failure;
 	}
 	
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
-
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
diff --git a/src/fd.c b/src/fd.c
index 446e230..05113e2 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -12,6 +12,26 @@
 struct squash_fdtable squash_global_fdtable;
 MUTEX squash_global_mutex;
 
+// the caller holds squash_global_mutex
+static struct squash_file * squash_vfd_file_locked(int vfd)
+{
+	if (vfd < 0 || (size_t)vfd >= squash_global_fdtable.nr) {
+		return NULL;
+	}
+	return squash_global_fdtable.fds[vfd];
+}
+
+struct squash_file * squash_vfd_file(int vfd)
+{
+	struct squash_file *file;
+
+	// another thread may be moving the table
+	MUTEX_LOCK(&squash_global_mutex);
+	file = squash_vfd_file_locked(vfd);
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return file;
+}
+
 int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 {
 	sqfs_err error;
@@ -124,7 +144,8 @@ int squash_close(int vfd)
 	struct squash_file *file;
 
         MUTEX_LOCK(&squash_global_mutex);
-        if (!SQUASH_VALID_VFD(vfd)) {
+        file = squash_vfd_file_locked(vfd);
+        if (NULL == file) {
                 MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
@@ -144,7 +165,6 @@ int squash_close(int vfd)
                 free(handle);
         }
 
-        file = squash_global_fdtable.fds[vfd];
         free(file->filename);
         free(file);
 
@@ -166,12 +186,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -191,12 +211,12 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
 	off_t pos;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	pos = (off_t)file->pos;
 	if (SQUASH_SEEK_SET == whence)
 	{
@@ -245,6 +265,7 @@ sqfs_err squash_start()
 {
 	int ret;
 	squash_global_fdtable.nr = 0;
+	squash_global_fdtable.end = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
 	ret = atexit(squash_halt);
diff --git a/src/stat.c b/src/stat.c
index 121f575..544f232 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -72,11 +72,12 @@ failure:
 
 int squash_fstat(int vfd, struct stat *buf)
 {
-	if (!SQUASH_VALID_VFD(vfd))
+	struct squash_file *file = SQUASH_VFD_FILE(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	*buf = SQUASH_VFD_FILE(vfd)->st;
+	*buf = file->st;
 	return 0;
 }
-- 
2.43.0


From 7927fe8005432073d1edcd5eb767b7113bff43ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 38/48] fix: files are extracted with a mutex held, once and
 with their cache intact

---
 include/squash/mutex.h |  1 +
 src/extract.c          | 15 ++++++++++++---
 src/fd.c               |  2 ++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/squash/mutex.h b/include/squash/mutex.h
index 16573a7..18ee16c 100644
--- a/include/squash/mutex.h
+++ b/include/squash/mutex.h
@@ -23,6 +23,7 @@
 #endif
 
 extern MUTEX squash_global_mutex;
+extern MUTEX squash_extract_mutex;
 
 int MUTEX_INIT(MUTEX *mutex);
 int MUTEX_LOCK(MUTEX *mutex);
diff --git a/src/extract.c b/src/extract.c
index 01c5075..d1bafd6 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -243,6 +243,7 @@ struct SquashExtractEntry {
 	struct SquashExtractEntry *next;
 };
 
+MUTEX squash_extract_mutex; // guards the files extracted so far
 static struct SquashExtractEntry* squash_extract_cache = NULL;
 
 static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, const char *path)
@@ -279,24 +280,32 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 	SQUASH_OS_PATH ret;
 	const struct SquashExtractEntry* found;
 
+	MUTEX_LOCK(&squash_extract_mutex);
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
-		return found->ret;
+		ret = found->ret;
+		goto out;
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
 	if (NULL != ret && -1 == squash_extract_cache_insert(fs, path, ret)) {
 		// nobody would ever remove it
 		squash_remove_tmpf(ret);
 		errno = ENOMEM;
-		return NULL;
+		ret = NULL;
 	}
+out:
+	MUTEX_UNLOCK(&squash_extract_mutex);
 	return ret;
 }
 
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
+	struct SquashExtractEntry* ptr;
+
+	MUTEX_LOCK(&squash_extract_mutex);
+	ptr = squash_extract_cache;
 	squash_extract_cache = NULL;
+	MUTEX_UNLOCK(&squash_extract_mutex);
 	while (NULL != ptr) {
 		struct SquashExtractEntry* next = ptr->next;
 		squash_remove_tmpf(ptr->ret);
diff --git a/src/fd.c b/src/fd.c
index 05113e2..37cbc6d 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -259,6 +259,7 @@ static void squash_halt()
 	}
 	MUTEX_DESTORY(&squash_global_mutex);
 	squash_extract_clear_cache();
+	MUTEX_DESTORY(&squash_extract_mutex);
 }
 
 sqfs_err squash_start()
@@ -268,6 +269,7 @@ sqfs_err squash_start()
 	squash_global_fdtable.end = 0;
 	squash_global_fdtable.fds = NULL;
 	MUTEX_INIT(&squash_global_mutex);
+	MUTEX_INIT(&squash_extract_mutex);
 	ret = atexit(squash_halt);
 	if (0 == ret) {
 		return SQFS_OK;
-- 
2.43.0


From 6a4f636d579bf713f52958e43115c45d3d2f5b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 39/48] fix: names that climb out of the image by dot-dot
 reached the system beside the private directory

---
 sample/enclose_io_common.h |  3 ++-
 sample/enclose_io_unix.c   | 30 +++++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index 3ef71b2..6d89d97 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -73,6 +73,7 @@ typedef char enclose_io_workdir_path[4 * SQUASHFS_PATH_LEN + 2];
      9, 8, 7, 6, 5, 4, 3, 2, 1, 0
 
 short enclose_io_is_path(char *pathname);
+short enclose_io_climbs(const char *path);
 short enclose_io_is_path_w(wchar_t *pathname);
 short enclose_io_is_relative_w(wchar_t *pathname);
 
@@ -92,7 +93,7 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 		memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (PATH), memcpy_len); \
 		mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0'; \
 		mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope); \
-		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) { \
+		if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)] && !enclose_io_climbs(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope))) { \
 			memmove(mkdir_workdir_expanded_head, mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope), strlen(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope)) + 1); \
 			if (0 == stat(mkdir_workdir_expanded, &mkdir_workdir_buf)) { \
 				return(RETURN2); \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 372a97f..4c23384 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -153,6 +153,26 @@ out:
 	return mkdir_workdir;
 }
 
+// whether dot-dot components of the path lead out of the directory it starts in
+short enclose_io_climbs(const char *path)
+{
+	long depth = 0;
+	size_t len;
+
+	while (*path) {
+		len = strcspn(path, "/");
+		if (2 == len && 0 == strncmp(path, "..", 2)) {
+			if (--depth < 0) {
+				return 1;
+			}
+		} else if (len > 1 || (1 == len && '.' != *path)) {
+			depth++;
+		}
+		path += len + ('/' == path[len]);
+	}
+	return 0;
+}
+
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	int ret;
 	char *head = NULL;
@@ -166,7 +186,7 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	}
 
 	head = strstr(path, enclose_io_mkdir_scope);
-	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)]) {
+	if (NULL == head || '/' != head[strlen(enclose_io_mkdir_scope)] || enclose_io_climbs(head + strlen(enclose_io_mkdir_scope))) {
 		errno = ENOENT;
 		return -1;
 	}
@@ -791,7 +811,7 @@ int enclose_io_chdir(const char *path)
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (path), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
 			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
+			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)] && !enclose_io_climbs(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope))) {
 				memmove(
 					mkdir_workdir_expanded_head,
 					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
@@ -916,7 +936,7 @@ EncloseIOSetCurrentDirectoryW(
 			memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], (enclose_io_converted), memcpy_len);
 			mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
 			mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
+			if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)] && !enclose_io_climbs(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope))) {
 				memmove(
 					mkdir_workdir_expanded_head,
 					mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
@@ -1107,7 +1127,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], enclose_io_expanded, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
 				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
+				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)] && !enclose_io_climbs(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope))) {
 					memmove(
 						mkdir_workdir_expanded_head,
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
@@ -1164,7 +1184,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 				memcpy(&mkdir_workdir_expanded[mkdir_workdir_len], pathname, memcpy_len);
 				mkdir_workdir_expanded[mkdir_workdir_len + memcpy_len] = '\0';
 				mkdir_workdir_expanded_head = strstr(mkdir_workdir_expanded, enclose_io_mkdir_scope);
-				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)]) {
+				if (mkdir_workdir_expanded_head && '/' == mkdir_workdir_expanded_head[strlen(enclose_io_mkdir_scope)] && !enclose_io_climbs(mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope))) {
 					memmove(
 						mkdir_workdir_expanded_head,
 						mkdir_workdir_expanded_head + strlen(enclose_io_mkdir_scope),
-- 
2.43.0


From 2ca8d02284be910a54e250c61a76ede607b37f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 40/48] fix: executing a file of the image aborted the program
 for lack of memory

---
 sample/enclose_io_unix.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 4c23384..e62dfdf 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -343,17 +343,37 @@ int enclose_io__exec(const char *path, char *const argv[])
 	size_t exec_path_len = 2 * PATH_MAX;
 	char* exec_path = (char*)(malloc(exec_path_len));
 
+	if (NULL == exec_path) {
+		errno = ENOMEM;
+		return -1;
+	}
 	ret = enclose_io_exepath(exec_path, &exec_path_len);
-	assert(0 == ret);
-
-	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_RUBY", "true", 1);
-	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1);
-	assert(0 == ret);
+	if (0 != ret) {
+		if (!errno) {
+			errno = ENOENT;
+		}
+		free(exec_path);
+		return -1;
+	}
 
 	argc = 1;
 	while (argv[argc]) { ++argc; }
 	new_argv = (char **)malloc( (2 + argc) * sizeof(char *));
-	assert(new_argv);
+	if (NULL == new_argv) {
+		errno = ENOMEM;
+		free(exec_path);
+		return -1;
+	}
+
+	ret = setenv("ENCLOSE_IO_USE_ORIGINAL_RUBY", "true", 1);
+	if (0 == ret) {
+		ret = setenv("ENCLOSE_IO_USE_ORIGINAL_NODE", "true", 1);
+	}
+	if (0 != ret) {
+		free(exec_path);
+		free(new_argv);
+		return -1;
+	}
 	new_argv[0] = argv[0];
 	new_argv[1] = path;
 	for (i = 1; i < argc; ++i) {
-- 
2.43.0


From e407c0ed20070fb4950066907f8ba9b4189ad1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 41/48] fix: a directory was made over a file of the image when
 memory ran out

---
 sample/enclose_io_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e62dfdf..54d37a6 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -250,6 +250,10 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 			errno = EEXIST;
 			return -1;
 		}
+		if (-1 == ret && ENOENT != errno && ENOTDIR != errno) {
+			// whether there is something is not known
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
@@ -283,6 +287,10 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 			errno = EEXIST;
 			return -1;
 		}
+		if (-1 == ret && ENOENT != errno && ENOTDIR != errno) {
+			// whether there is something is not known
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
-- 
2.43.0


From 2245963f8038856cccdc7220ea34088a5bff3e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 42/48] fix: a name below a file fails with ENOENT whatever
 errno was before

---
 src/dir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dir.c b/src/dir.c
index 1488512..5f8657c 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -426,6 +426,12 @@ again:
 			/* interpret dot */
 			continue;
 		}
+		if (!S_ISDIR(inode->base.mode)) {
+			/* there is nothing below what is no directory */
+			*found = 0;
+			ret = SQFS_OK; /* not found */
+			goto exit;
+		}
 		if ((err = sqfs_dir_lookup(fs, inode, name, size, &entry, found))) {
 			ret = err;
 			goto exit;
-- 
2.43.0


From 2fefd74b0693de67fad2ed247a3cf644a5ce6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 43/48] fix: a block list that cannot be read whole did not
 keep its sound part from being read

---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index 413d46f..4a9bdca 100644
--- a/src/file.c
+++ b/src/file.c
@@ -318,6 +318,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 	} else {
 		ret = sqfs_blockidx_add(fs, inode, &blockidx);
 		if (ret) {
+			ret = SQFS_OK; /* no index: read the list from its start */
 			goto exit;
 		}
 	}
-- 
2.43.0


From 7859db3856e6ffc0903d42c8d5622e07714e6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:52 +0000
Subject: [PATCH 44/48] fix: an index behind the end of a table was looked up
 outside the image

Looking up inode number 0 or one behind the last, an id index or a
fragment index the image does not have read positions from wherever the
list of the table's blocks was thought to go on, and crashed.
---
 include/squash/table.h | 1 +
 src/table.c            | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/squash/table.h b/include/squash/table.h
index 7dea081..eb67450 100644
--- a/include/squash/table.h
+++ b/include/squash/table.h
@@ -29,6 +29,7 @@
 
 typedef struct {
 	size_t each;
+	size_t count;
 	uint64_t *blocks;
 } sqfs_table;
 
diff --git a/src/table.c b/src/table.c
index 39222f1..7ae4686 100644
--- a/src/table.c
+++ b/src/table.c
@@ -41,6 +41,7 @@ sqfs_err sqfs_table_init(sqfs_table *table, sqfs_fd_t fd, sqfs_off_t start, size
 	//bread = nblocks * sizeof(uint64_t);
 
 	table->each = each;
+	table->count = count;
 	table->blocks = (uint64_t *)(fd + start);
 	
 	return SQFS_OK;
@@ -56,7 +57,11 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 	size_t bnum = pos / SQUASHFS_METADATA_SIZE,
 		off = pos % SQUASHFS_METADATA_SIZE;
 	
-	sqfs_off_t bpos = table->blocks[bnum];
+	sqfs_off_t bpos;
+	if (idx >= table->count)
+		return SQFS_ERR;
+
+	bpos = table->blocks[bnum];
 	MUTEX_LOCK(&fs->md_cache.mutex);
 	if (sqfs_md_cache(fs, &bpos, &block)) {
 		MUTEX_UNLOCK(&fs->md_cache.mutex);
-- 
2.43.0


From 68b0f56f168eb297569c351855778db58bec589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:41 +0000
Subject: [PATCH 45/48] fix: a position outside its block or outside the image
 was read

A damaged inode number, directory position, block size or table could
name bytes behind the end of a metadata block, a block behind the end of
the image or one at its very start (which was taken for an empty slot of
the cache): memory that is not the image's was read, or none at all.
---
 include/squash/fs.h |  3 +++
 src/cache.c         |  2 +-
 src/fs.c            | 13 +++++++++++++
 src/table.c         |  7 +++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/squash/fs.h b/include/squash/fs.h
index aeca776..53865ab 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -94,6 +94,9 @@ sqfs_compression_type sqfs_compression(sqfs *fs);
 void sqfs_md_header(uint16_t hdr, short *compressed, uint16_t *size);
 void sqfs_data_header(uint32_t hdr, short *compressed, uint32_t *size);
 
+/* Does the image hold size bytes, behind its super block, at pos? */
+short sqfs_in_image(sqfs *fs, sqfs_off_t pos, size_t size);
+
 sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed, uint32_t size,
 	size_t outsize, sqfs_block **block);
 void sqfs_block_dispose(sqfs_block *block);
diff --git a/src/cache.c b/src/cache.c
index 610c05b..b000eac 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -70,7 +70,7 @@ void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
 	size_t i;
 	void *ret = NULL;
 	for (i = 0; i < cache->count; ++i) {
-		if (cache->idxs[i] == idx){
+		if (cache->idxs[i] == idx && idx != SQFS_CACHE_IDX_INVALID){
 			ret = sqfs_cache_entry(cache, i);
 			break;
 		}
diff --git a/src/fs.c b/src/fs.c
index fed2b4c..c94db0b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -112,9 +112,16 @@ void sqfs_data_header(uint32_t hdr, short *compressed, uint32_t *size) {
 	*size = hdr & ~SQUASHFS_COMPRESSED_BIT_BLOCK;
 }
 
+short sqfs_in_image(sqfs *fs, sqfs_off_t pos, size_t size) {
+	uint64_t at = pos, end = fs->sb->bytes_used;
+	return at >= sizeof(*fs->sb) && at <= end && size <= end - at;
+}
+
 sqfs_err sqfs_block_read(sqfs *fs, sqfs_off_t pos, short compressed,
 		uint32_t size, size_t outsize, sqfs_block **block) {
 	sqfs_err err = SQFS_ERR;
+	if (!sqfs_in_image(fs, pos, size))
+		return SQFS_ERR;
 	if (!(*block = malloc(sizeof(**block))))
 		return SQFS_ERR;
 	
@@ -155,6 +162,8 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 	
 	*data_size = 0;
 	
+	if (!sqfs_in_image(fs, pos, sizeof(hdr)))
+		return SQFS_ERR;
 	hdr = *(uint16_t *)(fs->fd + pos + fs->offset);
 	pos += sizeof(hdr);
 	*data_size += sizeof(hdr);
@@ -236,6 +245,10 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			return err;
 		}
 		
+		if (cur->offset > block->size) {
+			MUTEX_UNLOCK(&fs->md_cache.mutex);
+			return SQFS_ERR;
+		}
 		take = block->size - cur->offset;
 		if (take > size)
 			take = size;
diff --git a/src/table.c b/src/table.c
index 7ae4686..d8d29e4 100644
--- a/src/table.c
+++ b/src/table.c
@@ -61,6 +61,9 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 	if (idx >= table->count)
 		return SQFS_ERR;
 
+	if (!sqfs_in_image(fs, (const uint8_t *)&table->blocks[bnum] -
+			(fs->fd + fs->offset), sizeof(*table->blocks)))
+		return SQFS_ERR;
 	bpos = table->blocks[bnum];
 	MUTEX_LOCK(&fs->md_cache.mutex);
 	if (sqfs_md_cache(fs, &bpos, &block)) {
@@ -68,6 +71,10 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		return SQFS_ERR;
 	}
 	
+	if (off + table->each > block->size) {
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
+		return SQFS_ERR;
+	}
 	memcpy(buf, (char*)(block->data) + off, table->each);
 	/* BLOCK CACHED, DON'T DISPOSE */
 	MUTEX_UNLOCK(&fs->md_cache.mutex);
-- 
2.43.0


From 8a23584abbbc63fa62fb3e2bb07d839a0c2dcdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 46/48] fix: a data block or fragment shorter than its part of
 the file was read past its end

Reading from behind the end of such a block copied whatever memory came
next, reading across it went on with the bytes of the next block; a block
size of zero divided by it.
---
 src/file.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 4a9bdca..6089d34 100644
--- a/src/file.c
+++ b/src/file.c
@@ -59,6 +59,8 @@ sqfs_err sqfs_frag_block(sqfs *fs, sqfs_inode *inode,
 	
 	*offset = inode->xtra.reg.frag_off;
 	*size = inode->xtra.reg.file_size % fs->sb->block_size;
+	if (*offset > (*block)->size || *size > (*block)->size - *offset)
+		return SQFS_ERR;
 	return SQFS_OK;
 }
 
@@ -122,7 +124,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	file_size = inode->xtra.reg.file_size;
 	block_size = fs->sb->block_size;
 	
-	if (*size < 0 || start < 0)
+	if (*size < 0 || start < 0 || block_size == 0)
 		return SQFS_ERR;
 	if (start >= file_size || *size == 0) {
 		*size = 0;
@@ -173,6 +175,12 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 					return err;
 				}
 				data_size = block->size;
+				if (data_size > block_size)
+					data_size = block_size;
+				if (data_size < block_size && data_size < file_size - bl.pos) {
+					MUTEX_UNLOCK(&locked->mutex);
+					return SQFS_ERR;
+				}
 			}
 		}
 		
-- 
2.43.0


From d03aa1bd2bf629f0cb5872b618d33fb8f81ac86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 47/48] fix: a directory entry with an overlong name overran
 the buffer for it

The stored length of a name was not checked against the 256 bytes that
all callers provide; and a directory with a size below 3 was listed
beyond its end.
---
 src/dir.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dir.c b/src/dir.c
index 5f8657c..3000d06 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -65,6 +65,8 @@ sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir,
 	dir->cur.offset = inode->xtra.dir.offset;
 	dir->offset = 0;
 	dir->total = inode->xtra.dir.dir_size - 3;
+	if (inode->xtra.dir.dir_size < 3)
+		dir->total = 0;
 	
 	if (offset) {
 		/* Fast forward to the given offset */
@@ -145,6 +147,10 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 	
 	entry->type = e.type;
 	entry->name_size = e.size + 1;
+	if (entry->name_size > SQUASHFS_NAME_LEN) {
+		*err = SQFS_ERR;
+		goto failure;
+	}
 	entry->inode = ((uint64_t)dir->header.start_block << 16) + e.offset;
 	/* e.inode_number is signed */
 	entry->inode_number = dir->header.inode_number + (int16_t)e.inode_number;
@@ -239,6 +245,8 @@ static sqfs_err sqfs_dir_ff_name_f(sqfs *fs, sqfs_md_cursor *cur,
 	size_t name_size = index->size + 1;
 	int order;
 
+	if (name_size > SQUASHFS_NAME_LEN)
+		return SQFS_ERR;
 	if ((err = sqfs_md_read(fs, cur, args->name, name_size)))
 		return err;
 	args->name[name_size] = '\0';
-- 
2.43.0


From a9bc024cc9c9eec40f4a7c2a9a033d0e178789e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 48/48] fix: reading far into a large file with the highest
 inode number crashed

Its number plus one wraps around to the mark of an empty cache slot.
---
 src/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 6089d34..5b0d0e5 100644
--- a/src/file.c
+++ b/src/file.c
@@ -227,7 +227,8 @@ only need to read that one MD-block to seek within the file.
 static short sqfs_blockidx_indexable(sqfs *fs, sqfs_inode *inode) {
 	size_t blocks = sqfs_blocklist_count(fs, inode);
 	size_t md_size = blocks * sizeof(sqfs_blocklist_entry);
-	return md_size >= SQUASHFS_METADATA_SIZE;
+	return md_size >= SQUASHFS_METADATA_SIZE
+		&& inode->base.inode_number + 1 != SQFS_CACHE_IDX_INVALID;
 }
 
 static void sqfs_blockidx_dispose(void *data) {
-- 
2.43.0

