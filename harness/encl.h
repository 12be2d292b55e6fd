/* The image of the sample I/O layer: everything lies under the reserved directory. */
#ifndef ENCL_H
#define ENCL_H
#include "tree.h"
#include "env_sys.h"
#include "enclose_io_common.h"
#include <sys/uio.h>
extern char *mkdir_workdir;
extern int enclose_io_lstat(const char *path, struct stat *buf);
extern ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize);
extern DIR *enclose_io_opendir(const char *filename), *enclose_io_fdopendir(int fd);
extern int enclose_io_closedir(DIR *dirp), enclose_io_dirfd(DIR *dirp), enclose_io_access(const char *path, int mode), enclose_io_mkdir(const char *path, mode_t mode), enclose_io_execv(const char *path, char *const argv[]);
extern struct SQUASH_DIRENT *enclose_io_readdir(DIR *dirp);
extern long enclose_io_telldir(DIR *dirp);
extern void enclose_io_seekdir(DIR *dirp, long loc), enclose_io_rewinddir(DIR *dirp);
extern int enclose_io_scandir(const char *, struct SQUASH_DIRENT ***, int (*)(const struct SQUASH_DIRENT *), int (*)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **));
extern ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset), enclose_io_readv(int d, const struct iovec *iov, int iovcnt);
extern void *enclose_io_dlopen(const char *path, int mode);
#define PRE "/__enclose_io_memfs__"
#define PREN 21
static sqfs FS;
static int nM, nD, nG;
static void encl_start(void) {
	int d;
	add(-1, T_DIR, "");
	nM = add(0, T_DIR, "__enclose_io_memfs__");
	nD = d = add(nM, T_DIR, "d");
	add_file(d, "f", "FFF", 3);
	add_link(d, "l", "../g", 4);
	{ int w = add(d, T_DIR, "w"); add_link(w, "k", "../../g", 7); }
	nG = add_file(nM, "g", "GGGGGGG", 7);
	add_link(nM, "s", "d", 1);
	{ int x = add(0, T_DIR, "__enclose_io_memfs__x"); add_file(x, "g", "XX", 2); } /* not in the image's part of the name space */
	add_file(0, "g", "Y", 1);
	tree_finish();
	vf_assert(sqfs_open_image(&FS, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	enclose_io_fs = &FS;
	vf_sys_start();
}
/* the rule: a name is the image's when it is the reserved directory or lies below it */
static int ref_inside(const char *p) { return strncmp(p, PRE, PREN) == 0 && (p[PREN] == 0 || p[PREN] == '/'); }
#endif
