/* Environment model, part three: the system as the sample I/O layer sees it. */
#include "vf.h"
#include "env_sys.h"
#include <stdarg.h>
#include <sys/uio.h>
#include <ftw.h>
struct vf_sys vf_sys[VF_NSYS];
int vf_sys_n, vf_sys_errno = EACCES;
long vf_sys_ret, (*vf_sys_answer)(struct vf_sys *s);
extern long (*vf_path_hook)(int call, const char *n, void *b, long m);
extern int (*vf_close_hook)(int fd);
static struct vf_sys *rec(int call, const char *path) {
	struct vf_sys *s;
	if (vf_sys_n >= VF_NSYS) vf_fail_("environment model: too many system calls");
	s = &vf_sys[vf_sys_n++];
	memset(s, 0, sizeof *s);
	s->call = call; s->orig = path;
	if (path) { size_t n = strlen(path); s->has_path = 1; if (n < sizeof s->path) memcpy(s->path, path, n + 1); else { memcpy(s->path, path, sizeof s->path - 1); s->path[sizeof s->path - 1] = 0; } }
	return s;
}
static long done(struct vf_sys *s) {
	long r;
	if (vf_sys_answer) return vf_sys_answer(s);
	r = vf_sys_ret;
	if (r == -1) errno = vf_sys_errno;
	return r;
}
static long path_hook(int call, const char *n, void *b, long m) { struct vf_sys *s = rec(call == 's' ? S_STAT : call == 'l' ? S_LSTAT : call == 'a' ? S_ACCESS : S_UNLINK, n); s->p = b; s->a = m; return (int)done(s); }
static int close_hook(int fd) { struct vf_sys *s = rec(S_CLOSE, 0); s->fd = fd; return (int)done(s); }
void vf_sys_start(void) { vf_path_hook = path_hook; vf_close_hook = close_hook; }
int vf_r_open(const char *n, int fl, ...) { struct vf_sys *s = rec(S_OPEN, n); va_list ap; s->a = fl; va_start(ap, fl); if (fl & O_CREAT) s->b = va_arg(ap, int); va_end(ap); return (int)done(s); }
int vf_r_openat(int d, const char *n, int fl, ...) { struct vf_sys *s = rec(S_OPENAT, n); va_list ap; s->fd = d; s->a = fl; va_start(ap, fl); if (fl & O_CREAT) s->b = va_arg(ap, int); va_end(ap); return (int)done(s); }
ssize_t vf_r_read(int d, void *b, size_t n) { struct vf_sys *s = rec(S_READ, 0); s->fd = d; s->p = b; s->a = n; return done(s); }
off_t vf_r_lseek(int d, off_t o, int w) { struct vf_sys *s = rec(S_LSEEK, 0); s->fd = d; s->a = o; s->b = w; return done(s); }
int vf_r_fstat(int d, struct stat *b) { struct vf_sys *s = rec(S_FSTAT, 0); s->fd = d; s->p = b; return (int)done(s); }
ssize_t vf_r_readlink(const char *n, char *b, size_t z) { struct vf_sys *s = rec(S_READLINK, n); s->p = b; s->a = z; return done(s); }
DIR *vf_r_opendir(const char *n) { return (DIR *)done(rec(S_OPENDIR, n)); }
DIR *vf_r_fdopendir(int d) { struct vf_sys *s = rec(S_FDOPENDIR, 0); s->fd = d; return (DIR *)done(s); }
int vf_r_closedir(DIR *d) { struct vf_sys *s = rec(S_CLOSEDIR, 0); s->p = d; return (int)done(s); }
struct dirent *vf_r_readdir(DIR *d) { struct vf_sys *s = rec(S_READDIR, 0); s->p = d; return (struct dirent *)done(s); }
long vf_r_telldir(DIR *d) { struct vf_sys *s = rec(S_TELLDIR, 0); s->p = d; return done(s); }
void vf_r_seekdir(DIR *d, long l) { struct vf_sys *s = rec(S_SEEKDIR, 0); s->p = d; s->a = l; done(s); }
void vf_r_rewinddir(DIR *d) { struct vf_sys *s = rec(S_REWINDDIR, 0); s->p = d; done(s); }
int vf_r_dirfd(DIR *d) { struct vf_sys *s = rec(S_DIRFD, 0); s->p = d; return (int)done(s); }
int vf_r_scandir(const char *n, void *l, void *sel, void *cmp) { struct vf_sys *s = rec(S_SCANDIR, n); s->p = l; s->q = sel; s->r = cmp; return (int)done(s); }
ssize_t vf_r_pread(int d, void *b, size_t n, off_t o) { struct vf_sys *s = rec(S_PREAD, 0); s->fd = d; s->p = b; s->a = n; s->b = o; return done(s); }
ssize_t vf_r_readv(int d, const struct iovec *v, int n) { struct vf_sys *s = rec(S_READV, 0); s->fd = d; s->p = v; s->a = n; return done(s); }
void *vf_r_dlopen(const char *n, int m) { struct vf_sys *s = rec(S_DLOPEN, n); s->a = m; return (void *)done(s); }
int vf_r_mkdir(const char *n, mode_t m) { struct vf_sys *s = rec(S_MKDIR, n); s->a = m; return (int)done(s); }
int vf_r_rmdir(const char *n) { return (int)done(rec(S_RMDIR, n)); }
int vf_r_execv(const char *n, char *const v[]) { struct vf_sys *s = rec(S_EXECV, n); s->p = v; return (int)done(s); }
int vf_r_chdir(const char *n) { return (int)done(rec(S_CHDIR, n)); }
char *vf_r_getcwd(char *b, size_t n) { struct vf_sys *s = rec(S_GETCWD, 0); s->p = b; s->a = n; return (char *)done(s); }
int vf_r_nftw(const char *n, int (*f)(const char *, const struct stat *, int, struct FTW *), int k, int fl) { struct vf_sys *s = rec(S_NFTW, n); s->q = (const void *)f; s->a = k; s->b = fl; return (int)done(s); }
int vf_r_setenv(const char *n, const char *v, int o) { struct vf_sys *s = rec(S_SETENV, n); (void)v; (void)o; return (int)done(s); }
