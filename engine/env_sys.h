#ifndef ENV_SYS_H
#define ENV_SYS_H
/* System calls of the sample I/O layer: each is recorded with its arguments and answered as the harness says. */
enum { S_NONE, S_STAT, S_LSTAT, S_ACCESS, S_UNLINK, S_CLOSE, S_OPEN, S_OPENAT, S_READ, S_LSEEK, S_FSTAT, S_READLINK, S_OPENDIR, S_FDOPENDIR, S_CLOSEDIR, S_READDIR, S_TELLDIR, S_SEEKDIR, S_REWINDDIR, S_DIRFD, S_SCANDIR, S_PREAD, S_READV, S_DLOPEN, S_MKDIR, S_RMDIR, S_EXECV, S_CHDIR, S_GETCWD, S_NFTW, S_SETENV };
struct vf_sys { int call, fd; const char *orig; char path[128]; int has_path; const void *p, *q, *r; long a, b; };
#define VF_NSYS 16
extern struct vf_sys vf_sys[VF_NSYS];
extern int vf_sys_n;
extern long vf_sys_ret; extern int vf_sys_errno;
extern long (*vf_sys_answer)(struct vf_sys *s); /* how the system answers; by default vf_sys_ret, with vf_sys_errno for -1 */
void vf_sys_start(void);
#endif
