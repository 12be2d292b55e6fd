/* P21, P22, P23 for the sample I/O layer: failing calls leave nothing, hold nothing, report. */
#include "encl.h"
#include "env_file.h"
void vf_r_free(void *);
#if P == 21
#define A21 vf_assert
#else
#define A21(c, m) ((void)(c))
#endif
#if P == 22
#define A22 vf_assert
#else
#define A22(c, m) ((void)(c))
#endif
#if P == 23
#define A23 vf_assert
#else
#define A23(c, m) ((void)(c))
#endif
#ifdef VF_THOROUGH
#define KBITS 3
#else
#define KBITS 2
#endif
static int rel; /* names are given relative to the working directory PRE/d */
static char nb[100], buf[100];
static struct stat sb;
static int made, keep; /* the directory PRE/n was made; blocks a successful call keeps */
static int xdir; static char wd[100];
static char *av[3] = { (char *)"zero", (char *)"one", 0 };
static const char *nm(const char *t) { if (rel) { strcpy(nb, "../"); strcat(nb, t); } else { strcpy(nb, PRE "/"); strcat(nb, t); } return nb; }
static int exec_ok, sysfail; /* the program's own name cannot be read, the environment not changed */
static long answer(struct vf_sys *s) { /* a system with the temporary directory only */
	switch (s->call) {
	case S_MKDIR: if (strncmp(s->path, "/tmp/", 5) == 0 && !strchr(s->path + 5, '/')) { vf_assert(!xdir, "one private directory"); xdir = 1; strcpy(wd, s->path); return 0; } if (strcmp(s->path + strlen(s->path) - 2, "/n")) return 0; /* a directory on the way */ if (made) { errno = EEXIST; return -1; } made = 1; return 0;
	case S_RMDIR: vf_assert(xdir && strcmp(s->path, wd) == 0, "only the private directory is removed"); xdir = 0; return 0;
	case S_UNLINK: { struct vf_file *f = vf_file_find(s->path); if (!f) { errno = ENOENT; return -1; } f->used = 0; return 0; }
	case S_STAT: case S_LSTAT: if ((xdir && strcmp(s->path, wd) == 0) || vf_file_find(s->path) || (made && strlen(s->path) > 2 && strcmp(s->path + strlen(s->path) - 2, "/n") == 0)) { memset((void *)s->p, 0, sizeof sb); ((struct stat *)s->p)->st_mode = S_IFDIR; return 0; } errno = ENOENT; return -1;
	case S_OPEN: if (xdir && strncmp(s->path, wd, strlen(wd)) == 0 && (s->a & O_CREAT)) return 200; errno = ENOENT; return -1;
	case S_READLINK: if (strcmp(s->path, "/proc/self/exe") == 0 && sysfail != 1) { memcpy((char *)s->p, "/self", 5); return 5; } errno = ENOENT; return -1;
	case S_EXECV: exec_ok = strcmp(s->path, "/self") == 0 && ((char *const *)s->p)[0] == av[0]; errno = EACCES; return -1;
	case S_DLOPEN: vf_assert(vf_file_find(s->path) != 0, "what is loaded was extracted"); return 77;
	case S_SETENV: if (sysfail > 1 && --sysfail == 1) { errno = ENOMEM; return -1; } return 0;
	case S_CHDIR: return 0;
	case S_ACCESS: errno = ENOENT; return -1;
	}
	vf_fail_("unexpected system call"); return -1;
}
static int failed(int fault, int want) {
	A23(errno != 0, "a failing call sets errno");
	if (!fault && want) A23(errno == want, "a failing call sets the documented errno");
	return 0;
}
static int res(int r, int fault, int want) { A23(r == 0 || r == -1, "the result is 0 or -1"); return r == 0 ? 1 : failed(fault, want); }
static int handle(int fd, int fault, int node, int want) {
	if (fd < 0) { A23(fd == -1, "a failed open returns -1"); return failed(fault, want); }
	vf_assert(enclose_io_fstat(fd, &sb) == 0 && sb.st_mtime == 1000 + node && enclose_io_close(fd) == 0, "the descriptor names the object");
	return 1;
}
static int stream(DIR *d, int fault, int want) {
	if (!d) return failed(fault, want);
	vf_assert(enclose_io_telldir(d) == 0 && enclose_io_closedir(d) == 0, "the stream works");
	return 1;
}
static int scan(const char *p, int fault, int want) {
	struct SQUASH_DIRENT **l; int i, r = enclose_io_scandir(p, &l, 0, 0);
	if (r < 0) { A23(r == -1, "a failed scandir returns -1"); return failed(fault, want); }
	vf_assert(r == 3, "scandir lists the directory");
	for (i = 0; i < r; i++) vf_r_free(l[i]);
	vf_r_free(l);
	return 1;
}
static int fdo(const char *p, int fault, int want) { /* the descriptor stays usable when the stream is not made */
	int on = vf_oom_on, df = vf_dup_fail, fd, r, n; DIR *d;
	vf_oom_on = 0; vf_dup_fail = 0; fd = enclose_io_open(2, p, 0); vf_assert(fd >= 0, "open"); n = vf_fds_open; vf_oom_on = on; vf_dup_fail = df;
	errno = 0; d = enclose_io_fdopendir(fd);
	vf_oom_on = 0;
	if (d) { vf_assert(enclose_io_dirfd(d) == fd && enclose_io_telldir(d) == 0 && enclose_io_closedir(d) == 0, "the stream works"); r = 1; }
	else { r = failed(fault, want); A21(vf_fds_open == n && enclose_io_fstat(fd, &sb) == 0, "the descriptor is as it was"); vf_assert(enclose_io_close(fd) == 0, "close"); }
	vf_oom_on = on;
	return r;
}
#define NOP 34
static int dups(uint32_t k) { return (k >= 3 && k <= 8) || k == 9 || k == 10; }
static int op(uint32_t k, int fault) {
	int r; ssize_t n; const char *x; char *c; void *h;
	errno = 0;
	switch (k) {
	case 0: return res(enclose_io_stat(nm("g"), &sb), fault, 0);
	case 1: return res(enclose_io_lstat(nm("d/l"), &sb), fault, 0);
	case 2: n = enclose_io_readlink(nm("d/l"), buf, 50); if (n < 0) { A23(n == -1, "a failed readlink returns -1"); return failed(fault, 0); } vf_assert(n == 4 && memcmp(buf, "../g", 4) == 0, "the target"); return 1;
	case 3: return stream(enclose_io_opendir(nm("d")), fault, 0);
	case 4: return fdo(nm("d"), fault, 0);
	case 5: return scan(nm("d"), fault, 0);
	case 6: return handle(enclose_io_open(2, nm("g"), 0), fault, nG, 0);
	case 7: return handle(enclose_io_open(3, nm("d/l"), 0, 0), fault, nG, 0);
	case 8: return handle(enclose_io_openat(3, AT_FDCWD, nm("d/w/k"), 0), fault, nG, 0);
	case 9: x = enclose_io_ifextract(nm("g"), "so"); if (!x) return failed(fault, 0); vf_assert(vf_file_find(x) && vf_file_find(x)->len == 7, "the copy"); return 1;
	case 10: h = enclose_io_dlopen(nm("g"), 1); if (!h) return failed(fault, 0); vf_assert(h == (void *)77, "the handle"); return 1;
	case 11: { sqfs_path was; memcpy(was, enclose_io_cwd, sizeof was); r = enclose_io_chdir(nm("d")); if (r) A21(strcmp(was, enclose_io_cwd) == 0, "the working directory is as it was"); else { c = enclose_io_getcwd(buf, 60); vf_assert(c == buf, "getcwd"); } memcpy(enclose_io_cwd, was, sizeof was); return res(r, fault, 0); }
	case 12: { sqfs_path was; memcpy(was, enclose_io_cwd, sizeof was); strcpy(enclose_io_cwd, PRE "/d/"); c = enclose_io_getcwd(0, 0); memcpy(enclose_io_cwd, was, sizeof was); if (!c) return failed(fault, 0); vf_assert(strcmp(c, PRE "/d") == 0, "the working directory"); vf_r_free(c); return 1; }
	case 13: r = enclose_io_mkdir(nm("n"), 0755); if (r == 0) { vf_assert(xdir && made, "it was made"); made = 0; } else A21(!made, "nothing is made"); return res(r, fault, 0);
	case 14: r = enclose_io_open(3, nm("q"), O_CREAT | O_RDWR, 0600); if (r < 0) { A23(r == -1, "-1"); return failed(fault, 0); } vf_assert(r == 200, "the system's file"); return 1;
	case 15: exec_ok = 0; r = enclose_io_execv(nm("g"), av); A23(r == -1 && errno != 0, "a failing execution says so"); if (!fault) A23(errno == EACCES, "as the system says"); if (!exec_ok) A23(errno == ENOMEM || sysfail == 1, "no memory"); if (sysfail == 1) A23(!exec_ok, "nothing is executed"); sysfail = 0; return exec_ok;
	case 16: return res(enclose_io_access(nm("g"), 0), fault, 0);
	case 17: return handle(enclose_io_openat(4, AT_FDCWD, nm("d/f"), 0, 0), fault, nD + 1, 0);
	/* these fail by themselves */
	case 18: return res(enclose_io_stat(nm("no"), &sb), fault, ENOENT);
	case 19: return res(enclose_io_lstat(nm("d/no/x"), &sb), fault, ENOENT);
	case 20: n = enclose_io_readlink(nm("g"), buf, 50); A23(n == -1, "no link"); return failed(fault, EINVAL);
	case 21: return stream(enclose_io_opendir(nm("g")), fault, ENOTDIR);
	case 22: return fdo(nm("g"), fault, ENOTDIR);
	case 23: return scan(nm("no"), fault, ENOENT);
	case 24: return handle(enclose_io_open(2, nm("no"), 0), fault, -1, ENOENT);
	case 25: x = enclose_io_ifextract(nm("no"), 0); A23(!x, "nothing to extract"); return failed(fault, ENOENT);
	case 26: x = enclose_io_ifextract(nm("d"), 0); A23(!x, "nothing to extract"); return failed(fault, 0);
	case 27: h = enclose_io_dlopen(nm("no"), 1); A23(!h, "nothing to load"); return failed(fault, ENOENT);
	case 28: r = enclose_io_chdir(nm("g")); A23(r == -1, "a file is no directory"); return failed(fault, 0);
	case 29: r = enclose_io_chdir(nm("no")); A23(r == -1, "no such directory"); return failed(fault, ENOENT);
	case 30: r = enclose_io_mkdir(nm("g"), 0700); A23(r == -1, "something is there"); return failed(fault, fault ? 0 : EEXIST);
	case 31: return res(enclose_io_access(nm("no"), 0), fault, ENOENT);
	case 32: return handle(enclose_io_openat(3, AT_FDCWD, nm("g/x"), 0), fault, -1, 0);
	default: n = enclose_io_pread(99, buf, 1, 0); return 1;
	}
}
void harness(void) {
	uint32_t k = vf_split(NOP - 1, 0), warm = vf_split(2, 1); int fd0, fds, r, hit, i, good = k < 18, live; DIR *d0; uint64_t m, m2;
	ino_comp = dir_comp = 0xff;
	encl_start();
	rel = (int)vf_split(2, 2); if (rel) strcpy(enclose_io_cwd, PRE "/d/");
	vf_sys_answer = answer; vf_env_tmpdir = "/tmp";
	fd0 = enclose_io_open(2, PRE "/g", 0); d0 = enclose_io_opendir(PRE);
	vf_assert(fd0 >= 0 && d0 && enclose_io_lseek(fd0, 3, SEEK_SET) == 3 && enclose_io_readdir(d0), "existing objects open");
	if (warm) { r = op(k, 0); A23(r == good, "a call on an existing object of the right kind succeeds, any other fails"); vf_sys_n = 0; }
	fds = vf_fds_open;
	m = vf_u64(); m2 = m;
	for (i = 0; i < KBITS; i++) m2 &= m2 - 1;
	vf_assume(m2 == 0);
	vf_dup_fail = dups(k) ? (int)vf_pick(0, 1) : 0; hit = vf_dup_fail;
	if (k == 15) { sysfail = (int)vf_pick(0, 3); hit |= sysfail; }
	vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0; live = vf_live;
	r = op(k, 1);
	vf_oom_on = 0; vf_dup_fail = 0; vf_sys_n = 0;
	hit |= vf_oom_no > 63 || (m & ((1ull << vf_oom_no) - 1)) != 0;
	if (!hit) A23(r == good, "a call on an existing object of the right kind succeeds, any other fails");
	if (warm && k != 9 && k != 10 && k != 14) A21(vf_live == live, "nothing is left behind"); /* the caches are full */
	A22(vf_locks_held == 0, "no lock is held");
	A21(vf_fds_open == fds, "no descriptor is left");
	A21(vf_streams_open == 0, "no stream is left");
	if (good && !r) vf_reach("failed by a fault"); else vf_reach(good ? "succeeded" : "failed by itself");
	r = op(k, 0); vf_sys_n = 0;
	A21(r == good, "the same call without the fault succeeds");
	A22(vf_locks_held == 0, "no lock is held");
	vf_assert(enclose_io_lseek(fd0, 0, SEEK_CUR) == 3 && enclose_io_read(fd0, buf, 9) == 4 && memcmp(buf, "GGGG", 4) == 0, "an open descriptor is as it was");
	vf_assert(enclose_io_telldir(d0) == 1 && enclose_io_readdir(d0), "an open stream is as it was");
	vf_assert(enclose_io_closedir(d0) == 0 && enclose_io_close(fd0) == 0, "close");
	A21(vf_fds_open == 0, "every descriptor is closed");
	vf_end();
}
