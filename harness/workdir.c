/* P33: what is made inside the image lives in a private directory and is found again. */
#include "encl.h"
#include "env_file.h"
#include <ftw.h>
#ifdef VF_THOROUGH
#define K 3
#else
#define K 3
#endif
extern int vf_atexit_fail;
/* the system: a directory /tmp, and what is made in it */
static struct { int used, dir; char n[100]; mode_t mode; } X[16];
static int nx, fail_mkdir, made_mode;
static int xfind(const char *n) { int i; for (i = 0; i < nx; i++) if (X[i].used && strcmp(X[i].n, n) == 0) return i; return -1; }
static int xparent(const char *n) { char b[100]; char *e; int i; strcpy(b, n); e = strrchr(b, '/'); if (!e || e == b) return 0; *e = 0; if (strcmp(b, "/tmp") == 0) return 1; i = xfind(b); return i >= 0 && X[i].dir; }
static int xadd(const char *n, int dir, int mode) { vf_assert(nx < 16, "environment model: too many names"); X[nx].used = 1; X[nx].dir = dir; X[nx].mode = mode; strcpy(X[nx].n, n); return nx++; }
static char wd[100]; static int wdn;
/* takes out dot-dot as the system does: what is before it must be a directory */
static int xnorm(const char *p, char *o) {
	int n = 0;
	while (*p) {
		if (strncmp(p, "/..", 3) == 0 && (p[3] == '/' || p[3] == 0)) {
			int i; o[n] = 0; i = xfind(o);
			if (i < 0 || !X[i].dir) return -1;
			while (n && o[--n] != '/') ;
			p += 3;
		} else do o[n++] = *p++; while (*p && *p != '/');
	}
	o[n] = 0;
	return 0;
}
static long answer(struct vf_sys *s) {
	int i; char np[100]; const char *sp = 0;
	if (s->has_path && wdn == 0 && s->call == S_MKDIR) { /* the private directory itself */
		vf_assert(strncmp(s->path, "/tmp/", 5) == 0 && xfind(s->path) < 0, "the private directory is a new one in the temporary directory");
		if (fail_mkdir) { errno = EACCES; return -1; }
		vf_assert((s->a & 077) == 0, "others cannot look into it");
		strcpy(wd, s->path); wdn = strlen(wd); xadd(wd, 1, s->a); return 0;
	}
	if (s->has_path && !(s->call == S_STAT && wdn == 0)) vf_assert(wdn && strncmp(s->path, wd, wdn) == 0 && (s->path[wdn] == 0 || s->path[wdn] == '/'), "the system is asked only for names below the private directory");
	if (s->has_path) {
		if (xnorm(s->path, np)) { errno = ENOENT; return s->call == S_OPENDIR ? 0 : -1; }
		sp = np;
		if (wdn) vf_assert(strncmp(sp, wd, wdn) == 0 && (sp[wdn] == 0 || sp[wdn] == '/'), "nothing outside the private directory is reached by dot-dot");
	}
	i = s->has_path ? xfind(sp) : -1;
	switch (s->call) {
	case S_STAT: case S_LSTAT:
		if (i < 0) { errno = ENOENT; return -1; }
		{ struct stat *b = (struct stat *)s->p; memset(b, 0, sizeof *b); b->st_mode = X[i].dir ? S_IFDIR | 0700 : S_IFREG | 0600; b->st_mtime = 7000 + i; } return 0;
	case S_ACCESS: if (i < 0) { errno = ENOENT; return -1; } return 0;
	case S_MKDIR:
		if (i >= 0) { errno = EEXIST; return -1; }
		if (!xparent(sp)) { errno = ENOENT; return -1; }
		xadd(sp, 1, s->a); return 0;
	case S_OPEN:
		if (i < 0 && !(s->a & O_CREAT)) { errno = ENOENT; return -1; }
		if (i < 0) { if (!xparent(sp)) { errno = ENOENT; return -1; } i = xadd(sp, 0, s->b); }
		return 100 + i;
	case S_READLINK: errno = i < 0 ? ENOENT : EINVAL; return -1;
	case S_OPENDIR: if (i < 0 || !X[i].dir) { errno = ENOTDIR; return 0; } return (long)&X[i];
	case S_CHDIR: if (i < 0 || !X[i].dir) { errno = ENOTDIR; return -1; } return 0;
	case S_UNLINK: case S_RMDIR:
		if (i < 0 || X[i].dir != (s->call == S_RMDIR)) { errno = ENOENT; return -1; }
		X[i].used = 0; vf_sys_n--; return 0;
	case S_NFTW: { /* children before their directory */
		struct FTW f; int k, r;
		vf_assert(strcmp(s->path, wd) == 0 && (s->b & FTW_DEPTH) && (s->b & FTW_PHYS), "the private directory is removed from its leaves");
		memset(&f, 0, sizeof f);
		for (k = nx - 1; k >= 0; k--) if (X[k].used) { r = ((int (*)(const char *, const struct stat *, int, struct FTW *))s->q)(X[k].n, 0, X[k].dir ? FTW_DP : FTW_F, &f); if (r) return r; }
		return 0; }
	}
	vf_fail_("unexpected system call"); return 0;
}
/* names of the image's part, and what was made */
#define NW 13
static const char *W[NW] = { "/n", "/d/n", "/n/m", "/d/n/m", "/d", "/g", "/zz/q", "/d/f", "/d/w/n", "/d/w/n/m", "/d/w", "/../x", "/d/../q" };
static int made[NW], isdir[NW]; /* made at that step */
static const int par_[NW] = { -1, 4, 0, 1, -1, -1, 6, 4, 10, 8, 4, 6, 4 };
static int in_image(int w) { return w == 4 || w == 5 || w == 7 || w == 10; }
static int parent_ok(int w) { if (w == 0 || w == 4 || w == 5 || w == 1 || w == 7 || w == 8 || w == 10 || w == 12) return 1; if (w == 6 || w == 11) return 0; return made[par_[w]] && isdir[par_[w]]; }
static char p1[80]; static int incwd;
static const char *spell(int w) { /* absolute, relative, or with a trailing slash */
	if (incwd && strncmp(W[w], "/d/", 3) == 0) { strcpy(p1, W[w] + 3); return p1; }
	strcpy(p1, PRE); strcat(p1, W[w]); return p1;
}
/* after the second operation: only names in the image's directory (quick) */
static int few, firstw;
static void op_mkdir(void) {
	int w = firstw >= 0 ? firstw : few ? 1 + 2 * (int)vf_pick(0, 1) : (int)vf_pick(0, NW - 1), r, e; char t[80]; const char *p = spell(w);
	strcpy(t, p); if (!few && vf_pick(0, 1)) strcat(t, "/");
	strcpy(p1, t);
	errno = 0; r = enclose_io_mkdir(t, 0750); e = errno;
	vf_assert(strcmp(t, p1) == 0, "the caller's name is not changed");
	if (in_image(w) || made[w]) { vf_assert(r == -1 && e == EEXIST, "a directory cannot be made where something is"); vf_reach("exists"); }
	else if (parent_ok(w)) { vf_assert(r == 0, "a directory can be made in a directory"); made[w] = 1; isdir[w] = 1; if (w == 12) vf_reach("made by dot-dot"); vf_reach(w > 1 ? "made below made" : "made"); if (w >= 8) vf_reach("made deep"); }
	else { if (w == 11) vf_reach("climbs"); vf_assert(r == -1 && e, "a directory cannot be made below nothing"); vf_reach("no parent"); }
}
static void op_create(void) {
	int w = few ? 1 + 2 * (int)vf_pick(0, 1) : (int)vf_pick(0, 5), fd; static char t[80];
	if (w > 3) w += 4;
	if (!parent_ok(w) || made[w]) vf_stop();
	strcpy(t, spell(w)); strcpy(p1, t);
	fd = enclose_io_open(3, t, O_CREAT | O_RDWR, 0640);
	vf_assert(fd >= 100 && fd < 100 + nx && X[fd - 100].used && !X[fd - 100].dir, "a file can be made in a directory");
	vf_assert((X[fd - 100].mode & 0777) == 0640, "with the mode it was asked for");
	vf_assert(strcmp(t, p1) == 0, "the caller's name is not changed");
	made[w] = 1; isdir[w] = 0; vf_reach("file made");
}
static void op_chdir(void) {
	int w = (int)vf_pick(0, 1) ? 4 : 1, r;
	if (incwd) vf_stop();
	r = enclose_io_chdir(w == 4 ? PRE "/d" : PRE "/d/n");
	if (w == 4) { vf_assert(r == 0, "changing into a directory of the image"); incwd = 1; }
	else { vf_assert((r == 0) == (made[1] && isdir[1]), "changing into a directory that was made"); if (r == 0) { char c[80]; vf_assert(enclose_io_getcwd(c, 80) && strcmp(c, PRE "/d/n") == 0, "it is reported"); vf_assert(enclose_io_chdir(PRE "/d") == 0, "back"); incwd = 1; vf_reach("changed into made"); } }
}
static int xfind_(int w) { char b[100], o[100]; strcpy(b, wd); strcat(b, W[w]); return xnorm(b, o) ? -1 : xfind(o); }
static void check(void) { /* everything made is found, nothing else, the image is as before */
	int w; struct stat sb; int r;
	for (w = 0; w < NW; w++) {
		const char *p = spell(w);
		errno = 0; r = enclose_io_stat(p, &sb);
		vf_assert((r == 0) == (in_image(w) || made[w]), "what was made, and only that, is found");
		if (r == 0) vf_assert(!!S_ISDIR(sb.st_mode) == (made[w] ? isdir[w] : w == 4 || w == 10), "it is what it was made as");
		else vf_assert(errno == ENOENT, "what was not made is missing");
		r = enclose_io_lstat(p, &sb); vf_assert((r == 0) == (in_image(w) || made[w]), "lstat finds the same");
		r = enclose_io_access(p, 0); vf_assert((r == 0) == (in_image(w) || made[w]), "access finds the same");
		if (made[w]) {
			if (isdir[w]) { DIR *d = enclose_io_opendir(p); vf_assert(d == (DIR *)&X[xfind_(w)], "a directory that was made opens"); }
			else { int fd = enclose_io_open(2, p, O_RDONLY); vf_assert(fd >= 100 && fd - 100 == xfind_(w), "a file that was made opens"); vf_reach("opened again"); }
		}
		vf_sys_n = 0;
	}
	{ char c[8]; vf_assert(enclose_io_readlink(incwd ? "l" : PRE "/d/l", c, 8) == 4 && memcmp(c, "../g", 4) == 0, "the links of the image are as before");
	  if (made[0]) { errno = 0; vf_assert(enclose_io_readlink(PRE "/n", c, 8) == -1 && errno == EINVAL, "readlink reaches what was made"); vf_reach("readlink made"); } }
	{ int fd = enclose_io_open(2, PRE "/d/f", 0); char c[4]; vf_assert(fd >= 0 && fd < 64 && enclose_io_read(fd, c, 4) == 3 && memcmp(c, "FFF", 3) == 0 && enclose_io_close(fd) == 0, "the files of the image are as before"); }
	{ int fd = enclose_io_open(2, PRE "/g", 0); char c[4]; vf_assert(fd >= 0 && fd < 64 && enclose_io_read(fd, c, 4) == 4 && memcmp(c, "GGGG", 4) == 0 && enclose_io_close(fd) == 0, "the files of the image are as before"); }
	vf_sys_n = 0;
}
void harness(void) {
	int k, n = (int)vf_split(K, 1) + 1, i, live; uint32_t what = vf_split(2, 0), first = vf_split(3, 2);
	encl_start();
	i = vf_split(2, 3); if (i && n > 1) vf_stop();
	vf_env_tmpdir = i ? "/tmp/" : "/tmp";
	vf_sys_answer = answer;
	firstw = vf_split(NW, 4); if (firstw && (what == 1 || first != 0)) vf_stop();
	if (what == 1 && n > 1) vf_stop();
	if (what == 1) { /* the private directory cannot be made at first */
		{ struct stat sb; enclose_io_stat(PRE "/n", &sb); } /* the blocks it reads stay cached */
		live = vf_live;
		fail_mkdir = first == 0; vf_atexit_fail = first == 1;
		if (first == 2) { vf_oom_mask = (uint64_t)1 << vf_pick(0, 5); vf_oom_on = 1; }
		errno = 0; i = enclose_io_mkdir(PRE "/n", 0700);
		vf_oom_on = 0; vf_oom_mask = 0;
		if (i == -1) { vf_assert(errno != 0 && mkdir_workdir == 0 || first == 2, "a failure is reported"); vf_assert(vf_live == live || first == 2 && mkdir_workdir, "and leaves nothing"); vf_reach("cannot be made"); for (i = 0; i < nx && !mkdir_workdir; i++) vf_assert(!X[i].used, "no directory is left"); if (!mkdir_workdir) wdn = 0; }
		else { made[0] = isdir[0] = 1; }
		vf_assert(vf_locks_held == 0, "no lock is held");
		fail_mkdir = 0; vf_atexit_fail = 0; vf_sys_n = 0;
	}
	for (k = 0; k < n; k++) {
#ifndef VF_THOROUGH
		few = k == 2 || what == 1;
#endif
		uint32_t o = k == 0 && what == 0 ? first : (uint32_t)vf_pick(0, 2);
		vf_sys_n = 0;
		if (k || what == 1 || first != 0) firstw = -1;
		if (o == 0) op_mkdir(); else if (o == 1) op_create(); else op_chdir();
		vf_sys_n = 0;
	}
	check();
	vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "nothing stays open or locked");
	vf_sys_n = 0;
	for (i = vf_atexit_n - 1; i >= 0; i--) { vf_atexit_fn[i](); }
	for (i = 0; i < nx; i++) vf_assert(!X[i].used, "everything is removed in the end");
	vf_end();
}
