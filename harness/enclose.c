/* P27: calls on the image's names and handles are answered by the library, all others by the
 * system, unchanged. */
#include "encl.h"
#include "env_file.h"
#ifdef VF_THOROUGH
#define FREE 4
#else
#define FREE 3
#endif
static char path[4200], full[8400];
static const char *cwds[3] = { "", PRE "/", PRE "/d/" };
static struct stat b1, b2;
static int same_stat(void) { return b1.st_mode == b2.st_mode && b1.st_size == b2.st_size && b1.st_mtime == b2.st_mtime && b1.st_nlink == b2.st_nlink; }
static void quiet(void) { vf_assert(vf_sys_n == 0, "a call on the image does not reach the system"); }
static struct vf_sys *one(int call) {
	vf_assert(vf_sys_n == 1 && vf_sys[0].call == call, "a call outside the image reaches the system once, as it is");
	return &vf_sys[0];
}
static struct vf_sys *onep(int call) { struct vf_sys *s = one(call); vf_assert(s->orig == path || strcmp(s->orig, path) == 0, "the system gets the path it was given"); return s; }
static int sel_(const struct SQUASH_DIRENT *e) { (void)e; return 1; }
static int cmp_(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp((*a)->d_name, (*b)->d_name); }
enum { C_STAT, C_LSTAT, C_READLINK, C_OPENDIR, C_SCANDIR, C_ACCESS, C_OPEN2, C_OPEN3, C_OPENAT3, C_OPENAT4, C_IF, C_EXTRACT, C_DLOPEN, C_CHDIR, C_MKDIR, C_EXECV, NC };
static char *av[4] = { (char *)"zero", (char *)"one", (char *)"two", 0 };
static int exec_seen;
static long exec_answer(struct vf_sys *s) {
	if (s->call == S_READLINK && strcmp(s->orig, "/proc/self/exe") == 0) { memcpy((char *)s->p, "/self", 5); return 5; }
	if (s->call == S_EXECV) {
		char *const *v = s->p;
		exec_seen++;
		vf_assert(strcmp(s->orig, "/self") == 0, "executing a file of the image executes the program itself");
		vf_assert(v[0] == av[0] && strcmp(v[1], full) == 0 && v[2] == av[1] && v[3] == av[2] && v[4] == 0, "and hands it the file and the arguments");
		errno = EACCES; return -1;
	}
	vf_assert(s->call == S_SETENV, "nothing else happens");
	return 0;
}
static long fresh_answer(struct vf_sys *s) { if (s->call == S_STAT) { errno = ENOENT; return -1; } return vf_sys_ret; }
static void path_call(uint32_t call, int inside) {
	int r, r2, e1, mode, fd, fd2; char t1[8], t2[8];
	errno = 0;
	switch (call) {
	case C_STAT: case C_LSTAT:
		memset(&b1, 0, sizeof b1); memset(&b2, 0, sizeof b2);
		r = call == C_STAT ? enclose_io_stat(path, &b1) : enclose_io_lstat(path, &b1); e1 = errno;
		if (inside) {
			quiet(); errno = 0;
			r2 = call == C_STAT ? squash_stat(&FS, full, &b2) : squash_lstat(&FS, full, &b2);
			vf_assert(r == r2 && (r == 0 || e1 == errno) && same_stat(), "stat of a name of the image tells what the library tells");
			if (r == 0) vf_reach("stat inside");
		} else { struct vf_sys *s = onep(call == C_STAT ? S_STAT : S_LSTAT); vf_assert(s->p == &b1 && r == (int)vf_sys_ret, "stat outside"); vf_reach("stat outside"); }
		break;
	case C_READLINK:
		memset(t1, 9, 8); memset(t2, 9, 8);
		r = (int)enclose_io_readlink(path, t1, 7); e1 = errno;
		if (inside) { quiet(); errno = 0; r2 = (int)squash_readlink(&FS, full, t2, 7); vf_assert(r == r2 && (r >= 0 || e1 == errno) && memcmp(t1, t2, 8) == 0, "readlink of a name of the image"); if (r >= 0) vf_reach("readlink inside"); }
		else { struct vf_sys *s = onep(S_READLINK); vf_assert(s->p == t1 && s->a == 7 && r == (int)vf_sys_ret, "readlink outside"); }
		break;
	case C_OPENDIR: {
		DIR *d = enclose_io_opendir(path); e1 = errno;
		if (inside) {
			SQUASH_DIR *d2; quiet(); errno = 0; d2 = squash_opendir(&FS, full);
			vf_assert(!d == !d2 && (d || e1 == errno), "opendir of a name of the image");
			if (d) {
				struct SQUASH_DIRENT *x = enclose_io_readdir(d), *y = squash_readdir(d2);
				vf_assert(!x == !y && (!x || (strcmp(x->d_name, y->d_name) == 0 && x->d_ino == y->d_ino)), "the stream reads the library's directory");
				vf_assert(enclose_io_closedir(d) == 0 && squash_closedir(d2) == 0, "close"); quiet();
				vf_reach("opendir inside");
			}
		} else { onep(S_OPENDIR); vf_assert((long)d == vf_sys_ret, "opendir outside"); }
		break; }
	case C_SCANDIR: {
		struct SQUASH_DIRENT **l = 0, **m = 0;
		r = enclose_io_scandir(path, &l, sel_, cmp_); e1 = errno;
		if (inside) {
			int i; quiet(); errno = 0; r2 = squash_scandir(&FS, full, &m, sel_, cmp_);
			vf_assert(r == r2 && (r >= 0 || e1 == errno), "scandir of a name of the image");
			if (r >= 0) { for (i = 0; i < r; i++) { vf_assert(strcmp(l[i]->d_name, m[i]->d_name) == 0, "scandir gives the library's entries"); vf_r_free(l[i]); vf_r_free(m[i]); } vf_r_free(l); vf_r_free(m); if (r == 3) vf_reach("scandir inside"); }
		} else { struct vf_sys *s = onep(S_SCANDIR); vf_assert(s->p == &l && s->q == (void *)sel_ && s->r == (void *)cmp_ && r == (int)vf_sys_ret, "scandir outside"); }
		break; }
	case C_ACCESS:
		mode = vf_u32();
		r = enclose_io_access(path, inside ? 0 : mode); e1 = errno;
		if (inside) { quiet(); errno = 0; r2 = squash_stat(&FS, full, &b2); vf_assert(r == r2 && (r == 0 || e1 == errno), "existence of a name of the image"); }
		else { struct vf_sys *s = onep(S_ACCESS); vf_assert((int)s->a == mode && r == (int)vf_sys_ret, "access outside"); }
		break;
	case C_OPEN2: case C_OPEN3: case C_OPENAT3: case C_OPENAT4: {
		int fl = vf_u32(), at = call >= C_OPENAT3, m4 = call == C_OPEN3 || call == C_OPENAT4, dfd = AT_FDCWD, through = inside;
		mode = vf_u32();
		if (!m4 || inside) vf_assume(!(fl & O_CREAT));
		if (at) { if (vf_pick(0, 1)) { dfd = (int)vf_u32(); vf_assume(dfd != AT_FDCWD); if (path[0] != '/') through = 0; } }
		vf_assume(through || !(fl & O_CREAT) || m4);
		fd = call == C_OPEN2 ? enclose_io_open(2, path, fl) : call == C_OPEN3 ? enclose_io_open(3, path, fl, mode) : call == C_OPENAT3 ? enclose_io_openat(3, dfd, path, fl) : enclose_io_openat(4, dfd, path, fl, mode);
		e1 = errno;
		if (through) {
			quiet(); errno = 0; fd2 = squash_open(&FS, full);
			vf_assert((fd >= 0) == (fd2 >= 0) && (fd >= 0 || e1 == errno), "open of a name of the image");
			if (fd >= 0) { vf_assert(squash_fstat(fd, &b1) == 0 && squash_fstat(fd2, &b2) == 0 && same_stat(), "open names the object of the image"); vf_assert(enclose_io_close(fd) == 0 && squash_close(fd2) == 0, "close"); quiet(); vf_reach(at ? "openat inside" : "open inside"); }
		} else {
			struct vf_sys *s = onep(at ? S_OPENAT : S_OPEN);
			vf_assert((int)s->a == fl && (!at || s->fd == dfd) && (!(fl & O_CREAT) || (int)s->b == mode) && fd == (int)vf_sys_ret, "open outside");
			if (fl & O_CREAT) vf_reach("create outside");
		}
		break; }
	case C_IF: vf_assert(!!enclose_io_if(path) == inside, "the test for enclosed names"); quiet(); break;
	case C_EXTRACT: case C_DLOPEN: {
		const char *x = 0; void *h = 0; mode = (int)vf_u32(); vf_sys_answer = fresh_answer;
		if (call == C_EXTRACT) { x = enclose_io_ifextract(path, 0); if (!inside) { vf_assert(x == path, "a name outside is extracted to itself"); quiet(); break; } }
		else { h = enclose_io_dlopen(path, mode); if (!inside) { struct vf_sys *s = onep(S_DLOPEN); vf_assert((int)s->a == mode && (long)h == vf_sys_ret, "dlopen outside"); break; } }
		{ /* the temporary name is looked for with stat; only a successful extraction is loaded */
			int i, n = 0; const char *y = 0;
			for (i = 0; i < vf_sys_n; i++) if (vf_sys[i].call == S_DLOPEN) { n++; y = vf_sys[i].path; vf_assert((int)vf_sys[i].a == mode, "dlopen gets its mode"); } else vf_assert(vf_sys[i].call == S_STAT && !ref_inside(vf_sys[i].path), "only the temporary name is looked for");
			vf_assert(n == (call == C_DLOPEN && y != 0), "dlopen loads once");
			r2 = squash_stat(&FS, full, &b2);
			if (r2 == 0 && S_ISREG(b2.st_mode)) {
				struct vf_file *f;
				if (call == C_EXTRACT) y = x;
				vf_assert(y && (f = vf_file_find(y)) && f->len == (size_t)b2.st_size, "a file of the image is extracted");
				if (call == C_DLOPEN) vf_assert((long)h == vf_sys_ret, "dlopen gives the system's handle");
				vf_assert(squash_extract(&FS, full, 0) && strcmp(squash_extract(&FS, full, 0), y) == 0, "the extraction is the library's");
				vf_reach(call == C_EXTRACT ? "extract inside" : "dlopen inside");
			} else vf_assert(!x && !y && !h, "what is no file cannot be extracted or loaded");
		}
		break; }
	case C_CHDIR:
		r = enclose_io_chdir(path);
		if (!inside) { onep(S_CHDIR); vf_assert(r == (int)vf_sys_ret, "chdir outside"); } else quiet();
		break;
	case C_MKDIR: mode = (int)vf_u32(); vf_assume(!inside); r = enclose_io_mkdir(path, mode); { struct vf_sys *s = onep(S_MKDIR); vf_assert((mode_t)s->a == (mode_t)mode && r == (int)vf_sys_ret, "mkdir outside"); } break;
	case C_EXECV:
		if (inside) { vf_sys_answer = exec_answer; r = enclose_io_execv(path, av); vf_assert(exec_seen == 1 && r == -1, "executing a name of the image"); vf_reach("execv inside"); }
		else { struct vf_sys *s; r = enclose_io_execv(path, av); s = onep(S_EXECV); vf_assert(s->p == av && r == (int)vf_sys_ret, "execv outside"); }
		break;
	}
}
static void toolong(uint32_t call) { /* refused, never cut */
	struct SQUASH_DIRENT **l; char t[8]; long r = 0;
	errno = 0;
	switch (call) {
	case C_STAT: r = enclose_io_stat(path, &b1); break;
	case C_LSTAT: r = enclose_io_lstat(path, &b1); break;
	case C_READLINK: r = enclose_io_readlink(path, t, 8); break;
	case C_OPENDIR: r = (long)enclose_io_opendir(path) - 1; break;
	case C_SCANDIR: r = enclose_io_scandir(path, &l, 0, 0); break;
	case C_ACCESS: r = enclose_io_access(path, 0); break;
	case C_OPEN2: r = enclose_io_open(2, path, 0); break;
	case C_OPEN3: r = enclose_io_open(3, path, O_CREAT | O_RDWR, 0600); break;
	case C_OPENAT3: r = enclose_io_openat(3, AT_FDCWD, path, 0); break;
	case C_OPENAT4: r = enclose_io_openat(4, AT_FDCWD, path, O_CREAT, 0600); break;
	case C_EXTRACT: r = (long)enclose_io_ifextract(path, 0) - 1; break;
	case C_DLOPEN: r = (long)enclose_io_dlopen(path, 1) - 1; break;
	case C_CHDIR: r = enclose_io_chdir(path); break;
	case C_MKDIR: r = enclose_io_mkdir(path, 0700); break;
	case C_EXECV: r = enclose_io_execv(path, av); break;
	}
	vf_assert(r == -1 && errno == ENAMETOOLONG, "a relative name that is too long is refused");
	quiet();
}
static void paths(void) {
	uint32_t call = vf_split(NC, 1), fam = vf_split(4, 2), cw = vf_split(3, 3), n, i; int inside;
	static const char *tails[4] = { "/g", "/d/f", "", "x/g" };
	encl_start();
	strcpy(enclose_io_cwd, cwds[cw]);
	vf_sys_ret = (int)vf_u32();
	if (fam == 0) { n = (uint32_t)vf_pick(1, FREE); for (i = 0; i < n; i++) { path[i] = vf_u8(); vf_assume(path[i] != 0); } }
	else if (fam == 1) { /* the reserved prefix, one byte of it arbitrary, perhaps cut there */
		strcpy(path, PRE); strcat(path, tails[vf_pick(0, 3)]);
		n = (uint32_t)vf_pick(0, PREN); if (n || 1) path[n] = vf_u8();
		vf_assume(path[0] != 0);
	} else if (fam == 2) { strcpy(path, PRE); n = (uint32_t)vf_pick(1, FREE); for (i = 0; i < n; i++) { path[PREN + i] = vf_u8(); vf_assume(path[PREN + i] != 0); } }
	else { /* very long names of the file g: dots and slashes up to the limit of the library and beyond */
		static const uint16_t lens[10] = { 1990, 2022, 2024, 2025, 2026, 2027, 2030, 2047, 2049, 4100 };
		static const char *names[2] = { "g", "d" };
		n = lens[vf_pick(0, 9)];
		for (i = 0; i + 2 <= n; i += 2) { path[i] = '.'; path[i + 1] = '/'; }
		if (n & 1) { path[i] = '/'; i++; }
		if (cw == 0 || vf_pick(0, 1)) { memcpy(path, PRE, PREN); path[PREN] = '/'; }
		strcpy(path + i, names[call == C_OPENDIR || call == C_SCANDIR || call == C_CHDIR]);
		if (cw == 2 && path[0] != '/') memcpy(path, "../", 3);
	}
	inside = cw && path[0] != '/' ? 1 : ref_inside(path);
	full[0] = 0;
	if (inside) { if (path[0] != '/') strcpy(full, cwds[cw]); strcat(full, path); }
	if (inside && path[0] != '/' && strlen(full) > 2048 && call != C_IF) { toolong(call); vf_reach("too long"); }
	else path_call(call, inside);
	if (fam == 3 && inside && strlen(full) <= 2048) vf_reach("long");
	vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "nothing stays open or locked");
	vf_end();
}
enum { F_FSTAT, F_CLOSE, F_READ, F_LSEEK, F_FDOPENDIR, F_PREAD, F_READV, NF };
static void fds(void) {
	uint32_t call = vf_split(NF, 1), which = vf_split(3, 2), i; int fd, ff, fd_, t, r, r2, e1; char c1[8], c2[8];
	off_t o = (off_t)vf_u64(); uint64_t len = vf_in(0, 9); int wh = (int)vf_u32(); struct iovec v[1];
	encl_start();
	vf_sys_ret = (long)vf_u64();
	ff = enclose_io_open(2, PRE "/g", 0); fd_ = enclose_io_open(2, PRE "/d", 0);
	t = squash_open(&FS, which == 0 ? PRE "/g" : PRE "/d");
	vf_assert(ff >= 0 && fd_ >= 0 && t >= 0 && vf_sys_n == 0, "open");
	if (which == 2) { fd = (int)vf_u32(); vf_assume(fd != ff && fd != fd_ && fd != t); } else fd = which == 0 ? ff : fd_;
	if (which == 0) { int64_t p = (int64_t)vf_in(0, 8); squash_lseek(ff, p, 0); squash_lseek(t, p, 0); }
	memset(c1, 5, 8); memset(c2, 5, 8); memset(&b1, 0, sizeof b1); memset(&b2, 0, sizeof b2);
	errno = 0;
	switch (call) {
	case F_FSTAT:
		r = enclose_io_fstat(fd, &b1);
		if (which == 2) { struct vf_sys *s = one(S_FSTAT); vf_assert(s->fd == fd && s->p == &b1 && r == (int)vf_sys_ret, "fstat of another descriptor"); }
		else { quiet(); r2 = squash_fstat(t, &b2); vf_assert(r == r2 && same_stat(), "fstat of the image's descriptor"); vf_reach("fstat inside"); }
		break;
	case F_READ: {
		ssize_t n = enclose_io_read(fd, c1, which == 2 ? (size_t)o : len & 7); e1 = errno;
		if (which == 2) { struct vf_sys *s = one(S_READ); vf_assert(s->fd == fd && s->p == c1 && s->a == o && n == vf_sys_ret, "read of another descriptor"); vf_reach("read outside"); }
		else { ssize_t m; quiet(); errno = 0; m = squash_read(t, c2, len & 7); vf_assert(n == m && (n >= 0 || e1 == errno) && memcmp(c1, c2, 8) == 0 && squash_lseek(fd, 0, SEEK_CUR) == squash_lseek(t, 0, SEEK_CUR), "read of the image's descriptor"); }
		break; }
	case F_LSEEK: {
		off_t n = enclose_io_lseek(fd, o, wh); e1 = errno;
		if (which == 2) { struct vf_sys *s = one(S_LSEEK); vf_assert(s->fd == fd && s->a == o && (int)s->b == wh && n == vf_sys_ret, "seek on another descriptor"); }
		else { off_t m; quiet(); errno = 0; m = squash_lseek(t, o, wh); vf_assert(n == m && (n >= 0 || e1 == errno), "seek on the image's descriptor"); if (n > 0x100000000ll) vf_reach("far"); }
		break; }
	case F_CLOSE:
		r = enclose_io_close(fd);
		if (which == 2) { struct vf_sys *s = one(S_CLOSE); vf_assert(s->fd == fd && r == (int)vf_sys_ret && vf_fds_open == 3, "close of another descriptor"); }
		else { quiet(); vf_assert(r == 0 && vf_fds_open == 2 && squash_fstat(fd, &b1) == -1, "close of the image's descriptor"); }
		break;
	case F_FDOPENDIR: {
		DIR *d = enclose_io_fdopendir(fd);
		if (which == 2) { struct vf_sys *s = one(S_FDOPENDIR); vf_assert(s->fd == fd && (long)d == vf_sys_ret, "fdopendir of another descriptor"); }
		else if (which == 1) {
			struct SQUASH_DIRENT *x; quiet(); vf_assert(d != 0, "a directory of the image opens by its descriptor");
			x = enclose_io_readdir(d); vf_assert(x && strcmp(x->d_name, "f") == 0, "its first entry");
			vf_assert(enclose_io_dirfd(d) == fd && enclose_io_telldir(d) == 1, "its descriptor and position");
			vf_assert(enclose_io_closedir(d) == 0 && !vf_fd_state[fd], "closing the stream closes the descriptor"); quiet(); vf_reach("fdopendir inside");
		} else { quiet(); vf_assert(!d && errno == ENOTDIR && squash_fstat(fd, &b1) == 0 && vf_fds_open == 3, "a file of the image is no directory"); }
		break; }
	case F_PREAD: vf_assume(which == 2); { ssize_t n = enclose_io_pread(fd, c1, len, o); struct vf_sys *s = one(S_PREAD); vf_assert(s->fd == fd && s->p == c1 && s->a == (long)len && s->b == o && n == vf_sys_ret, "pread of another descriptor"); } break;
	case F_READV: vf_assume(which == 2); v[0].iov_base = c1; v[0].iov_len = 3; { ssize_t n = enclose_io_readv(fd, v, wh); struct vf_sys *s = one(S_READV); vf_assert(s->fd == fd && s->p == v && (int)s->a == wh && n == vf_sys_ret, "readv of another descriptor"); } break;
	}
	for (i = 0; i < 64; i++) if (vf_fd_state[i]) squash_close(i);
	vf_sys_n = 0;
	img_close_all(&FS);
	vf_end();
}
enum { D_READDIR, D_TELLDIR, D_SEEKDIR, D_REWINDDIR, D_DIRFD, D_CLOSEDIR, ND };
static char other[64]; static int nopen;
static void dirs(void) {
	uint32_t call = vf_split(ND, 1), which = vf_split(2, 2), k, i; long loc = (long)vf_in(0, 4); DIR *d; SQUASH_DIR *t;
	encl_start();
	vf_sys_ret = (long)vf_u64();
	{ /* other descriptors below and above the stream, some closed again */
		uint32_t gone = (uint32_t)vf_pick(0, 7); int f, a = enclose_io_open(2, PRE "/g", 0); DIR *x, *y;
		x = enclose_io_opendir(PRE "/d");
		t = squash_opendir(&FS, PRE); d = enclose_io_opendir(PRE);
		f = enclose_io_open(2, PRE "/g", 0); y = enclose_io_opendir(PRE "/d");
		vf_assert(a >= 0 && f >= 0 && x && y && d && t && vf_sys_n == 0, "opening names of the image");
		vf_assert(enclose_io_closedir(y) == 0 && enclose_io_close(f) == 0, "close");
		if (gone & 1) vf_assert(enclose_io_close(a) == 0, "close");
		if (gone & 2) vf_assert(enclose_io_closedir(x) == 0, "close");
		if (gone & 4) { f = squash_open(&FS, PRE "/g"); vf_assert(f >= 0, "open"); }
		quiet(); f = vf_fds_open; nopen = f;
	}
	if (which) d = (DIR *)other;
	else { k = (uint32_t)vf_pick(0, 4); for (i = 0; i < k; i++) { enclose_io_readdir(d); squash_readdir(t); } quiet(); }
	switch (call) {
	case D_READDIR: { struct SQUASH_DIRENT *x = enclose_io_readdir(d), *y; if (which) { vf_assert(one(S_READDIR)->p == other && (long)x == vf_sys_ret, "readdir of another stream"); } else { quiet(); y = squash_readdir(t); vf_assert(!x == !y && (!x || strcmp(x->d_name, y->d_name) == 0), "readdir of the image's stream"); } break; }
	case D_TELLDIR: { long x = enclose_io_telldir(d); if (which) { vf_assert(one(S_TELLDIR)->p == other && x == vf_sys_ret, "telldir of another stream"); } else { quiet(); vf_assert(x == squash_telldir(t), "telldir of the image's stream"); } break; }
	case D_SEEKDIR: enclose_io_seekdir(d, loc); if (which) { struct vf_sys *s = one(S_SEEKDIR); vf_assert(s->p == other && s->a == loc, "seekdir of another stream"); } else { quiet(); if (loc <= (long)k) { squash_seekdir(t, loc); vf_assert(squash_telldir((SQUASH_DIR *)d) == squash_telldir(t), "seekdir of the image's stream"); } } break;
	case D_REWINDDIR: enclose_io_rewinddir(d); if (which) { vf_assert(one(S_REWINDDIR)->p == other, "rewinddir of another stream"); } else { quiet(); vf_assert(squash_telldir((SQUASH_DIR *)d) == 0, "rewinddir of the image's stream"); } break;
	case D_DIRFD: { int x = enclose_io_dirfd(d); if (which) { vf_assert(one(S_DIRFD)->p == other && x == (int)vf_sys_ret, "dirfd of another stream"); } else { quiet(); vf_assert(x == squash_dirfd((SQUASH_DIR *)d), "dirfd of the image's stream"); vf_reach("dirfd inside"); } break; }
	case D_CLOSEDIR: { int x = enclose_io_closedir(d); if (which) { vf_assert(one(S_CLOSEDIR)->p == other && x == (int)vf_sys_ret && vf_fds_open == nopen, "closedir of another stream"); } else { quiet(); vf_assert(x == 0 && vf_fds_open == nopen - 1, "closedir of the image's stream"); d = 0; } break; }
	}
	vf_end();
}
static void null_dlopen(void) { /* the main program itself */
	uint32_t cw = vf_split(3, 1); void *h;
	encl_start();
	strcpy(enclose_io_cwd, cwds[cw]);
	vf_sys_ret = (long)vf_u64();
	h = enclose_io_dlopen(0, 2);
	{ struct vf_sys *s = one(S_DLOPEN); vf_assert(!s->has_path && s->a == 2 && (long)h == vf_sys_ret, "dlopen without a name"); }
	vf_end();
}
void harness(void) {
	switch (vf_split(4, 0)) { case 0: paths(); break; case 1: fds(); break; case 2: dirs(); break; default: null_dlopen(); }
}
