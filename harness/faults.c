/* P21, P22, P23: calls that fail release what they took, hold no lock, report as documented,
 * leave open objects alone, and succeed when made again without the fault. */
#include "tree.h"
extern int vf_close_fail;
void vf_r_free(void *);
#if P == 21
#define A21 vf_assert
#else
#define A21(c, m) ((void)(c))
#endif
#if P == 22
#define A22 vf_assert
#else
#define A22(c, m) ((void)(c))
#endif
#if P == 23
#define A23 vf_assert
#else
#define A23(c, m) ((void)(c))
#endif
static sqfs fs, fs2;
static int fd0, nF, nD, nL, nA, nE; static SQUASH_DIR *d0;
static char big[150];
static struct stat sb; static char buf[200];
#ifdef VF_THOROUGH
#define KBITS (P == 21 ? 4 : 3)
#else
#define KBITS (P == 21 ? 3 : 2)
#endif
/* what a call that must fail sets */
static int failed(int fault, int want) {
	A23(errno != 0, "a failing call sets errno");
	if (!fault && want) A23(errno == want, "a failing call sets the documented errno");
	return 0;
}
static int st(const char *p, int l, int fault, int node, int want) {
	int r = l ? squash_lstat(&fs, p, &sb) : squash_stat(&fs, p, &sb);
	A23(r == 0 || r == -1, "the result is 0 or -1");
	if (node < 0) { A23(r == -1, "a call on a missing object fails"); return failed(fault, want); }
	if (r) return failed(fault, 0);
	vf_assert(sb.st_mtime == 1000 + node, "stat reports the object");
	return 1;
}
static int opn(const char *p, int fault, int node, int want) {
	int n = vf_fds_open, r = squash_open(&fs, p);
	if (node < 0) { A23(r == -1, "opening a missing object fails"); A21(vf_fds_open == n, "a failed open keeps no descriptor"); return failed(fault, want); }
	if (r < 0) { A23(r == -1, "a failed open returns -1"); A21(vf_fds_open == n, "a failed open keeps no descriptor"); return failed(fault, 0); }
	vf_assert(squash_fstat(r, &sb) == 0 && sb.st_mtime == 1000 + node, "the descriptor refers to the object");
	vf_assert(squash_close(r) == 0 && vf_fds_open == n, "close");
	return 1;
}
static int opd(const char *p, int fault, int node, int want) {
	int n = vf_fds_open; SQUASH_DIR *d = squash_opendir(&fs, p);
	if (node < 0) { A23(!d, "opening what is no directory fails"); A21(vf_fds_open == n, "a failed opendir keeps no descriptor"); return failed(fault, want); }
	if (!d) { A21(vf_fds_open == n, "a failed opendir keeps no descriptor"); return failed(fault, 0); }
	vf_assert(squash_fstat(squash_dirfd(d), &sb) == 0 && sb.st_mtime == 1000 + node, "the stream refers to the directory");
	vf_assert(squash_closedir(d) == 0 && vf_fds_open == n, "closedir");
	return 1;
}
static int rdl(const char *p, int fault, const char *t, uint32_t room, int want) {
	ssize_t r = squash_readlink(&fs, p, buf, room);
	if (!t) { A23(r == -1, "readlink of what is no readable link fails"); return failed(fault, want); }
	if (r < 0) { A23(r == -1, "a failed readlink returns -1"); return failed(fault, 0); }
	vf_assert(r == (ssize_t)strlen(t) && memcmp(buf, t, r) == 0, "readlink returns the target");
	return 1;
}
static int rd(int pos, int n, int fault) { /* on a descriptor of its own, opened before the fault */
	ssize_t r; int left = 150 - pos, w = n < left ? n : left;
	vf_assert(squash_lseek(fd0, pos, SQUASH_SEEK_SET) == pos, "lseek");
	r = squash_read(fd0, buf, n);
	if (r < 0) { vf_assert(r == -1 && squash_lseek(fd0, 0, SQUASH_SEEK_CUR) == pos, "a failed read leaves the position"); vf_assert(squash_lseek(fd0, 70, SQUASH_SEEK_SET) == 70, "lseek"); return failed(fault, 0); }
	vf_assert(r == w && memcmp(buf, big + pos, w) == 0, "read returns the bytes");
	vf_assert(squash_lseek(fd0, 70, SQUASH_SEEK_SET) == 70, "lseek");
	return 1;
}
static int scan(const char *p, int fault, int cnt, int want) {
	struct dirent **l; int n = vf_fds_open, i, r = squash_scandir(&fs, p, &l, NULL, NULL);
	A21(vf_fds_open == n, "scandir closes its directory");
	if (cnt < 0) { vf_assert(r == -1, "scandir of what is no directory fails"); return failed(fault, want); }
	if (r < 0) { A23(r == -1, "a failed scandir returns -1"); return failed(fault, 0); }
	vf_assert(r == cnt, "scandir lists the directory");
	for (i = 0; i < r; i++) vf_r_free(l[i]);
	vf_r_free(l);
	return 1;
}
static int walk(int inode, int fault) {
	sqfs_traverse t; sqfs_err e; int n = 0, k; sqfs_inode in;
	memset(&t, 0x5a, sizeof t);
	if (inode) { if (sqfs_inode_get(&fs, &in, ino_ref(N[0].off)) != SQFS_OK) return 0; e = sqfs_traverse_open_inode(&t, &fs, &in); }
	else e = sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs));
	if (e != SQFS_OK) return 0; /* nothing was opened */
	while ((k = sqfs_traverse_next(&t, &e)) == 1) { size_t a = strlen(t.path), b = t.entry.name_size; vf_assert(e == SQFS_OK, "an item comes without an error"); n++; if (!t.dir_end) vf_assert(a >= b && memcmp(t.path + a - b, t.entry.name, b) == 0, "an item comes with its path"); }
	if (e == SQFS_OK) vf_assert(n == 11, "a traversal that ends without error visited everything");
	sqfs_traverse_close(&t);
	return e == SQFS_OK;
}
static int rdir(int fault) { /* from the second entry to the end and back there */
	struct dirent *e; const char *want[2] = { "b", "s" }; int i, ok = 1;
	for (i = 0; i < 2; i++) {
		e = squash_readdir(d0);
		if (!e) { failed(fault, 0); ok = 0; break; }
		vf_assert(e->d_name[0] == want[i][0] && !e->d_name[1], "the stream goes on where it was");
	}
	if (ok) { vf_assert(squash_readdir(d0) == NULL, "then the directory ends"); }
	squash_seekdir(d0, 1);
	return ok;
}
static int closing(int fault) {
	int fd = squash_open(&fs, "/f"), r; SQUASH_DIR *d = squash_opendir(&fs, "/d"); int n = vf_fds_open;
	if (!fault) { A23(fd >= 0 && d, "opening existing objects succeeds"); }
	if (fault && d) { vf_close_fail = 1; errno = 0; r = squash_closedir(d); vf_close_fail = 0; A23(r == -1 && errno && vf_fds_open == n, "a close that fails says so"); vf_assert(squash_readdir(d) || errno, "and the stream is still there"); }
	if (d) vf_assert(squash_closedir(d) == 0, "closedir");
	n = vf_fds_open;
	if (fault && fd >= 0) { vf_close_fail = 1; errno = 0; r = squash_close(fd); vf_close_fail = 0; A23(r == -1 && errno && vf_fds_open == n, "a close that fails says so"); vf_assert(squash_fstat(fd, &sb) == 0, "and the descriptor is still there"); }
	if (fd >= 0) vf_assert(squash_close(fd) == 0, "close");
	return fd >= 0 && d;
}
static int ids(int fault) { sqfs_id_t v = 7; sqfs_err e = sqfs_id_get(&fs, 0, &v); if (e == SQFS_OK) vf_assert(v == img_idval, "the id is the stored one"); return e == SQFS_OK; }
static int deep(int fault) { /* the internal entry points programs use for walking by hand */
	sqfs_inode in; sqfs_dir d; sqfs_dir_entry en; sqfs_name nb; short found = 0; sqfs_err e; int n = 0; size_t sz = sizeof buf;
	if (sqfs_inode_get(&fs, &in, sqfs_inode_root(&fs)) != SQFS_OK) return 0;
	if (sqfs_lookup_path(&fs, &in, "d/b", &found) != SQFS_OK) return 0;
	vf_assert(found && in.base.inode_number == N[nL].num, "the lookup finds the entry");
	if (sqfs_readlink(&fs, &in, buf, &sz) != SQFS_OK) return 0;
	vf_assert(strcmp(buf, "../f") == 0, "the target");
	if (sqfs_inode_get(&fs, &in, ino_ref(N[nD].off)) != SQFS_OK || sqfs_dir_open(&fs, &in, &d, 0) != SQFS_OK) return 0;
	sqfs_dentry_init(&en, nb);
	while (sqfs_dir_next(&fs, &d, &en, &e)) n++;
	if (e != SQFS_OK) return 0;
	vf_assert(n == 3, "the listing is complete");
	return 1;
}
static int dups(uint32_t k) { return (k >= 3 && k <= 7) || k == 12 || k == 13 || k == 17 || k == 20 || k == 21 || k == 27 || k == 30 || k == 31 || k == 38 || k == 40; }
#define NOP 44
static int op(uint32_t k, int fault) { /* 1 success, 0 failure; every call checks its own convention */
	errno = fault ? 0 : vf_stale();
	switch (k) {
	case 0: return st("/f", 0, fault, nF, 0);
	case 1: return st("/d/b", 0, fault, nF, 0);
	case 2: return st("/d/b", 1, fault, nL, 0);
	case 3: return opn("/f", fault, nF, 0);
	case 4: return opn("/d/b", fault, nF, 0);
	case 5: return opn("/d", fault, nD, 0);
	case 6: return opd("/d", fault, nD, 0);
	case 7: return opd("/e/up", fault, nD, 0);
	case 8: return rdl("/d/b", fault, "../f", 20, 0);
	case 9: return rd(10, 20, fault);
	case 10: return rd(60, 90, fault);
	case 11: return rd(130, 30, fault);
	case 12: return scan("/d", fault, 3, 0);
	case 13: return scan("/e", fault, 1, 0);
	case 14: return walk(0, fault);
	case 15: return walk(1, fault);
	case 16: return rdir(fault);
	case 17: return closing(fault);
	case 18: return ids(fault);
	case 19: return deep(fault);
	case 20: return opd("/e", fault, nE, 0);
	case 21: return opn("/e/up/a", fault, nA, 0);
	/* calls that fail without any fault */
	case 22: return st("/no", 0, fault, -1, ENOENT);
	case 23: return st("/d/s", 0, fault, -1, ENOENT);
	case 24: return st("/no", 1, fault, -1, ENOENT);
	case 25: return st("/f/x", 0, fault, -1, 0);
	case 26: return st("/c", 0, fault, -1, ELOOP);
	case 27: return opn("/no", fault, -1, ENOENT);
	case 28: return opn("/d/s", fault, -1, ENOENT);
	case 29: return opn("/c", fault, -1, ELOOP);
	case 30: return opd("/no", fault, -1, ENOENT);
	case 31: return opd("/f", fault, -1, ENOTDIR);
	case 32: return opd("/d/b", fault, -1, ENOTDIR);
	case 33: return opd("/d/s", fault, -1, ENOENT);
	case 34: return rdl("/f", fault, NULL, 20, EINVAL);
	case 35: return rdl("/no", fault, NULL, 20, ENOENT);
	case 36: return rdl("/d/b", fault, NULL, 4, 0);
	case 37: return rdl("/d", fault, NULL, 20, EINVAL);
	case 38: return scan("/f", fault, -1, ENOTDIR);
	case 39: return scan("/no", fault, -1, ENOENT);
	case 40: { int n; if (d0) { vf_assert(squash_closedir(d0) == 0, "closedir"); d0 = NULL; } n = opd("/d", fault, nD, 0); return n; }
	case 41: { ssize_t r = squash_read(squash_dirfd(d0), buf, 4); A23(r == -1, "a directory cannot be read"); return failed(fault, 0); }
	case 42: { ssize_t r = squash_read(fd0, buf, -1); A23(r == -1, "a negative length is refused"); return failed(fault, 0); }
	default: { off_t r = squash_lseek(fd0, -1, SQUASH_SEEK_SET); A23(r == -1, "a negative position is refused"); return failed(fault, EINVAL); }
	}
}
static void unchanged(int fds) { /* what was open before is as it was */
	struct dirent *e;
	A22(vf_locks_held == 0, "no lock is held after the call");
	A21(vf_fds_open == fds, "no descriptor is left behind");
	vf_assert(squash_fstat(fd0, &sb) == 0 && sb.st_mtime == 1000 + nF, "an open descriptor still refers to its file");
	vf_assert(squash_lseek(fd0, 0, SQUASH_SEEK_CUR) == 70, "its position is as it was");
	if (d0) {
		vf_assert(squash_telldir(d0) == 1 && squash_fstat(squash_dirfd(d0), &sb) == 0 && sb.st_mtime == 1000 + nD, "an open stream is as it was");
		e = squash_readdir(d0);
		vf_assert(e && e->d_name[0] == 'b' && !e->d_name[1], "an open stream goes on where it was");
		squash_seekdir(d0, 1);
	}
}
void harness(void) {
	uint32_t k = vf_split(NOP, 0), warm = vf_split(3, 1), i; int fds, r, hit, own, good = k < 22 || k == 40; uint64_t m, m2;
	for (i = 0; i < sizeof big; i++) big[i] = (char)(i * 7 + 1);
	ino_comp = dir_comp = 0xff; img_tab_comp = 3;
	add(-1, T_DIR, "");
	add_link(0, "c", "c", 1);
	nD = add(0, T_DIR, "d"); nA = add(nD, T_FIFO, "a"); nL = add_link(nD, "b", "../f", 4); add_link(nD, "s", "nowhere", 7);
	nE = add(0, T_DIR, "e"); add_link(nE, "up", "/d", 2);
	nF = add_file(0, "f", big, 0);
	add(0, T_FIFO, "name-that-needs-more-room-than-a-path-has-at-first-when-it-is-walked-to"); /* a path grows */
	{ /* f: a compressed block, a raw block, a tail in a compressed fragment */
		node *x = &N[nF]; uint32_t o;
		x->laid = 1; x->dlen = 150; x->nblk = 2; x->bfrag = 0; x->bstart = put_compressed((uint8_t *)big, 64); x->blk[0] = 4;
		o = img_alloc(64); memcpy(IMG + o, big + 64, 64); x->blk[1] = UNC | 64;
		img_frag[0].start = put_compressed((uint8_t *)big + 128, 22); img_frag[0].size = 4; img_nfrag = 1;
	}
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	vf_assert(sqfs_open_image(&fs2, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	own = (k >= 9 && k <= 11) || k == 16 || k >= 40; /* others find cold caches */
	fd0 = squash_open(own ? &fs : &fs2, "/f"); d0 = squash_opendir(own ? &fs : &fs2, "/d");
	vf_assert(fd0 >= 0 && d0 && squash_lseek(fd0, 70, SQUASH_SEEK_SET) == 70 && squash_readdir(d0) != NULL, "existing objects open");
	if (warm == 2) vf_dup_from = 45; /* the descriptor table grows */
	if (warm == 1) { r = op(k, 0); A23(r == good, "a call on an existing object of the right kind succeeds, any other fails"); }
	fds = vf_fds_open;
	m = vf_u64(); m2 = m;
	for (i = 0; i < KBITS; i++) m2 &= m2 - 1;
	vf_assume(m2 == 0); /* up to KBITS failing allocations, anywhere */
	vf_dup_fail = dups(k) ? (int)vf_pick(0, 1) : 0;
	vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0;
	r = op(k, 1);
	vf_oom_on = 0;
	hit = vf_dup_fail || vf_oom_no > 63 || (m & ((1ull << vf_oom_no) - 1)) != 0;
	vf_dup_fail = 0;
	if (!hit) A23(r == good, "a call on an existing object of the right kind succeeds, any other fails");
	if (k == 40 && warm != 1) fds--;
	unchanged(fds);
	if (good && !r) vf_reach("failed by a fault"); else if (good) vf_reach("succeeded"); else vf_reach("failed by itself");
	vf_obs(r);
	r = op(k, 0);
	A21(r == good, "the same call without the fault succeeds");
	unchanged(fds);
	if (d0) vf_assert(squash_closedir(d0) == 0, "closedir");
	vf_assert(squash_close(fd0) == 0, "close");
	A21(vf_fds_open == 0, "every descriptor is closed");
	sqfs_destroy(&fs2);
#if P == 21
	img_close_all(&fs);
#endif
	vf_end();
}
