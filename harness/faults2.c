/* P21, P22, P23 where much is at work: full caches, long block lists, growing traversals. */
#define MAXN 48
#define IMG_MAX 120000
#define INO_CAP 80000
#include "tree.h"
void vf_r_free(void *);
#if P == 21
#define A21 vf_assert
#else
#define A21(c, m) ((void)(c))
#endif
#if P == 22
#define A22 vf_assert
#else
#define A22(c, m) ((void)(c))
#endif
#if P == 23
#define A23 vf_assert
#else
#define A23(c, m) ((void)(c))
#endif
#ifdef VF_THOROUGH
#define KBITS 3
#else
#define KBITS 2
#endif
static sqfs fs;
static int hit(void) { return vf_oom_no > 63 || (vf_oom_mask & ((1ull << vf_oom_no) - 1)) != 0; }
static void arm(void) {
	uint64_t m = vf_u64(), m2 = m; int i;
	for (i = 0; i < KBITS; i++) m2 &= m2 - 1;
	vf_assume(m2 == 0);
	vf_oom_mask = m; vf_oom_no = 0; vf_oom_on = 1;
}
static void quiet(void) { vf_oom_on = 0; A22(vf_locks_held == 0, "no lock is held after the call"); }
/* ---- caches: six files of two blocks and a tail, their inodes far apart */
#define NF 6
static uint8_t dat[NF][150]; static int fno[NF], fd[NF];
static int rd(int x, uint32_t pos, uint32_t n, int fault) {
	uint8_t out[160]; uint32_t w = 150 - pos < n ? 150 - pos : n; ssize_t r; int before = vf_oom_no;
	vf_assert(squash_lseek(fd[x], pos, SQUASH_SEEK_SET) == (off_t)pos, "lseek");
	errno = 0; r = squash_read(fd[x], out, n);
	A22(vf_locks_held == 0, "no lock is held after the call");
	if (r < 0) {
		A23(r == -1 && errno != 0, "a failing read says so"); (void)before;
		vf_assert(squash_lseek(fd[x], 0, SQUASH_SEEK_CUR) == (off_t)pos, "a failed read leaves the position");
		if (!fault) A21(0, "a read without a fault succeeds");
		return 0;
	}
	vf_assert(r == (ssize_t)w && memcmp(out, dat[x] + pos, w) == 0, "what is read is the file's");
	return 1;
}
static int st(int x, int fault) {
	char p[3] = "/a"; struct stat sb; int r; p[1] = 'a' + x;
	errno = 0; r = squash_stat(&fs, p, &sb);
	A22(vf_locks_held == 0, "no lock is held after the call");
	if (r) { A23(r == -1 && errno != 0, "a failing stat says so"); if (!fault) A21(0, "a stat without a fault succeeds"); return 0; }
	vf_assert(sb.st_mtime == 1000 + fno[x], "stat tells the file");
	return 1;
}
static int acc(uint32_t op, int fault) {
	switch (op % 4) {
	case 0: return rd(op / 4 % NF, 3, 20, fault);
	case 1: return rd((op / 4 + 2) % NF, 60, 70, fault);
	case 2: return rd((op / 4 + 1) % NF, 130, 30, fault);
	default: return st((op / 4 + 3) % NF, fault);
	}
}
static char nam[NF][2];
static void caches(void) {
	uint32_t full = vf_split(2, 1), o1 = vf_split(12, 2), o2, x, i, o; int l0, all = 1;
	ino_comp = 0x3f; dir_comp = 1; img_tab_comp = 3;
	add(-1, T_DIR, "");
	for (x = 0; x < NF; x++) {
		node *y; uint32_t k;
		for (i = 0; i < 150; i++) dat[x][i] = (uint8_t)(x * 37 + i * 5 + 1);
		nam[x][0] = 'a' + x; fno[x] = add_file(0, nam[x], (char *)dat[x], 0); y = &N[fno[x]];
		y->laid = 1; y->dlen = 150; y->nblk = 2; y->bfrag = x; y->bstart = put_compressed(dat[x], 64);
		put_compressed(dat[x] + 64, 64); y->blk[0] = y->blk[1] = 4;
		img_frag[x].start = put_compressed(dat[x] + 128, 22); img_frag[x].size = 4; img_nfrag = x + 1; (void)k;
	}
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	for (x = 0; x < NF; x++) { char p[3] = "/a"; p[1] = 'a' + x; fd[x] = squash_open(&fs, p); vf_assert(fd[x] >= 0, "open"); }
	if (full) for (x = 0; x < NF; x++) { acc(4 * x, 0); acc(4 * x + 2, 0); }
	o2 = (uint32_t)vf_pick(0, 3);
	arm();
	l0 = vf_fds_open;
	all &= acc(o1, 1); all &= acc(o1 + 5 * o2 + 4, 1); all &= acc(o1, 1);
	o = hit(); quiet();
	if (!o) A23(all, "calls without faults succeed");
	A21(vf_fds_open == l0, "no descriptor is left");
	vf_reach(all ? "all fine" : "some failed");
	for (i = 0; i < 4; i++) acc(o1 + i * 5, 0); /* everything works again */
	acc(o1, 0);
	for (x = 0; x < NF; x++) vf_assert(squash_close(fd[x]) == 0, "close");
}
/* ---- a file whose block list is indexed */
#define NB 2100
static void indexed(void) {
	uint32_t warm = vf_split(3, 1), where = vf_split(3, 2), i, o, root, n; int f, r; uint8_t out[8]; char p[3] = "/a";
	static const uint32_t at[3] = { 3, 2070, 2098 };
	/* nine files: one more than indexes are kept */
	img_blocksize = 8; ino_comp = 0;
	for (n = 0; n < 9; n++) {
		uint32_t start = img_alloc(8), off; for (i = 0; i < 8; i++) IMG[start + i] = (uint8_t)(n * 16 + i + 1);
		off = reg_inode(10 + n, start, 0xffffffffu, 0, NB * 8);
		for (i = 0; i < NB; i++) w32(&INO, i == at[where] ? UNC | 8 : 0);
		dir_header(1, off, 10 + n); p[1] = 'a' + n; dir_entry(off, 0, SQUASHFS_REG_TYPE, p + 1, 1);
		if (n == 0 && warm < 2) { n++; break; } /* one file is enough */
	}
	root = dir_inode(1, 0, DIRS.n, 9);
	img_finish(root, n + 1);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	if (warm == 2) for (i = 1; i < 9; i++) { p[1] = 'a' + i; f = squash_open(&fs, p); vf_assert(squash_lseek(f, 2070 * 8, SQUASH_SEEK_SET) && squash_read(f, out, 8) == 8 && squash_close(f) == 0, "read"); }
	p[1] = 'a';
	f = squash_open(&fs, p); vf_assert(f >= 0, "open");
	if (warm == 1) { vf_assert(squash_lseek(f, 2070 * 8, SQUASH_SEEK_SET) == 2070 * 8 && squash_read(f, out, 8) == 8, "read"); }
	for (o = 0; o < 2; o++) {
		if (o == 0) arm();
		vf_assert(squash_lseek(f, at[where] * 8 + 2, SQUASH_SEEK_SET) == (off_t)(at[where] * 8 + 2), "lseek");
		memset(out, 9, 8); errno = 0;
		r = (int)squash_read(f, out, 7);
		A22(vf_locks_held == 0, "no lock is held after the call");
		if (r < 0) { A23(errno != 0 && r == -1, "a failing read says so"); A21(o == 0, "the same call without the fault succeeds"); A23(o == 0 && hit(), "without a fault it succeeds"); vf_reach("index fault"); }
		else { vf_assert(r == 7 && out[0] == 3 && out[1] == 4 && out[5] == 8 && out[6] == 0, "what is read is the file's"); vf_reach("index"); }
		quiet();
	}
	vf_assert(squash_close(f) == 0, "close");
}
/* ---- a traversal whose path and stack grow */
static char nm[24][40];
static void walk(void) {
	uint32_t kind = vf_split(3, 1), i, k, n = 0, want, o; sqfs_traverse t; sqfs_err e; int l, rc;
	ino_comp = dir_comp = 0xff;
	add(-1, T_DIR, "");
	want = kind == 0 ? 7 : kind == 1 ? 12 : 3;
	for (i = 1; i <= want; i++) { uint32_t len = kind == 2 ? 39 : kind; for (k = 0; k < len; k++) nm[i][k] = 'a'; nm[i][len] = (char)('b' + i % 3); nm[i][len + 1 > 39 ? 39 : len + 1] = 0; add(kind == 0 && i > 1 ? (int)(i - 1) / 2 : (int)i - 1, i == want ? T_FIFO : T_DIR, nm[i]); }
	if (kind == 0) for (i = 1; i <= want; i++) { nm[i][0] = (char)('a' + i); nm[i][1] = 0; N[i].name = nm[i]; N[i].nlen = 1; }
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	l = vf_live;
	arm();
	memset(&t, 0x77, sizeof t);
	e = sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs));
	if (e == SQFS_OK) {
		while ((rc = sqfs_traverse_next(&t, &e))) { vf_assert(e == SQFS_OK, "an item comes without an error"); n++; }
		o = hit();
		if (e == SQFS_OK) vf_assert(n == 2 * want - 1, "a traversal without an error visits everything");
		else { A23(o, "a traversal without a fault does not fail"); vf_reach("traversal fault"); }
		sqfs_traverse_close(&t);
	} else A23(hit(), "opening without a fault succeeds");
	quiet();
	n = 0;
	vf_assert(sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs)) == SQFS_OK, "a traversal started anew");
	while (sqfs_traverse_next(&t, &e)) n++;
	A21(e == SQFS_OK && n == 2 * want - 1, "visits everything");
	sqfs_traverse_close(&t);
	(void)l;
}
void harness(void) {
	switch (vf_split(3, 0)) { case 0: caches(); break; case 1: indexed(); break; default: walk(); }
	A22(vf_locks_held == 0, "no lock is held");
#if P == 21
	img_close_all(&fs);
#endif
	vf_end();
}
