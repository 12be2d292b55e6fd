/* P32: two threads using one image obtain what each would obtain alone. */
#define IMG_MAX 131072
#define INO_CAP 90000
#define DIR_CAP 30000
#include "img.h"
#include "env_file.h"
void vf_r_free(void *);
#ifdef VF_THOROUGH
#define PRE 3
#elif !defined PRE
#define PRE 2
#endif
#ifdef BIG
/* nine files long enough for a block index, of which eight are kept */
#define NB 2060
static char bigname[10][2];
static uint8_t bigdata[10][8];
static sqfs fs;
static void image(void) {
	uint32_t i, k, o, d, at[10], r;
	img_blocksize = 8;
	for (i = 0; i < 9; i++) {
		memset(bigdata[i], 'A' + i, 8); bigname[i][0] = 'a' + i;
		d = img_alloc(8); memcpy(IMG + d, bigdata[i], 8);
		at[i] = reg_inode(11 + i, d, 0xffffffffu, 0, NB * 8);
		for (k = 0; k + 1 < NB; k++) w32(&INO, 0); /* holes */
		w32(&INO, UNC | 8);
	}
	o = DIRS.n;
	for (i = 0; i < 9; i++) { dir_header(1, at[i], 11 + i); dir_entry(at[i], 0, SQUASHFS_REG_TYPE, bigname[i], 1); }
	r = dir_inode(30, o, DIRS.n - o, 31);
	img_finish(r, 10);
}
enum { O_KEPT, O_NEW, O_OTHER, NOPS };
struct res { int op; long a, b, c; char buf[24]; };
static struct res R[3];
static void big(struct res *r, const char *n) { r->a = squash_open(&fs, n); r->b = squash_lseek(r->a, (NB - 2) * 8 + 4, SQUASH_SEEK_SET); r->b = squash_read(r->a, r->buf, 20); r->c = squash_close(r->a); }
static void work(void *p) { struct res *r = p; big(r, r->op == O_KEPT ? "/a" : r->op == O_NEW ? "/i" : "/b"); }
static void check(struct res *r, int t) {
	char w[12];
	memset(w, 0, 4); memset(w + 4, r->op == O_KEPT ? 'A' : r->op == O_NEW ? 'I' : 'B', 8); (void)t;
	vf_assert(r->a >= 0 && r->b == 12 && memcmp(r->buf, w, 12) == 0 && r->c == 0, "the end of a long file reads as alone");
	if (r->op == O_NEW) vf_reach("new index"); else vf_reach("kept index");
}
void harness(void) {
	uint32_t pair = vf_split(3, 0), warm = vf_split(2, 1), i, steps = 0; int cur, pre = 0, t1, t2;
	static const char *n[8] = { "/a", "/b", "/c", "/d", "/e", "/f", "/g", "/h" };
	static struct res w;
	R[1].op = pair == 2 ? O_NEW : O_KEPT; R[2].op = pair == 1 ? O_OTHER : O_NEW;
	image();
	vf_assert(squash_start() == SQFS_OK && sqfs_open_image(&fs, IMG, 0) == SQFS_OK, "the image opens");
	for (i = 0; warm && i < 8; i++) big(&w, n[i]); /* eight indexes kept */
	if (!warm && pair == 1) vf_stop();
	t1 = vf_thread_new(work, &R[1]); t2 = vf_thread_new(work, &R[2]);
	vf_sched_on = 1;
	cur = vf_split(2, 2) ? t2 : t1;
	for (;;) {
		int other = cur == t1 ? t2 : t1;
		int run1 = !vf_thread_done(cur) && !vf_blocked[cur], run2 = !vf_thread_done(other) && !vf_blocked[other];
		if (!run1 && !run2) { vf_assert(vf_thread_done(cur) && vf_thread_done(other), "no thread waits for ever"); break; }
		if (!run1) cur = other;
		else if (run2 && !pre && (steps < WINDOW || (steps > NB - 10 && steps < NB + WINDOW)) && vf_pick(0, 1)) { pre++; cur = other; vf_reach("preempted"); }
		steps++;
		vf_thread_switch(cur);
	}
	vf_sched_on = 0;
	for (i = 1; i <= 2; i++) check(&R[i], i);
	for (i = 0; i < 9; i++) { static char nm[3] = "/?"; nm[1] = 'a' + i; if (i != 0 && i != 8) continue; big(&w, nm); vf_assert(w.b == 12 && w.buf[4] == 'A' + (int)i && w.c == 0, "and so do the others afterwards"); }
	vf_assert(vf_locks_held == 0 && vf_fds_open == 0, "nothing is held");
	img_close_all(&fs);
	vf_end();
}
#else
/* every directory and file has metadata blocks of its own: two walks need more blocks than are cached */
static sqfs fs;
static void image(void) {
	uint32_t f, e, d, a, l, r, b1, b2, fr, el, dl, rl;
	img_blocksize = 8;
	b1 = put_compressed((const uint8_t *)"AAAABBBB", 8); b2 = put_compressed((const uint8_t *)"CCCCDD", 6);
	fr = put_compressed((const uint8_t *)"xxfffyy", 7);
	img_frag[0].start = fr; img_frag[0].size = 4; img_nfrag = 1;
	f = reg_inode(11, 0, 0, 2, 3);
	pad_to(&INO, MDSZ);
	el = DIRS.n; dir_header(1, f, 11); dir_entry(f, 0, SQUASHFS_REG_TYPE, "f", 1);
	img_mtime = 777; e = dir_inode(12, el, DIRS.n - el, 13);
	pad_to(&INO, 2 * MDSZ); pad_to(&DIRS, MDSZ);
	dl = DIRS.n; dir_header(1, e, 12); dir_entry(e, 0, SQUASHFS_DIR_TYPE, "e", 1);
	img_mtime = 100; d = dir_inode(13, dl, DIRS.n - dl, 16);
	pad_to(&INO, 3 * MDSZ); pad_to(&DIRS, 2 * MDSZ);
	a = reg_inode(14, b1, 0xffffffffu, 0, 14); w32(&INO, 4); w32(&INO, 4); (void)b2;
	l = symlink_inode(15, "d/e/f", 5);
	pad_to(&INO, 4 * MDSZ);
	rl = DIRS.n; dir_header(1, a, 14); dir_entry(a, 0, SQUASHFS_REG_TYPE, "a", 1); dir_header(1, d, 13); dir_entry(d, 0, SQUASHFS_DIR_TYPE, "d", 1); dir_header(1, l, 14); dir_entry(l, 1, SQUASHFS_SYMLINK_TYPE, "l", 1);
	r = dir_inode(16, rl, DIRS.n - rl, 17);
	img_finish(r, 6);
}
enum { O_FRAG, O_BLOCKS, O_STAT, O_LINK, O_LIST, O_NONE, O_EXTRACT, O_FOLLOW, O_TREE, NOPS };
struct res { int op; long a, b, c; char buf[24]; struct stat st; SQUASH_DIR *dir; const char *path; };
static struct res R[3];
static int len(int op) { return op == O_TREE ? 2 : op == O_FOLLOW || op == O_LIST; }
static void work(void *p) {
	struct res *r = p;
	struct SQUASH_DIRENT *de;
	switch (r->op) {
	case O_FRAG: r->a = squash_open(&fs, "/d/e/f"); r->b = squash_read(r->a, r->buf, 8); break;
	case O_BLOCKS: r->a = squash_open(&fs, "/a"); r->b = squash_lseek(r->a, 4, SQUASH_SEEK_SET); r->b += squash_read(r->a, r->buf, 20); r->c = squash_close(r->a); break;
	case O_STAT: r->a = squash_stat(&fs, "/d/e", &r->st); break;
	case O_LINK: r->a = squash_readlink(&fs, "/l", r->buf, 20); break;
	case O_LIST: r->dir = squash_opendir(&fs, "/d"); if (!r->dir) break; de = squash_readdir(r->dir); r->a = de && !strcmp(de->d_name, "e"); r->b = squash_readdir(r->dir) == 0 && squash_find_entry(r->dir) != 0; r->c = squash_closedir(r->dir); break;
	case O_EXTRACT: r->path = squash_extract(&fs, "/a", "so"); break;
	case O_FOLLOW: r->a = squash_stat(&fs, "l", &r->st); r->b = squash_open(&fs, "/d/../l"); r->c = squash_lseek(r->b, 0, SQUASH_SEEK_END); r->c += squash_close(r->b); break;
	case O_TREE: { sqfs_traverse t; sqfs_err e; char *o = r->buf; r->a = sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs)); while (sqfs_traverse_next(&t, &e)) *o++ = t.dir_end ? '<' : t.path[strlen(t.path) - 1]; r->b = e; sqfs_traverse_close(&t);
		{ struct SQUASH_DIRENT **l = 0; int i, n = squash_scandir(&fs, "/", &l, 0, 0); r->c = n; for (i = 0; i < n; i++) { *o++ = l[i]->d_name[0]; vf_r_free(l[i]); } if (n >= 0) vf_r_free(l); } break; }
	case O_NONE: errno = 0; r->a = squash_open(&fs, "/d/x"); r->b = errno; break;
	}
}
static void check(struct res *r, int t) {
	switch (r->op) {
	case O_FRAG: vf_assert(r->a >= 0 && r->b == 3 && memcmp(r->buf, "fff", 3) == 0, "a small file reads as alone"); vf_assert(squash_read(r->a, r->buf, 8) == 0 && squash_close(r->a) == 0, "its descriptor works on and closes"); vf_reach("small file"); break;
	case O_BLOCKS: vf_assert(r->a >= 0 && r->b == 4 + 10 && memcmp(r->buf, "BBBBCCCCDD", 10) == 0 && r->c == 0, "a file of several blocks reads as alone"); vf_reach("blocks"); break;
	case O_STAT: vf_assert(r->a == 0 && S_ISDIR(r->st.st_mode) && r->st.st_mtime == 777, "stat answers as alone"); vf_reach("stat"); break;
	case O_LINK: vf_assert(r->a >= 5 && memcmp(r->buf, "d/e/f", 5) == 0, "a link reads as alone"); vf_reach("link"); break;
	case O_LIST: vf_assert(r->dir && r->a == 1 && r->b == 1 && r->c == 0, "a directory lists as alone"); vf_reach("list"); break;
	case O_EXTRACT: { struct vf_file *x = r->path ? vf_file_find(r->path) : 0; vf_assert(x && x->len == 14 && memcmp(x->data, "AAAABBBBCCCCDD", 14) == 0, "a file is extracted as alone"); vf_reach("extracted"); break; }
	case O_FOLLOW: vf_assert(r->a == 0 && S_ISREG(r->st.st_mode) && r->st.st_size == 3 && r->b >= 0 && r->c == 3, "a link leads where it leads alone"); vf_reach("followed"); break;
	case O_TREE: vf_assert(r->a == SQFS_OK && r->b == SQFS_OK && memcmp(r->buf, "adef<<ladl", 11) == 0 && r->c == 3, "a tree is walked as alone"); vf_reach("tree"); break;
	case O_NONE: vf_assert(r->a == -1 && r->b == ENOENT, "a missing file is missing as alone"); vf_reach("missing"); break;
	}
	(void)t;
}
void harness(void) {
	uint32_t pair = vf_split(NOPS * NOPS, 0), warm = vf_split(3, 1); int cur, pre = 0, t1, t2, i;
	R[1].op = pair / NOPS; R[2].op = pair % NOPS;
	if (R[1].op > R[2].op) vf_stop();
	image();
	vf_assert(squash_start() == SQFS_OK && sqfs_open_image(&fs, IMG, 0) == SQFS_OK, "the image opens");
	if (warm) { static struct res w; w.op = warm == 1 ? O_FRAG : O_BLOCKS; work(&w); if (w.op == O_FRAG) squash_close(w.a); }
	if (warm < 2) for (i = 4; i < 50; i++) vf_fd_state[i] = 1; /* numbers in use elsewhere: the second descriptor is far off */
	t1 = vf_thread_new(work, &R[1]); t2 = vf_thread_new(work, &R[2]);
	vf_sched_on = 1;
	cur = vf_pick(0, 1) ? t2 : t1;
	for (;;) {
		int other = cur == t1 ? t2 : t1;
		int run1 = !vf_thread_done(cur) && !vf_blocked[cur], run2 = !vf_thread_done(other) && !vf_blocked[other];
		if (!run1 && !run2) { vf_assert(vf_thread_done(cur) && vf_thread_done(other), "no thread waits for ever"); break; }
		if (!run1) cur = other;
		else if (run2 && pre < (len(R[1].op) + len(R[2].op) > 1 ? (PRE + 1) / 2 : PRE) && vf_pick(0, 1)) { pre++; cur = other; vf_reach("preempted"); }
		vf_thread_switch(cur);
	}
	vf_sched_on = 0;
	vf_assert(vf_locks_held == 0, "no lock is held");
	if (R[1].op == O_FRAG && R[2].op == O_FRAG) vf_assert(R[1].a != R[2].a, "each thread has a descriptor of its own");
	if (R[1].op == O_EXTRACT && R[2].op == O_EXTRACT) vf_assert(strcmp(R[1].path, R[2].path) == 0 && vf_files_count() == 1, "a file is extracted once");
	for (i = 1; i <= 2; i++) check(&R[i], i);
	vf_assert(vf_fds_open == 0, "all descriptors are closed");
	{ struct res w; memset(&w, 0, sizeof w); w.op = O_FRAG; work(&w); check(&w, 0); }
	vf_assert(vf_streams_open == 0, "no stream stays open");
	sqfs_destroy(&fs);
	for (i = 0; i < vf_atexit_n; i++) vf_atexit_fn[i]();
	vf_assert(vf_live <= (R[1].op == O_EXTRACT || R[2].op == O_EXTRACT), "no memory stays behind (but for the name of the temporary directory)");
	vf_assert(vf_files_count() == 0, "the extracted files are removed");
	vf_end();
}
#endif
