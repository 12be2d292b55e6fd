/* P09: descriptors are independent, whatever numbers the system hands out; every other number
 * is refused without effect. */
#include "tree.h"
#ifdef VF_THOROUGH
#define K 5
#define P2 1
#else
#ifdef VF_LOCKS
#define K 3
#else
#define K 4
#endif
#define P2 0
#endif
static sqfs fs, fs2;
enum { O_F, O_G, O_DIR, O_D, O_CLOSE, O_READ, O_SEEK, O_FAIL, NOPS };
static struct { int used, op, fd; int64_t pos; SQUASH_DIR *d; } S[8];
static int ns;
static const char F[7] = "abcdefg", G[5] = "ABCDE";
static int nF, nG, nD, set;
static void bogus1(int x) {
	int i, f0 = vf_fds_open; char c[4] = { 1, 2, 3, 4 }; struct stat sb;
	for (i = 0; i < ns; i++) if (S[i].used) vf_assume(x != S[i].fd);
	errno = EINTR; vf_assert(squash_read(x, c, 4) == -1 && errno == EBADF, "reading from a number that is not open gives EBADF");
	errno = EINTR; vf_assert(squash_lseek(x, 1, SQUASH_SEEK_SET) == -1 && errno == EBADF, "seeking on a number that is not open gives EBADF");
	errno = EINTR; vf_assert(squash_fstat(x, &sb) == -1 && errno == EBADF, "fstat on a number that is not open gives EBADF");
	errno = EINTR; vf_assert(squash_close(x) == -1 && errno == EBADF, "closing a number that is not open gives EBADF");
	vf_assert(c[0] == 1 && c[3] == 4 && vf_fds_open == f0 && vf_locks_held == 0, "a refused call has no other effect");
}
static void bogus(void) {
	static const int far[8] = { -1, 2, 38, 701, 1499, 7009, 15009, 0x7fffffff }; int i;
	if (set < 3) bogus1((int)vf_u32()); else for (i = 0; i < 8; i++) bogus1(far[i]);
}
static void check_one(int i) { /* the descriptor still is what it was opened for, where it was */
	struct stat sb; int n = S[i].op == O_F ? nF : S[i].op == O_G ? nG : nD;
	vf_assert(squash_fstat(S[i].fd, &sb) == 0 && sb.st_mtime == 1000 + n, "a descriptor refers to the object it was opened for");
	vf_assert(squash_lseek(S[i].fd, 0, SQUASH_SEEK_CUR) == S[i].pos, "a descriptor keeps its own position");
	if (S[i].d) {
		struct squash_file *e = squash_find_entry(S[i].d);
		vf_assert(squash_dirfd(S[i].d) == S[i].fd, "a stream keeps its descriptor");
		vf_assert(e && e->fd == S[i].fd, "a stream is found by its handle");
	}
}
static void rd(int i) {
	const char *w = S[i].op == O_F ? F : G; int64_t sz = S[i].op == O_F ? 7 : 5, n; char c[8];
	if (S[i].op == O_F || S[i].op == O_G) {
		n = sz - S[i].pos; if (n < 0) n = 0; if (n > 2) n = 2;
		vf_assert(squash_read(S[i].fd, c, 2) == n && memcmp(c, w + (n ? S[i].pos : 0), n) == 0, "reading goes on where the descriptor is");
		S[i].pos += n;
	} else { errno = 0; vf_assert(squash_read(S[i].fd, c, 2) == -1 && errno, "a directory cannot be read"); }
}
static void clos(int i) {
	vf_assert((S[i].d ? squash_closedir(S[i].d) : squash_close(S[i].fd)) == 0, "an open descriptor closes");
	S[i].used = 0;
	vf_assert(!vf_fd_state[S[i].fd], "closing returns the number to the system");
}
void harness(void) {
	uint32_t ops[K], i, k; int j;
	static const uint16_t sets[4][4] = { { 3, 4, 5, 6 }, { 3, 40, 63, 39 }, { 0, 10, 60, 9 }, { 3, 700, 1500, 39 } };
	set = (int)vf_split(4, 0);
	ops[0] = vf_split(4, 1);
	ops[1] = vf_split(4, 2); /* two descriptors first */
	for (i = 2; i < K; i++) ops[i] = (uint32_t)vf_pick(0, NOPS - 1);
	add(-1, T_DIR, ""); nD = add(0, T_DIR, "d"); add(nD, T_FIFO, "p"); nF = add_file(0, "f", F, 7); nG = add_file(0, "g", G, 5);
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && sqfs_open_image(&fs2, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	memcpy(vf_dup_set, sets[set], 8); vf_dup_n = 3 + P2;
	bogus();
	for (i = 0; i < K; i++) {
		uint32_t o = ops[i];
		if (o <= O_D) {
			S[ns].op = o; S[ns].pos = 0; S[ns].d = 0;
			if (o == O_DIR) { S[ns].d = squash_opendir(&fs, "/d"); vf_assert(S[ns].d != 0, "opendir of an existing directory succeeds"); S[ns].fd = squash_dirfd(S[ns].d); }
			else S[ns].fd = squash_open(o == O_F ? &fs : &fs2, o == O_F ? "/f" : o == O_G ? "/g" : "/d");
			vf_assert(S[ns].fd >= 0 && vf_fd_state[S[ns].fd], "open returns the number the system gave");
			for (j = 0; j < ns; j++) vf_assert(!S[j].used || S[j].fd != S[ns].fd, "numbers differ");
			S[ns++].used = 1;
			if (o == O_DIR) vf_reach("opendir"); else vf_reach("open");
		} else if (o == O_FAIL) {
			int n0 = vf_fds_open; errno = 0;
			vf_assert(squash_opendir(&fs, (i & 1) ? "/f" : "/x") == NULL && errno, "opendir of what is no directory fails");
			vf_assert(vf_fds_open == n0, "a failed opendir gives the number back");
		} else {
			if (!ns) vf_stop();
			k = ns > 1 ? (uint32_t)vf_pick(0, ns - 1) : 0;
			if (!S[k].used) vf_stop();
			if (o == O_CLOSE) { clos(k); vf_reach("close"); }
			else if (o == O_READ) { rd(k); vf_reach("read"); }
			else { int64_t p = (i & 1) ? 1 : 6; vf_assert(squash_lseek(S[k].fd, p, SQUASH_SEEK_SET) == p, "seek"); S[k].pos = p; }
		}
		for (j = 0; j < ns; j++) if (S[j].used) check_one(j);
	}
	bogus();
	for (j = 0; j < ns; j++) if (S[j].used) { rd(j); check_one(j); }
	for (j = 0; j < ns; j++) if (S[j].used && S[j].d) { struct dirent *e = squash_readdir(S[j].d); vf_assert(e && e->d_name[0] == 'p' && !e->d_name[1], "a stream reads its own directory"); }
	k = (uint32_t)set & 1;
	for (j = 0; j < ns; j++) { int q = k ? ns - 1 - j : j; if (S[q].used) { clos(q); if (vf_fds_open) for (i = 0; i < (uint32_t)ns; i++) if (S[i].used) check_one(i); } }
	vf_assert(vf_fds_open == 0, "every number was returned");
	bogus();
	sqfs_destroy(&fs2);
	img_close_all(&fs);
	vf_end();
}
