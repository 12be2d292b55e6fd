/* P16: every spelling of a path names what its normal form names. */
#include "tree.h"
#ifdef VF_THOROUGH
#define L 9
#else
#define L 7
#endif
static sqfs fs;
static char path[L + 1], copy[L + 1];
void harness(void) {
	uint32_t len = vf_split(L + 1, 0), how = vf_split(4, 1), i;
	int a, want, k; struct comp st[L]; struct stat sb; int fd;
	add(-1, T_DIR, "");
	a = add(0, T_DIR, "a");
	add_file(0, "b", "BB", 2);
	add_file(a, "b", "ab", 2);
	{ int c = add(a, T_DIR, "c"); add_file(c, "a", "aca", 3); }
	add_file(a, "d.", "dd", 2);
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	for (i = 0; i < len; i++) { path[i] = vf_u8(); vf_assume(path[i] != 0); }
	path[len] = 0;
	memcpy(copy, path, len + 1);
	k = ref_norm(copy, len, st, 0, L);
	want = k < 0 ? -1 : 0;
	for (i = 0; want >= 0 && (int)i < k; i++) want = ref_child(want, st[i].s, st[i].n);
	errno = vf_stale();
	if (how == 0) { /* lookup */
		sqfs_inode node; short found = 7; sqfs_err e;
		vf_assert(sqfs_inode_get(&fs, &node, sqfs_inode_root(&fs)) == SQFS_OK, "root");
		e = sqfs_lookup_path(&fs, &node, path, &found);
		if (want >= 0) { vf_assert(e == SQFS_OK && found, "an existing path is found"); vf_assert(node.base.inode_number == N[want].num, "the path names the object of its normal form"); vf_reach("lookup found"); }
		else { vf_assert(e != SQFS_OK || !found, "a path without object is not found"); vf_reach("lookup missing"); }
	} else if (how == 1) {
		int r = squash_stat(&fs, path, &sb);
		if (want >= 0) { vf_assert(r == 0, "stat of an existing path succeeds"); vf_assert(S_ISDIR(sb.st_mode) == (N[want].type == T_DIR), "stat names the object of the normal form"); vf_assert(S_ISDIR(sb.st_mode) || sb.st_size == N[want].dlen, "stat names the file of the normal form"); }
		else vf_assert(r == -1 && errno == ENOENT, "stat of a missing path gives ENOENT");
	} else if (how == 3) {
		sqfs_inode node; sqfs_err e = squash_follow_link(&fs, path, &node);
		if (want >= 0) { vf_assert(e == SQFS_OK, "following an existing path succeeds"); vf_assert(node.base.inode_number == N[want].num, "following names the object of the normal form"); vf_reach("follow found"); }
		else { vf_assert(e != SQFS_OK && errno == ENOENT, "following a missing path gives ENOENT"); vf_reach("follow missing"); }
	} else {
		char buf[8];
		fd = squash_open(&fs, path);
		if (want >= 0) {
			vf_assert(fd >= 0, "open of an existing path succeeds");
			if (N[want].type == T_REG) { vf_assert(squash_read(fd, buf, 8) == (ssize_t)N[want].dlen && !memcmp(buf, N[want].data, N[want].dlen), "open names the file of the normal form"); vf_reach("open read"); }
			vf_assert(squash_close(fd) == 0, "close");
		} else { vf_assert(fd == -1 && errno == ENOENT, "open of a missing path gives ENOENT"); vf_assert(vf_fds_open == 0, "a failed open leaves no descriptor"); }
	}
	vf_assert(memcmp(copy, path, len + 1) == 0, "the path is not modified");
	vf_end();
}
