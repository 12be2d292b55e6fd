/* P17: links lead where their targets say. */
#include "tree.h"
#ifdef VF_THOROUGH
#define L 7
#else
#define L 4
#endif
static sqfs fs;
static char tgt[L + 1];
static const char *const paths[] = { "/l", "l", "/l/b", "/a/l", "a//l", "/k/l", "k/l/b", "l/l", "/k/", "m/b", "/l/" };
#define NP (sizeof paths / sizeof *paths)
static void same(int r, const struct stat *sb, int want, const char *okmsg) {
	if (want >= 0) { vf_assert(r == 0, okmsg); vf_assert(sb->st_mtime == 1000 + want, "the path names the object the links lead to"); }
	else if (want == -2) { vf_assert(r == -1 && errno == ELOOP, "a link cycle gives ELOOP"); }
	else vf_assert(r == -1 && errno == ENOENT, "a link to nothing gives ENOENT");
}
void harness(void) {
	uint32_t pi = vf_split(NP, 0), where = vf_split(2, 1), len = 1 + vf_split(L, 2), i;
	const char *p = paths[pi];
	int a, a2, want, wantl, lnk; struct stat sb; int fd, r; char buf[24];
	for (i = 0; i < len; i++) { tgt[i] = vf_u8(); vf_assume(tgt[i] != 0); }
	add(-1, T_DIR, "");
	a = add(0, T_DIR, "a");
	add_file(0, "b", "BB", 2);
	add_link(0, "k", "a/c/../c", 8);              /* to a directory */
	if (where) add_link(0, "l", tgt, len); else add_link(0, "l", "a/l", 3);
	add_link(0, "m", "/k", 2);                    /* chain */
	add_file(a, "b", "ab", 2);
	a2 = add(a, T_DIR, "c");
	if (where) add_link(a, "l", "../b", 4); else add_link(a, "l", tgt, len);
	add_file(a2, "b", "acb", 3);
	add_link(a2, "l", "../b", 4);                 /* reached through k: must mean /a/b */
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	want = ref_resolve(p, strlen(p), 1);
	wantl = ref_resolve(p, strlen(p), 0);
	vf_obs(want); vf_obs(wantl);
	errno = vf_stale();
	r = squash_stat(&fs, p, &sb);
	same(r, &sb, want, "stat follows links to an existing object");
	if (want >= 0 && N[want].type == T_REG) vf_reach("file"); else if (want >= 0) vf_reach("dir"); else if (want == -1) vf_reach("missing"); else vf_reach("loop");
	{
		sqfs_inode node; sqfs_err e;
		errno = vf_stale();
		e = squash_follow_link(&fs, p, &node);
		vf_assert((e == SQFS_OK) == (want >= 0), "following succeeds exactly when the links lead to an object");
		if (want >= 0) vf_assert(node.base.inode_number == N[want].num, "following names the object the links lead to");
		else vf_assert(errno == (want == -2 ? ELOOP : ENOENT), "following reports why");
	}
	for (i = 0; i < 2; i++) { /* from a directory that is not the root */
		sqfs_inode node; sqfs_err e; short found = 7; int w;
		w = ref_resolve_from(a, p, strlen(p), 0);
		vf_assert(sqfs_inode_get(&fs, &node, ino_ref(N[i ? a : 0].off)) == SQFS_OK, "the inode of a directory");
		e = sqfs_lookup_path(&fs, &node, p, &found);
		if (!i) w = ref_resolve(p, strlen(p), 0);
		vf_assert((e == SQFS_OK && found) == (w >= 0), "a lookup succeeds exactly when the path leads to an object from where it starts");
		if (w >= 0) { vf_assert(node.base.inode_number == N[w].num, "and finds that object"); if (i) vf_reach("from below"); }
		if (w == -2) vf_assert(e != SQFS_OK, "a cycle fails");
	}
	errno = vf_stale();
	r = squash_lstat(&fs, p, &sb);
	same(r, &sb, wantl, "lstat follows all but the last link");
	errno = vf_stale();
	fd = squash_open(&fs, p);
	vf_assert((fd >= 0) == (want >= 0), "open succeeds exactly when the links lead to an object");
	if (fd >= 0) {
		vf_assert(squash_fstat(fd, &sb) == 0 && sb.st_mtime == 1000 + want, "open opens the object the links lead to");
		if (N[want].type == T_REG) vf_assert(squash_read(fd, buf, 8) == (ssize_t)N[want].dlen && !memcmp(buf, N[want].data, N[want].dlen), "open reads the object the links lead to");
		vf_assert(squash_close(fd) == 0, "close");
	} else vf_assert(errno == (want == -2 ? ELOOP : ENOENT), "open reports why");
	errno = vf_stale();
	r = squash_readlink(&fs, p, buf, sizeof buf);
	lnk = wantl >= 0 && N[wantl].type == T_LNK;
	if (lnk) { vf_assert(r == (int)N[wantl].dlen && !memcmp(buf, N[wantl].data, r), "readlink returns the target of the last link"); vf_reach("readlink"); }
	else vf_assert(r == -1 && errno != 0, "readlink of anything but a link fails");
	if (want >= 0 && N[want].type == T_DIR) {
		SQUASH_DIR *d = squash_opendir(&fs, p); struct dirent *e;
		vf_assert(d != NULL, "opendir follows links to a directory");
		e = squash_readdir(d);
		vf_assert(e && e->d_name[0] == (want == a2 ? 'b' : want == a ? 'b' : 'a') && (want == 0 || e->d_ino == (want == a ? N[6].num : N[9].num)), "opendir lists the directory the links lead to");
		vf_assert(squash_closedir(d) == 0, "closedir");
	}
	vf_end();
}
