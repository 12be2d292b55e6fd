/* P23, P26: a listing that runs into a metadata block that cannot be decompressed.  Whatever
 * of it lies before that block is there; behind it every way of reading the directory reports
 * a failure, never the end of the directory or a missing name. */
#include "img.h"
#define NE 4
static sqfs fs;
static const char *const nm[NE] = { "a", "bb", "ccc", "cx" };
static uint32_t s0[NE], e0[NE]; /* what of the listing an entry takes: its header, itself */
static uint32_t bad_from, bad_to, root, total;
static struct stat sb;
static void set_bad(int b) { int i; for (i = 0; i < 2; i++) if (img_dir_tags[i]) vf_codecs[img_dir_tags[i]].bad = 0; if (b >= 0 && img_dir_tags[b]) vf_codecs[img_dir_tags[b]].bad = 1; }
static uint32_t sound(void) { /* number of entries in front of what cannot be read */
	uint32_t i; for (i = 0; i < NE; i++) if (bad_to > bad_from && s0[0] < bad_to && e0[i] > bad_from) break;
	return i;
}
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
void harness(void) {
	uint32_t op = vf_split(7, 0), kl = vf_split(8, 1), k, i, n, start, b; int r, fails;
	uint32_t ino[NE];
	for (i = 0; i < NE; i++) { img_mtime = 1000 + i; ino[i] = inode_base(SQUASHFS_FIFO_TYPE, 0600, 0, 0, img_mtime, 10 + i); w32(&INO, 1); }
	k = kl + 8 * (uint32_t)vf_pick(0, 9);
	dir_comp = 3;
	pad_to(&DIRS, MDSZ - k); start = DIRS.n;
	for (i = 0; i < NE; i++) {
		s0[i] = DIRS.n;
		if (i == 0) dir_header(2, ino[0], 10); else if (i == 2) dir_header(2, ino[2], 10);
		dir_entry(ino[i], i, SQUASHFS_FIFO_TYPE, nm[i], strlen(nm[i]));
		e0[i] = DIRS.n;
	}
	img_mtime = 999; root = dir_inode(1, start, DIRS.n - start, 9); total = DIRS.n;
	while (DIRS.n < MDSZ + 100) w8(&DIRS, 0);
	img_finish(root, NE + 1);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	b = (uint32_t)vf_pick(0, 1);
	bad_from = b * MDSZ; bad_to = (b + 1) * MDSZ;
	set_bad(b);
	n = sound(); fails = n < NE;
	errno = 0;
	if (op == 0) { /* readdir, on to the failure, again, and on after it is gone */
		SQUASH_DIR *d = squash_opendir(&fs, "/"); struct dirent *e; long told;
		vf_assert(d != NULL, "the directory itself is sound");
		for (i = 0; i < n; i++) { e = squash_readdir(d); vf_assert(e && eq(e->d_name, nm[i]) && e->d_ino == 10 + i, "what lies before the block is listed"); }
		for (r = 0; r < 2 && fails; r++) { errno = 0; e = squash_readdir(d); vf_assert(e == NULL && errno != 0, "a listing that cannot be read on is no end of the directory"); vf_reach("listing stops"); }
		if (vf_pick(0, 1)) { told = squash_telldir(d); squash_rewinddir(d); for (i = 0; i < n; i++) { e = squash_readdir(d); vf_assert(e && eq(e->d_name, nm[i]), "what was listed is listed again"); } squash_seekdir(d, told); }
		set_bad(-1);
		for (i = n; i < NE; i++) { e = squash_readdir(d); vf_assert(e && eq(e->d_name, nm[i]) && e->d_ino == 10 + i, "once it can be read the listing goes on where it stopped"); }
		errno = 0;
		vf_assert(squash_readdir(d) == NULL && errno == 0, "and ends");
		vf_assert(squash_closedir(d) == 0, "closedir");
	} else if (op == 1) {
		struct dirent **l;
		r = squash_scandir(&fs, "/", &l, NULL, NULL);
		if (fails) { vf_assert(r == -1 && errno != 0, "scandir fails when the listing cannot be read"); vf_reach("scandir fails"); }
		else { vf_assert(r == NE, "scandir lists everything"); for (i = 0; i < NE; i++) { vf_assert(eq(l[i]->d_name, nm[i]), "in order"); vf_r_free(l[i]); } vf_r_free(l); }
	} else if (op == 2) {
		sqfs_traverse t; sqfs_err e;
		vf_assert(sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs)) == SQFS_OK, "the directory itself is sound");
		for (i = 0; sqfs_traverse_next(&t, &e); i++) vf_assert(i < NE && eq(sqfs_dentry_name(&t.entry), nm[i]), "what lies before the block is visited");
		vf_assert(i == n && (e != SQFS_OK) == fails, "a traversal that cannot go on reports an error");
		if (fails) vf_reach("traversal fails");
		sqfs_traverse_close(&t);
	} else if (op == 3) { /* every name */
		char p[8] = "/"; i = (uint32_t)vf_pick(0, NE - 1); strcpy(p + 1, nm[i]);
		r = squash_stat(&fs, p, &sb);
		if (i < n) { vf_assert(r == 0 && sb.st_mtime == 1000 + i, "a name before the block is found"); vf_reach("found"); }
		else { vf_assert(r == -1 && errno != 0, "a name in or behind the block cannot be found"); vf_assert(squash_open(&fs, p) == -1, "nor opened"); vf_assert(vf_fds_open == 0, "no descriptor is left"); vf_reach("not found"); }
		set_bad(-1);
		vf_assert(squash_stat(&fs, p, &sb) == 0 && sb.st_mtime == 1000 + i, "once it can be read every name is found");
	} else if (op == 4) { /* missing names: telling that needs everything up to their place */
		static const char *const miss[5] = { "0", "aa", "c", "cd", "d" }; static const uint8_t upto[5] = { 0, 1, 2, 3, 4 };
		sqfs_inode in; short found = 0; sqfs_err e; uint32_t m = (uint32_t)vf_pick(0, 4);
		vf_assert(sqfs_inode_get(&fs, &in, sqfs_inode_root(&fs)) == SQFS_OK, "root");
		e = sqfs_lookup_path(&fs, &in, miss[m], &found);
		if (n == NE) vf_assert(e == SQFS_OK && !found, "a missing name is not found");
		else if (n <= upto[m]) { vf_assert(e != SQFS_OK, "a listing that cannot be read does not say that a name is missing"); vf_reach("cannot tell"); }
		else { vf_assert(e != SQFS_OK || !found, "a missing name is not found"); vf_reach("missing"); }
	} else if (op == 5) { /* the entry points for walking by hand */
		sqfs_inode in; sqfs_dir d; sqfs_dir_entry en; sqfs_name nb; sqfs_err e;
		vf_assert(sqfs_inode_get(&fs, &in, sqfs_inode_root(&fs)) == SQFS_OK && sqfs_dir_open(&fs, &in, &d, 0) == SQFS_OK, "the directory itself is sound");
		sqfs_dentry_init(&en, nb);
		for (i = 0; sqfs_dir_next(&fs, &d, &en, &e); i++) vf_assert(i < NE && eq(sqfs_dentry_name(&en), nm[i]), "what lies before the block comes");
		vf_assert(i == n && (e != SQFS_OK) == fails, "then an error comes, or the end");
		vf_reach("by hand");
	} else { /* starting in the middle */
		sqfs_inode in; sqfs_dir d; sqfs_dir_entry en; sqfs_name nb; sqfs_err e; uint32_t at = (uint32_t)vf_pick(0, NE - 1);
		sqfs_off_t off[NE]; short more;
		vf_assert(sqfs_inode_get(&fs, &in, sqfs_inode_root(&fs)) == SQFS_OK, "root");
		set_bad(-1);
		sqfs_dentry_init(&en, nb);
		vf_assert(sqfs_dir_open(&fs, &in, &d, 0) == SQFS_OK, "opens");
		for (i = 0; i < NE; i++) { vf_assert(sqfs_dir_next(&fs, &d, &en, &e), "entry"); off[i] = sqfs_dentry_offset(&en); }
		sqfs_destroy(&fs);
		vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "opens again");
		set_bad(b);
		e = sqfs_dir_open(&fs, &in, &d, off[at]);
		if (e == SQFS_OK) { more = sqfs_dir_next(&fs, &d, &en, &e); vf_assert(more ? e == SQFS_OK && at < n && eq(sqfs_dentry_name(&en), nm[at]) : e != SQFS_OK && at >= n, "a listing from the middle goes on there or fails"); vf_reach("from the middle"); }
		else vf_assert(at >= n || fails, "opening in the middle fails only over what cannot be read");
	}
	vf_assert(vf_locks_held == 0 && vf_fds_open == 0, "nothing is held");
	img_close_all(&fs);
	vf_end();
}
