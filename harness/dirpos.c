/* P13: directory positions can be saved, restored and rewound. */
#include "img.h"
#ifdef VF_THOROUGH
#define STEPS 8
#else
#define STEPS 5
#endif
static sqfs fs;
static uint32_t NE;
static int check(SQUASH_DIR *d, uint32_t *pos) { /* one readdir against the model */
	struct dirent *e;
	errno = 0;
	e = squash_readdir(d);
	if (*pos < NE) {
		vf_assert(e != NULL, "readdir yields the entry at the position");
		vf_assert(e->d_ino == 10 + *pos && e->d_name[0] == 'a' + (char)*pos && e->d_name[1] == 0, "readdir yields that very entry");
		++*pos;
		return 1;
	}
	vf_assert(e == NULL && errno == 0, "at the end readdir returns NULL");
	return 0;
}
void harness(void) {
	uint32_t mode = vf_split(3, 0), n = vf_split(4, 1), op0 = vf_split(5, 2), i, root, off, s; SQUASH_DIR *d[2]; uint32_t pos[2] = { 0, 0 }, told[2] = { 0, 0 }; long tok[2]; int has[2] = { 0, 0 };
	static const uint8_t sizes[4] = { 0, 1, 2, 3 }, big[4] = { 9, 10, 11, 25 };
	NE = mode == 1 ? big[n] : sizes[n];
	off = reg_inode(9, 0, 0xffffffffu, 0, 0);
	for (i = 0; i < NE; i++) { char nm = 'a' + i; if (i % 5 == 0) dir_header(NE - i < 5 ? NE - i : 5, off, 10); dir_entry(off, i, SQUASHFS_REG_TYPE, &nm, 1); }
	root = dir_inode(1, 0, DIRS.n, 9);
	img_finish(root, NE + 1);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	for (i = 0; i < 2; i++) { d[i] = squash_opendir(&fs, i ? "/." : "/"); vf_assert(d[i] != NULL, "opendir"); }
	vf_assert(d[0] != d[1] && squash_dirfd(d[0]) >= 0 && squash_dirfd(d[0]) != squash_dirfd(d[1]), "each stream has its own descriptor");
	if (mode == 1) { /* read far, remembering one place */
#ifdef VF_THOROUGH
		uint32_t first = (uint32_t)vf_pick(0, NE), more = (uint32_t)vf_pick(0, NE + 1 - first);
#else
		uint32_t first = (uint32_t)vf_pick(0, 4), more = (uint32_t)vf_pick(0, 4);
		first = first < 2 ? first : first == 2 ? 9 : first == 3 ? NE - 1 : NE; more = more < 3 ? more : more == 3 ? NE - first : NE + 1 - first;
#endif
		for (s = 0; s < first; s++) check(d[0], &pos[0]);
		tok[0] = squash_telldir(d[0]); told[0] = pos[0]; has[0] = 1;
		for (s = 0; s < more; s++) check(d[0], &pos[0]);
	}
	for (s = 0; s < (mode == 1 ? 3 : STEPS - (mode == 2)); s++) {
		uint32_t op = s == 0 ? op0 : (uint32_t)vf_pick(0, 4), w = mode == 2 ? (uint32_t)vf_pick(0, 1) : 0, t;
		vf_obs(op * 2 + w);
		switch (op) {
		case 0: check(d[w], &pos[w]); break;
		case 1: tok[w] = squash_telldir(d[w]); told[w] = pos[w]; has[w] = 1; break;
		case 2: if (!has[w]) vf_stop(); squash_seekdir(d[w], tok[w]); pos[w] = told[w]; break;
		case 3: squash_rewinddir(d[w]); pos[w] = 0; break;
		case 4: for (t = 0; t < 2; t++) check(d[w], &pos[w]); break;
		}
	}
	/* whatever happened, the rest of the directory follows */
	for (i = 0; i < 2; i++) { while (check(d[i], &pos[i])) ; check(d[i], &pos[i]); }
	for (i = 0; i < 2; i++) vf_assert(squash_closedir(d[i]) == 0, "closedir");
	vf_assert(vf_fds_open == 0, "closedir returns the descriptors");
	if (mode == 0) vf_reach("history"); else if (mode == 1) vf_reach("large"); else vf_reach("two streams");
	vf_end();
}
