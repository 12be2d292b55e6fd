/* P14: scandir returns exactly the selected entries, sorted, owned by the caller. */
#define IMG_MAX 100000
#include "img.h"
#define ME 1100
void vf_r_free(void *);
static sqfs fs;
static uint32_t NE, mask, calls;
static uint8_t rank_[ME], seen[ME];
static int name_ok(const struct dirent *e, uint32_t i) { return e->d_name[0] == (char)('a' + i / 676 % 26) && e->d_name[1] == (char)('a' + i / 26 % 26) && e->d_name[2] == (char)('a' + i % 26) && e->d_name[3] == 0 && e->d_type == DT_REG; }
static int sel(const struct dirent *e) { uint32_t i = (uint32_t)e->d_ino - 10; vf_assert(i < NE && name_ok(e, i), "the selector sees the stored entries"); calls++; return i < 32 ? (int)((mask >> i) & 1) * 7 : (int)(i & 1); }
static int cmp(const struct dirent **a, const struct dirent **b) { return (int)rank_[(*a)->d_ino - 10] - (int)rank_[(*b)->d_ino - 10]; }
static uint32_t selected(uint32_t i, int use) { return !use ? 1 : i < 32 ? (mask >> i) & 1 : i & 1; }
static void image(void) {
	uint32_t i, root, off = reg_inode(9, 0, 0xffffffffu, 0, 5), f;
	for (i = 0; i < NE; i++) { char nm[3] = { 'a' + i / 676 % 26, 'a' + i / 26 % 26, 'a' + i % 26 }; if (i % 200 == 0) dir_header(NE - i < 200 ? NE - i : 200, off, 10 + i); dir_entry(off, i % 200, SQUASHFS_REG_TYPE, nm, 3); }
	f = DIRS.n;
	root = dir_inode(1, 0, f, 9);
	img_finish(root, NE + 1);
}
static void verify(int r, struct dirent **l, int usesel, int usecmp) {
	uint32_t i, want = 0; int last = -1;
	for (i = 0; i < NE; i++) { want += selected(i, usesel); seen[i] = 0; }
	vf_assert(r == (int)want, "scandir returns the number of selected entries");
	for (i = 0; i < want; i++) {
		uint32_t x = (uint32_t)l[i]->d_ino - 10;
		vf_assert(x < NE && name_ok(l[i], x), "every element is a copy of a stored entry");
		vf_assert(selected(x, usesel) && !seen[x], "every element is a selected entry, once");
		seen[x] = 1;
		if (usecmp) { vf_assert(last < 0 || rank_[last] <= rank_[x], "the elements are in the order of the comparison function"); }
		else vf_assert(last < 0 || (uint32_t)last < x, "without a comparison function the elements are in directory order");
		last = (int)x;
	}
	for (i = 0; i < want; i++) vf_r_free(l[i]); /* the caller's to free, one by one, and the array itself */
	vf_r_free(l);
}
void harness(void) {
	uint32_t mode = vf_split(4, 0), sp = vf_split(5, 1), i; int r, usesel, usecmp; struct dirent **l; const char *path = "/";
	if (mode == 0) { /* every selection and order */
		NE = sp;
		usesel = (int)vf_pick(0, 1); usecmp = (int)vf_pick(0, 1);
		mask = vf_u8(); if (NE < 5) vf_assume(mask < (1u << NE)); else vf_assume(mask < 32);
		for (i = 0; i < NE; i++) rank_[i] = vf_u8();
	} else if (mode == 1) { /* larger than any fixed array */
		static const uint16_t ns[5] = { 16, 17, 33, 1024, 1025 };
		NE = ns[sp]; usesel = 0; usecmp = 0;
	} else { NE = sp == 0 ? 0 : sp == 4 ? 20 : sp; usesel = sp & 1; usecmp = 0; mask = 5; }
	image();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	l = (struct dirent **)8;
	if (mode == 2) { /* memory runs out */
		uint64_t m = vf_u64(), m2 = m & (m - 1); int bad;
		vf_assume((m2 & (m2 - 1)) == 0); /* up to two failures, anywhere */
		vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0; errno = 0;
		r = squash_scandir(&fs, path, &l, usesel ? sel : NULL, NULL);
		vf_oom_on = 0;
		bad = vf_oom_no < 64 ? (m & ((1ull << vf_oom_no) - 1)) != 0 : 1;
		if (!bad) vf_assert(r >= 0, "scandir fails only when memory runs out");
		if (r < 0) {
			vf_assert(r == -1 && errno != 0, "a failed scandir returns -1 and an errno");
			vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "a failed scandir closes its directory");
			vf_reach("failed");
			r = squash_scandir(&fs, path, &l, usesel ? sel : NULL, NULL);
		}
		verify(r, l, usesel, 0);
	} else if (mode == 3) { /* not a directory, not there, no descriptor */
		static const char *const paths[5] = { "/aaa", "/nope", "/", "/aaa/", "/../" };
		if (sp == 2) vf_dup_fail = 1;
		if (sp == 0 || sp == 3) { NE = 0; }
		errno = 0;
		r = squash_scandir(&fs, sp == 0 ? "/nothing" : paths[sp], &l, NULL, NULL);
		vf_assert(r == -1 && errno != 0, "scandir of what cannot be listed fails with an errno");
		vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "a failed scandir leaves nothing behind");
		vf_dup_fail = 0;
		vf_reach("refused");
		errno = 0;
		vf_assert(squash_scandir(&fs, NULL, &l, NULL, NULL) == -1 && errno == EINVAL, "no name");
		vf_assert(squash_scandir(&fs, "/", NULL, NULL, NULL) == -1 && errno == EINVAL, "no list");
	} else {
		errno = 0;
		r = squash_scandir(&fs, path, &l, usesel ? sel : NULL, usecmp ? cmp : NULL);
		vf_assert(r >= 0, "scandir of an existing directory succeeds");
		if (usesel) vf_assert(calls == NE, "the selector is asked once per entry");
		vf_obs(r);
		verify(r, l, usesel, usecmp);
		if (mode == 0) vf_reach("selection"); else vf_reach("large");
	}
	vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "scandir closes its directory");
	img_close_all(&fs); /* everything else was the caller's to free */
	vf_end();
}
