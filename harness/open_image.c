/* P01: opening accepts exactly supported images, anywhere in memory, and leaks nothing. */
#include "tree.h"
static sqfs fs;
void harness(void) {
	uint32_t mode = vf_split(3, 0); /* 0: arbitrary header fields; 1: embedding and use; 2: memory runs out */
	uint32_t off, magic, bad; uint16_t major, minor, comp; sqfs_err e, want; int exported = 0;
	off = mode == 0 ? 8 : (uint32_t)vf_pick(0, mode == 1 ? 17 : 1);
	IMG += off;
	ino_comp = dir_comp = mode == 1 ? (uint32_t)vf_pick(0, 1) : 1;
	add(-1, T_DIR, "");
	add_file(0, "f", "hello", 5);
	add_link(0, "l", "f", 1);
	tree_finish();
	if (mode == 2 && vf_pick(0, 1)) { /* with an export table */
		uint32_t o = img_alloc(2 + 8 * NN), t; i16(o, 0x8000 | (8 * NN)); t = img_alloc(8); i64(t, o); i64(88, t); exported = 1;
	}
	if (mode == 0) {
		magic = vf_u32(); major = vf_u16(); minor = vf_u16(); comp = vf_u16();
		i32(0, magic); i16(28, major); i16(30, minor); i16(20, comp);
		want = magic != 0x73717368u ? SQFS_BADFORMAT : (major != 4 || minor != 0) ? SQFS_BADVERSION : comp != 1 ? SQFS_BADCOMP : SQFS_OK;
		e = sqfs_open_image(&fs, IMGBUF, off);
		vf_assert(e == want, "opening an image reports success, or the first reason against it");
		if (e == SQFS_BADFORMAT) vf_reach("bad format"); else if (e == SQFS_BADVERSION) vf_reach("bad version"); else if (e == SQFS_BADCOMP) vf_reach("bad compressor"); else vf_reach("good");
	} else if (mode == 1) {
		e = sqfs_open_image(&fs, IMGBUF, off);
		vf_assert(e == SQFS_OK, "a well-formed image opens at any offset");
	} else {
		uint64_t m = vf_u64(), m2 = m & (m - 1), m3 = m2 & (m2 - 1);
		vf_assume((m3 & (m3 - 1)) == 0); /* up to three failures, anywhere */
		vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0;
		e = sqfs_open_image(&fs, IMGBUF, off);
		vf_oom_on = 0;
		bad = vf_oom_no < 64 ? (uint32_t)((m & ((1ull << vf_oom_no) - 1)) != 0) : 1;
		if (!bad) vf_assert(e == SQFS_OK, "opening fails only when memory runs out");
		if (e != SQFS_OK) {
			vf_assert(vf_live == 0, "an opening that fails holds no memory");
			vf_reach("failed for memory");
			e = sqfs_open_image(&fs, IMGBUF, off);
			vf_assert(e == SQFS_OK, "opening again with enough memory succeeds");
		}
	}
	vf_assert(vf_locks_held == 0, "no lock is held");
	if (e == SQFS_OK) {
		struct stat sb; char buf[8]; int fd, maj, min, round, live[2];
		vf_assert(squash_start() == SQFS_OK, "start");
		for (round = 0; round < 2; round++) {
			if (round) vf_assert(sqfs_open_image(&fs, IMGBUF, off) == SQFS_OK, "an image opens again after it was closed");
			vf_assert(squash_stat(&fs, "/l", &sb) == 0 && sb.st_size == 5 && S_ISREG(sb.st_mode), "the image is usable");
			fd = squash_open(&fs, "/f");
			vf_assert(fd >= 0 && squash_read(fd, buf, 8) == 5 && !memcmp(buf, "hello", 5), "the image is readable");
			vf_assert(squash_close(fd) == 0, "close");
			sqfs_version(&fs, &maj, &min);
			vf_assert(maj == 4 && min == 0 && sqfs_compression(&fs) == 1, "version and compressor are reported");
			{ int a = -1, b = -1, c = -1, d = -1; sqfs_version_supported(&a, &b, &c, &d); vf_assert(a <= maj && maj <= c && (maj > a || b <= min) && (maj < c || min <= d) && a == 4 && b == 0 && c == 4 && d == 0, "exactly the versions that open are reported as supported"); }
			vf_assert(!sqfs_export_ok(&fs) == !exported, "the presence of an export table is reported");
			sqfs_destroy(&fs);
			live[round] = vf_live;
		}
		vf_assert(live[0] == live[1], "closing an image returns its memory");
		vf_reach("closed");
	} else vf_assert(vf_live == 0, "an opening that fails holds no memory");
	vf_end();
}
