/* P03: metadata reads yield the stream, whatever the blocks, their storage and the embedding. */
#include "img.h"
static sqfs fs;
static uint8_t out[8400], more[8];
#ifdef VF_THOROUGH
#define W 40
#else
#define W 7
#endif
static uint32_t total = 2 * MDSZ + 300;
static uint8_t at(uint32_t i) { return i < total ? INO.b[i] : 0; }
static void check(const uint8_t *p, uint32_t s, uint32_t n, const char *msg) {
	uint32_t i; int ok = 1;
	for (i = 0; i < n; i++) { /* symbolic bytes one by one, the rest at once */
		uint32_t o = (s + i) % MDSZ;
		if (o < 3 || o >= MDSZ - 3) vf_assert(p[i] == at(s + i), msg);
		else if (p[i] != at(s + i)) ok = 0;
	}
	vf_assert(ok, msg);
}
void harness(void) {
	uint32_t mode = vf_split(4, 1), off = vf_split(2, 2) * 7, i, s, n, left; sqfs_md_cursor cur;
	ino_comp = vf_split(8, 0);
	IMG += off;
	for (i = 0; i < total; i++) { uint32_t o = i % MDSZ; w8(&INO, o < 3 || o >= MDSZ - 3 ? vf_u8() : (uint8_t)(i * 31 + (i >> 8) * 7 + 1)); }
	dir_header(1, 0, 2); dir_entry(0, 0, 2, "x", 1);
	img_finish(0, 1);
	vf_assert(sqfs_open_image(&fs, IMGBUF, off) == SQFS_OK, "a well-formed image opens");
	if (mode == 3) { /* long stretches over a whole block */
		s = (uint32_t)vf_pick(MDSZ - 3, MDSZ + 3); n = (uint32_t)vf_pick(MDSZ - 4, MDSZ + 4);
	} else {
		uint32_t b = (uint32_t)vf_pick(0, 2) * MDSZ;
		s = b + (uint32_t)vf_pick(b ? 0 : W, 2 * W) - W; n = (uint32_t)vf_pick(0, W + 3);
	}
	left = total - s - n; if (left > 5) left = 5;
	sqfs_md_cursor_inode(&cur, ino_ref(s), fs.sb->inode_table_start);
	memset(out, 0xA5, sizeof out);
	if (mode == 0 || mode == 3) {
		vf_assert(sqfs_md_read(&fs, &cur, out, n) == SQFS_OK, "a stored stretch can be read");
		check(out, s, n, "the bytes read are those of the stream");
		vf_assert(out[n] == 0xA5 && out[n + 1] == 0xA5, "nothing is written beyond the stretch");
		vf_reach("read");
	} else if (mode == 1) {
		vf_assert(sqfs_md_read(&fs, &cur, NULL, n) == SQFS_OK, "a stored stretch can be skipped");
	} else {
		uint32_t a = (uint32_t)vf_pick(0, W + 3); vf_assume(a <= n);
		vf_assert(sqfs_md_read(&fs, &cur, out, a) == SQFS_OK, "a stored stretch can be read");
		vf_assert(sqfs_md_read(&fs, &cur, out + a, n - a) == SQFS_OK, "a stored stretch can be read");
		check(out, s, n, "two reads yield what one yields");
		vf_reach("split");
	}
	memset(more, 0x5A, sizeof more);
	vf_assert(sqfs_md_read(&fs, &cur, more, left) == SQFS_OK, "reading goes on behind a stretch");
	check(more, s + n, left, "the cursor is just behind the stretch");
	vf_assert(more[left] == 0x5A, "nothing is written beyond the stretch");
	vf_assert(vf_locks_held == 0, "no lock is held");
	sqfs_destroy(&fs);
	vf_assert(vf_live == 0, "closing the image returns its memory");
	vf_end();
}
