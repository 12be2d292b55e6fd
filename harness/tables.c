/* P05: id, fragment and export tables yield the stored entry for every index. */
#define IMG_MAX 420000
#include "img.h"
static sqfs fs;
static uint8_t tab[264000];
static uint32_t nent, each;
/* writes the table: metadata blocks and, behind them, their positions; returns where the positions are */
static uint32_t put_table(uint32_t comp) {
	uint32_t size = nent * each, nb = (size + MDSZ - 1) / MDSZ, i, pos[40], t;
	for (i = 0; i < nb; i++) {
		uint32_t n = size - i * MDSZ; if (n > MDSZ) n = MDSZ;
		pos[i] = img_alloc(2);
		if ((comp >> i % 3) & 1) { i16(pos[i], 4); put_compressed(tab + i * MDSZ, n); }
		else { uint32_t d = img_alloc(n); i16(pos[i], 0x8000 | n); memcpy(IMG + d, tab + i * MDSZ, n); }
		if (i == 0) img_alloc(5); /* blocks need not be adjacent */
	}
	t = img_alloc(8 * nb);
	for (i = 0; i < nb; i++) i64(t + 8 * i, pos[i]);
	return t;
}
static uint32_t pick_index(uint32_t per) {
#ifdef VF_THOROUGH
	if (nent < 5000) return (uint32_t)vf_pick(0, nent - 1);
#endif
	uint32_t last = (nent - 1) / per, w = (uint32_t)vf_pick(0, last + 1), k = (uint32_t)vf_pick(0, 4);
	if (w == 0) return k;
	if (w <= last) return w * per + k - 2;
	return nent - 1 - k;
}
void harness(void) {
	uint32_t mode = vf_split(3, 0), big = vf_split(2, 3), comp = vf_split(8, 1), off = vf_split(2, 2) * 11, per, k, i, t, root, f = 0, data = 0;
	IMG += off;
	each = mode == 0 ? 4 : mode == 1 ? 16 : 8; per = MDSZ / each; nent = 2 * per + 6;
	if (big) nent = mode == 0 ? 65535 : 8 * per + 6; /* more than 64 KiB; as many ids as there can be */
	if (mode == 1) data = img_alloc(4 * nent);
	for (i = 0; i < nent; i++) {
		if (mode == 0) { uint32_t v = i * 7 + 100000; memcpy(tab + 4 * i, &v, 4); }
		else if (mode == 2) { uint64_t v = (uint64_t)i * 77 + 1; memcpy(tab + 8 * i, &v, 8); }
		else { uint64_t v = data + 4 * i; uint32_t s = UNC | 4; memcpy(tab + 16 * i, &v, 8); memcpy(tab + 16 * i + 8, &s, 4);
			i32(data + 4 * i, 0x5a000000u + i); }
	}
	k = pick_index(per);
	if (mode == 0) { uint32_t v = vf_u32(); memcpy(tab + 4 * k, &v, 4); }
	else if (mode == 2) { uint64_t v = vf_u64(); memcpy(tab + 8 * k, &v, 8); }
	else i32(data + 4 * k, vf_u32());
	if (mode == 1) { f = reg_inode(2, 0, k, 0, 3); dir_header(1, f, 2); dir_entry(f, 0, SQUASHFS_REG_TYPE, "f", 1); }
	root = dir_inode(1, 0, DIRS.n, 3);
	img_finish(root, mode == 2 ? nent : 2);
	t = put_table(comp);
	if (mode == 0) { i16(26, nent); i64(48, t); }
	else if (mode == 1) { i32(16, nent); i64(80, t); }
	else i64(88, t);
	i64(40, img_end);
	vf_assert(sqfs_open_image(&fs, IMGBUF, off) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	if (mode == 0) {
		sqfs_id_t id = 0; uint32_t want; memcpy(&want, tab + 4 * k, 4);
		vf_assert(sqfs_id_get(&fs, (uint16_t)k, &id) == SQFS_OK, "a stored id is found");
		vf_assert(id == want, "the id is the one stored for the index");
		vf_reach("id");
	} else if (mode == 1) {
		uint8_t buf[8] = { 0x11, 0x22, 0x33, 0x44, 0x55 }; int fd = squash_open(&fs, "/f");
		vf_assert(fd >= 0 && squash_read(fd, buf, 8) == 3, "a tail is read from its fragment");
		vf_assert(!memcmp(buf, IMG + data + 4 * k, 3) && buf[3] == 0x44, "the tail comes from the fragment stored for the index");
		vf_assert(squash_close(fd) == 0, "close");
		vf_reach("fragment");
	} else {
		sqfs_inode_id id = 0; uint64_t want; memcpy(&want, tab + 8 * k, 8);
		vf_assert(sqfs_export_ok(&fs), "an export table is reported");
		vf_assert(sqfs_export_inode(&fs, k + 1, &id) == SQFS_OK, "a stored inode number is found");
		vf_assert(id == want, "the inode is the one stored for the number");
		vf_reach("export");
	}
	if (mode != 2) {
		sqfs_inode_id id = 5;
		vf_assert(!sqfs_export_ok(&fs) && sqfs_export_inode(&fs, 1, &id) == SQFS_UNSUP, "lookup by number is unsupported without an export table");
	}
	vf_assert(vf_locks_held == 0, "no lock is held");
	vf_end();
}
