/* P10: reading a directory yields every stored entry once, in order. */
#include "img.h"
#define ME 26
static sqfs fs;
static struct { uint32_t len, num, inooff, blk; uint16_t type; uint8_t name[258]; } E[ME];
static uint32_t NE;
static const uint8_t dt[15] = { 0, DT_DIR, DT_REG, DT_LNK, DT_BLK, DT_CHR, DT_FIFO, DT_SOCK, DT_DIR, DT_REG, DT_LNK, DT_BLK, DT_CHR, DT_FIFO, DT_SOCK };
static void header(uint32_t cnt, uint32_t blk, uint32_t base) { w32(&DIRS, cnt - 1); w32(&DIRS, blk); w32(&DIRS, base); }
static void entry(uint32_t off, uint16_t delta, uint16_t type, const uint8_t *name, uint32_t len) { w16(&DIRS, off); w16(&DIRS, delta); w16(&DIRS, type); w16(&DIRS, len - 1); wstr(&DIRS, (const char *)name, len); }
static void check_end(SQUASH_DIR *d) {
	int i;
	for (i = 0; i < 2; i++) { errno = 0; vf_assert(squash_readdir(d) == NULL, "after the last entry readdir returns NULL"); vf_assert(errno == 0, "the end of a directory is not an error"); }
}
void harness(void) {
	uint32_t mode = vf_split(4, 0), sp = vf_split(8, 1), i, j, dstart, root, dsz; SQUASH_DIR *d; struct dirent *e; sqfs_inode in; sqfs_dir sd; sqfs_dir_entry se; sqfs_name nb; sqfs_err er;
	ino_comp = 0;
	if (mode == 0) { /* up to three entries, every split over headers, everything else arbitrary */
		uint32_t n = sp & 3, left = 0, base = 0, blk = 0;
		dir_comp = (uint32_t)vf_pick(0, 1);
		pad_to(&DIRS, (sp >> 2) * 5);
		dstart = DIRS.n;
		for (i = 0; i < n; i++) {
			uint16_t delta = vf_u16(), off = vf_u16();
			if (left == 0) { left = (uint32_t)vf_pick(1, n - i); base = vf_u32(); blk = vf_u32(); header(left, blk, base); }
			left--;
			E[i].num = base + (uint32_t)(int32_t)(int16_t)delta; E[i].type = n < 3 || i == 1 ? vf_u16() : 1 + i; E[i].inooff = off; E[i].blk = blk;
			vf_assume(E[i].type >= 1 && E[i].type <= (n < 3 ? 7 : 14));
			E[i].len = i == 1 ? (uint32_t)vf_pick(1, 3) : i + 1;
			for (j = 0; j < E[i].len; j++) { E[i].name[j] = vf_u8(); vf_assume(E[i].name[j] != 0 && E[i].name[j] != '/'); }
			entry(off, delta, E[i].type, E[i].name, E[i].len);
		}
		NE = n;
	} else if (mode == 1) { /* three entries under two headers lie across a metadata block boundary, at every distance */
		uint32_t k = (uint32_t)vf_pick(0, 7) * 8 + sp, base = vf_u32(), base2 = vf_u32();
		dir_comp = (uint32_t)vf_pick(0, 3);
		pad_to(&DIRS, MDSZ - k);
		dstart = DIRS.n;
		NE = 3;
		for (i = 0; i < 3; i++) {
			uint16_t delta = vf_u16();
			if (i == 0) header(2, 0, base); else if (i == 2) header(1, 77, base2);
			E[i].num = (i < 2 ? base : base2) + (uint32_t)(int32_t)(int16_t)delta; E[i].type = 1 + (i + sp) % 14; E[i].len = 2 + i; E[i].inooff = i * 40; E[i].blk = i < 2 ? 0 : 77;
			for (j = 0; j < E[i].len; j++) { E[i].name[j] = vf_u8(); vf_assume(E[i].name[j] != 0 && E[i].name[j] != '/'); }
			entry(i * 40, delta, E[i].type, E[i].name, E[i].len);
		}
	} else if (mode == 2) { /* enough entries for the buffers to grow, every grouping size */
		uint32_t left = 0;
		NE = 9 + (sp & 3) * 4 + (sp >> 2);
		dstart = 0;
		for (i = 0; i < NE; i++) {
			if (left == 0) { left = sp + 1 < NE - i ? sp + 1 : NE - i; header(left, 5, 100); }
			left--;
			E[i].num = 100 + i; E[i].type = 1 + i % 14; E[i].len = 2; E[i].inooff = 0; E[i].blk = 5;
			E[i].name[0] = 'a' + i; E[i].name[1] = vf_u8(); vf_assume(E[i].name[1] != 0 && E[i].name[1] != '/');
			entry(0, i, E[i].type, E[i].name, 2);
		}
	} else { /* long names */
		static const uint16_t lens[8] = { 1, 16, 100, 253, 254, 255, 256, 200 };
		NE = 2;
		dstart = 0;
		header(2, 0, 1);
		for (i = 0; i < 2; i++) {
			E[i].num = 1 + i; E[i].type = 2; E[i].len = i ? 3 : lens[sp]; E[i].inooff = 0; E[i].blk = 0;
			for (j = 0; j < E[i].len; j++) E[i].name[j] = 'A' + (i * 7 + j) % 26;
			E[i].name[E[i].len - 1] = vf_u8(); vf_assume(E[i].name[E[i].len - 1] != 0 && E[i].name[E[i].len - 1] != '/');
			entry(0, i, 2, E[i].name, E[i].len);
		}
	}
	dsz = DIRS.n - dstart;
	w32(&DIRS, 0x55555555); /* something else follows */
	root = sp & 1 ? dir_inode(1, dstart, dsz, 9) : ldir_inode(1, dstart, dsz, 9, 0);
	img_finish(root, 30);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	d = squash_opendir(&fs, "/");
	vf_assert(d != NULL, "an existing directory opens");
	for (i = 0; i < NE; i++) {
		errno = 0;
		e = squash_readdir(d);
		vf_assert(e != NULL, "readdir yields every stored entry");
		vf_assert(memcmp(e->d_name, E[i].name, E[i].len < 255 ? E[i].len : 255) == 0 && e->d_name[E[i].len < 255 ? E[i].len : 255] == 0, "readdir yields the stored name");
		vf_assert(e->d_ino == E[i].num, "readdir yields the stored inode number");
		vf_assert(e->d_type == (E[i].type < 15 ? dt[E[i].type] : 0), "readdir yields the stored type");
	}
	check_end(d);
	vf_assert(squash_closedir(d) == 0, "closedir");
	vf_assert(vf_fds_open == 0, "closedir returns the descriptor");
	/* the stream-less interface */
	vf_assert(sqfs_inode_get(&fs, &in, sqfs_inode_root(&fs)) == SQFS_OK, "root inode");
	vf_assert(sqfs_dir_open(&fs, &in, &sd, 0) == SQFS_OK, "sqfs_dir_open");
	sqfs_dentry_init(&se, nb);
	for (i = 0; i < NE; i++) {
		vf_assert(sqfs_dir_next(&fs, &sd, &se, &er) && er == SQFS_OK, "sqfs_dir_next yields every stored entry");
		vf_assert(sqfs_dentry_name_size(&se) == E[i].len && memcmp(sqfs_dentry_name(&se), E[i].name, E[i].len) == 0 && sqfs_dentry_name(&se)[E[i].len] == 0, "sqfs_dir_next yields the stored name");
		vf_assert(sqfs_dentry_inode_num(&se) == E[i].num && sqfs_dentry_type(&se) == E[i].type, "sqfs_dir_next yields number and type");
		vf_assert(sqfs_dentry_inode(&se) == (((uint64_t)E[i].blk << 16) | E[i].inooff), "sqfs_dir_next yields where the inode is");
		vf_assert(!sqfs_dentry_is_dir(&se) == (E[i].type != 1 && E[i].type != 8), "sqfs_dentry_is_dir");
	}
	for (i = 0; i < 2; i++) vf_assert(!sqfs_dir_next(&fs, &sd, &se, &er) && er == SQFS_OK, "sqfs_dir_next ends");
	vf_obs(NE);
	if (mode == 0) vf_reach("few"); else if (mode == 1) vf_reach("across"); else if (mode == 2) vf_reach("many"); else vf_reach("long");
	vf_end();
}
