/* P20: readlink returns the target within the buffer it was given (and P17's alias prefixes). */
#define INO_CAP 40000
#include "tree.h"
#define ML 6
static sqfs fs;
static char tgt[9000];
static char *guard(uint32_t n) { char *b = malloc(n + 1); memset(b, 0x5C, n + 1); return b; }
void harness(void) {
	uint32_t mode = vf_split(6, 0), sp = vf_split(7, 1), len, i, size; int r, ok = 1; char *b; sqfs_inode in; size_t n; sqfs_err e; struct stat sb;
	if (mode == 0) { /* every content, every size */
		len = 1 + sp % ML;
		for (i = 0; i < len; i++) { tgt[i] = (char)vf_u8(); vf_assume(tgt[i] != 0); }
		size = (uint32_t)vf_pick(0, len + 3);
		add(-1, T_DIR, ""); add_link(0, "l", tgt, len);
		tree_finish();
	} else if (mode == 1) { /* long targets, also across metadata blocks */
		static const uint16_t ls[7] = { 255, 256, 2047, 2048, 2049, 4096, 8200 };
		len = ls[sp];
		for (i = 0; i < len; i++) tgt[i] = 'a' + i % 26;
		tgt[0] = (char)vf_u8(); tgt[len - 1] = (char)vf_u8(); vf_assume(tgt[0] != 0 && tgt[len - 1] != 0);
		size = len - 2 + (uint32_t)vf_pick(0, 5);
		pad_to(&INO, (uint32_t)vf_pick(0, 1) * (MDSZ - 40));
		ino_comp = sp & 1 ? 1 : 0;
		add(-1, T_DIR, ""); add_link(0, "l", tgt, len);
		tree_finish();
	} else if (mode == 2) { /* anything else is no link */
		static const uint8_t ty[7] = { SQUASHFS_DIR_TYPE, SQUASHFS_REG_TYPE, SQUASHFS_BLKDEV_TYPE, SQUASHFS_CHRDEV_TYPE, SQUASHFS_FIFO_TYPE, SQUASHFS_SOCKET_TYPE, SQUASHFS_LREG_TYPE };
		uint32_t o, root, ds;
		size = (uint32_t)vf_pick(0, 3); len = 0;
		o = inode_base(ty[sp], 0777, 0, 0, 1, 5);
		for (i = 0; i < 12; i++) w32(&INO, vf_u32()); /* whatever its fields say */
		dir_header(1, o, 5); dir_entry(o, 0, ty[sp], "l", 1); ds = DIRS.n;
		root = dir_inode(1, 0, ds, 9);
		img_finish(root, 2);
	} else if (mode == 5) { /* whatever size is stored */
		uint32_t s = vf_u32();
		len = 4; memcpy(tgt, "/f/g", len); img_link_size = s;
		size = 1 + (sp == 6 ? 2046 + (uint32_t)vf_pick(0, 3) : sp); vf_assume(s >= (sp == 6 ? 8000 : size));
		add(-1, T_DIR, ""); add_link(0, "l", tgt, len);
		tree_finish();
	} else { /* alias prefixes: at the start of the target they stand for the root */
		static const char *const t[7] = { "/x/f", "/x/a/f", "/yy/f", "/x", "/yy", "/x/", "/a/x/f" };
		len = strlen(t[sp]); memcpy(tgt, t[sp], len);
		if (mode == 4) tgt[vf_pick(0, len - 1)] = (char)vf_u8();
		for (i = 0; i < len; i++) vf_assume(tgt[i] != 0);
		size = len + 1 + (uint32_t)vf_pick(0, 1);
		add(-1, T_DIR, ""); i = add(0, T_DIR, "a"); add_file(0, "f", "F", 1); add_link(0, "l", tgt, len); add_file(i, "f", "af", 2);
		tree_finish();
	}
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	if (mode == 3 || mode == 4) { fs.root_alias = "/x/"; fs.root_alias2 = "/yy/"; }
	if (mode == 4 && sp == 0) fs.root_alias = NULL;
	b = guard(size);
	errno = 0;
	r = (int)squash_readlink(&fs, "/l", b, size);
	vf_assert(b[size] == 0x5C, "readlink writes nothing behind the buffer");
	if (mode == 2) {
		vf_assert(r == -1 && errno != 0, "readlink of anything but a link fails");
		for (i = 0; i < size; i++) ok &= b[i] == 0x5C;
		vf_assert(ok, "and writes nothing");
		vf_reach("no link");
	} else if (mode == 5) {
		vf_assert(r == -1 && errno != 0, "a target that does not fit is refused, whatever its size");
		for (i = 0; i < size; i++) ok &= b[i] == 0x5C;
		vf_assert(ok, "and nothing is written");
		vf_assert(sqfs_inode_get(&fs, &in, ino_ref(N[1].off)) == SQFS_OK, "inode");
		n = 77;
		vf_assert(sqfs_readlink(&fs, &in, NULL, &n) == SQFS_OK && n == img_link_size + 1, "sqfs_readlink tells the size needed, whatever it is");
		vf_reach("any size");
	} else if (mode < 2) {
		if (size > len) {
			vf_assert(r == (int)len, "readlink returns the length of the target");
			for (i = 0; i < len; i++) ok &= b[i] == tgt[i];
			vf_assert(ok && b[len] == 0, "readlink returns the target");
			for (i = len + 1; i < size; i++) ok &= b[i] == 0x5C;
			vf_assert(ok, "readlink writes nothing behind the target");
			vf_reach("fits");
		} else { vf_assert(r == -1 && errno != 0, "a target that does not fit is refused"); vf_reach("too small"); }
		/* the inode based function fills what it can */
		vf_assert(sqfs_inode_get(&fs, &in, ino_ref(N[1].off)) == SQFS_OK, "inode");
		n = 77;
		vf_assert(sqfs_readlink(&fs, &in, NULL, &n) == SQFS_OK && n == len + 1, "sqfs_readlink tells the size needed");
		memset(b, 0x5C, size + 1);
		n = size;
		e = sqfs_readlink(&fs, &in, b, &n);
		vf_assert(b[size] == 0x5C, "sqfs_readlink writes nothing behind the buffer");
		vf_assert((e == SQFS_OK) == (size > 0), "sqfs_readlink needs room for the terminator");
		if (size > 0) { uint32_t k = len < size - 1 ? len : size - 1; ok = 1; for (i = 0; i < k; i++) ok &= b[i] == tgt[i]; vf_assert(ok && b[k] == 0, "sqfs_readlink gives as much of the target as fits, terminated"); }
	} else {
		uint32_t cut = 0; int want;
		if (fs.root_alias && len >= 3 && memcmp(tgt, "/x/", 3) == 0) cut = 2; else if (len >= 4 && memcmp(tgt, "/yy/", 4) == 0) cut = 3;
		vf_assert(r == (int)(len - cut) && memcmp(b, tgt + cut, len - cut) == 0 && b[len - cut] == 0, "an alias prefix is stripped from the target");
		N[3].data = tgt + cut; N[3].dlen = len - cut;
		want = ref_resolve("/l", 2, 1);
		errno = 0;
		r = squash_stat(&fs, "/l", &sb);
		vf_obs(want);
		vf_assert((r == 0) == (want >= 0), "a link is followed after its alias prefix was stripped");
		if (want >= 0) vf_assert(sb.st_mtime == 1000 + want, "it leads where the rest says");
		if (cut) vf_reach("stripped"); else vf_reach("kept");
	}
	vf_assert(vf_locks_held == 0, "no lock is held");
	sqfs_destroy(&fs);
	vf_assert(vf_live == 0, "nothing is left");
	vf_end();
}
