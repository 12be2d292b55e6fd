/* P36: an image that names what it does not hold.  The image lies in memory that ends where it
 * ends and can only be read: whatever else is touched is a memory fault. */
#define IMG_MAX 40000
#include "img.h"
static sqfs fs;
static struct stat sb;
static uint8_t o[64], content[64];
static void fails(long r) { vf_assert(r == -1 && errno != 0, "what is not there is refused, with an errno"); }
static uint32_t fo, so;
static void sound(void) { uint32_t d = img_alloc(4); memcpy(IMG + d, "soun", 4); img_mtime = 1999; so = reg_inode(8, d, 0xffffffffu, 0, 4); w32(&INO, UNC | 4); img_mtime = 100; }
/* the root lists f and s */
static void finish_(uint32_t type, uint32_t inodes) {
	uint32_t root, st = DIRS.n;
	dir_header(1, fo, 7); dir_entry(fo, 0, type, "f", 1); dir_header(1, so, 8); dir_entry(so, 0, SQUASHFS_REG_TYPE, "s", 1);
	root = dir_inode(1, st, DIRS.n - st, 9);
	img_finish(root, inodes);
}
static void start(void) { vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "the image opens"); }
static void finish(uint32_t type) { finish_(type, 3); start(); }
static void sibling(void) {
	int fd;
	vf_assert(squash_stat(&fs, "/s", &sb) == 0 && sb.st_mtime == 1999, "what does not depend on it is found");
	if (!img_blocksize) return;
	fd = squash_open(&fs, "/s"); memset(o, 0, 8);
	vf_assert(fd >= 0 && squash_read(fd, o, 8) == 4 && memcmp(o, "soun", 5) == 0 && squash_close(fd) == 0, "and read");
}
static uint8_t mem[16];
/* reads n bytes at from of f; ok: they are there */
static void rd(uint64_t from, uint32_t n, int ok) {
	uint32_t rep; int fd = squash_open(&fs, "/f");
	vf_assert(fd >= 0, "the file opens");
	for (rep = 0; rep < 2; rep++) {
		long r; uint32_t i; int same = 1;
		memset(o, 0xA5, sizeof o);
		vf_assert(squash_lseek(fd, from, SQUASH_SEEK_SET) == (off_t)from, "seek");
		errno = 0; r = squash_read(fd, o, n);
		if (ok) { vf_assert(r == n, "what is there is read"); for (i = 0; i < n; i++) if (o[i] != content[from + i]) same = 0; vf_assert(same, "with its bytes"); }
		else { fails(r); vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == (off_t)from, "a read that fails leaves the position"); }
		for (i = n; i < sizeof o; i++) if (o[i] != 0xA5) same = 0;
		vf_assert(same, "and writes nothing behind what was asked for");
		sibling();
	}
	vf_assert(squash_close(fd) == 0, "close");
}
/* everything that looks into the directory f fails (or, lenient, finds nothing) */
static void dir_fails(int lenient) {
	uint32_t rep;
	for (rep = 0; rep < 2; rep++) {
		SQUASH_DIR *d; struct SQUASH_DIRENT **l = 0; sqfs_traverse t; sqfs_err e = SQFS_OK; sqfs_inode in; int n;
		errno = 0; fails(squash_stat(&fs, "/f/x", &sb));
		if (lenient) vf_assert(errno == ENOENT, "nothing is found");
		errno = 0; fails(squash_open(&fs, "/f/x"));
		d = squash_opendir(&fs, "/f"); vf_assert(d != 0, "the directory opens");
		vf_assert(squash_readdir(d) == 0 && squash_readdir(d) == 0 && squash_closedir(d) == 0, "but lists nothing");
		errno = 0; n = squash_scandir(&fs, "/f", &l, 0, 0);
		if (lenient) { void vf_r_free(void *); vf_assert(n == 0, "nothing is listed"); vf_r_free(l); } else fails(n);
		in.base.inode_type = 0;
		vf_assert(sqfs_traverse_open(&t, &fs, ino_ref(fo)) == SQFS_OK, "a walk starts");
		vf_assert(!sqfs_traverse_next(&t, &e) && (e == SQFS_OK) == lenient, "and fails");
		sqfs_traverse_close(&t);
		sibling();
	}
}
void harness(void) {
	uint32_t op = vf_split(10, 0), k = vf_split(4, 1), i, end; uint64_t v;
	for (i = 0; i < 40; i++) content[i] = 'a' + i;
	content[2] = vf_u8(); content[17] = vf_u8(); content[24] = vf_u8();
	if (op == 0) { /* ids: any index, more ids claimed than the table holds */
		sqfs_id_t id = 7; uint16_t x = vf_u16(); sqfs_err e;
		sound(); fo = reg_inode(7, 0, 0xffffffffu, 0, 0);
		img_nids = k == 3 ? 65535 : k; img_tab_comp = (uint32_t)vf_pick(0, 1);
		finish(SQUASHFS_REG_TYPE);
		for (i = 0; i < 2; i++) {
			e = sqfs_id_get(&fs, x, &id);
			if (x == 0 && k) { vf_assert(e == SQFS_OK && id == 1000, "an id that is there is found"); vf_reach("id there"); }
			else { vf_assert(e != SQFS_OK, "an id that is not there is refused"); vf_reach("id not there"); }
			sibling();
		}
	} else if (op == 1) { /* inode numbers */
		uint32_t n = vf_u32(), c, h, t; sqfs_inode_id id = 7; sqfs_err e;
		static const uint32_t counts[4] = { 0, 1, 3, 0xffffffffu };
		c = counts[k];
		sound(); fo = reg_inode(7, 0, 0xffffffffu, 0, 0);
		finish_(SQUASHFS_REG_TYPE, c);
		h = img_alloc(2 + 24); i16(h, 0x8000 | 24); for (i = 0; i < 3; i++) i64(h + 2 + 8 * i, 100 + i);
		t = img_alloc(8); i64(t, h); i64(88, t); i64(40, img_end);
		start();
		for (i = 0; i < 2; i++) {
			e = sqfs_export_inode(&fs, n, &id);
			if (n >= 1 && n <= 3 && n <= c) { vf_assert(e == SQFS_OK && id == 99 + (uint64_t)n, "an inode number that is there is found"); vf_reach("number there"); }
			else { vf_assert(e != SQFS_OK, "an inode number that is not there is refused"); vf_reach(n ? "number too large" : "number 0"); }
			sibling();
		}
	} else if (op == 2) { /* a fragment that is not there */
		uint32_t d = img_alloc(8), nf = k & 1, fr;
		memcpy(IMG + d, content, 8);
		v = vf_u32(); vf_assume(v >= nf && v != 0xffffffffu);
		fr = img_alloc(8);
		if (nf) { img_frag[0].start = fr; img_frag[0].size = UNC | 8; img_nfrag = 1; }
		if (k < 2) fo = reg_inode(7, d, v, 0, 11); else fo = lreg_inode(7, d, v, 0, 11);
		w32(&INO, UNC | 8);
		sound(); finish(SQUASHFS_REG_TYPE);
		rd(0, 8, 1); rd(8, 3, 0); rd(5, 6, 0);
		vf_reach("no fragment");
	} else if (op == 3) { /* a tail that is not all in its fragment */
		uint32_t d = img_alloc(8), fr, w = (uint32_t)vf_pick(0, 5);
		memcpy(IMG + d, content, 8);
		v = w; if (w == 5) { v = vf_u32(); vf_assume(v > 4); }
		memcpy(mem, "xxxxxxx", 7); if (w < 5) memcpy(mem + w, content + 8, 3);
		if (k & 1) { fr = put_compressed(mem, 7); img_frag[0].size = 4; } else { fr = img_alloc(7); memcpy(IMG + fr, mem, 7); img_frag[0].size = UNC | 7; }
		img_frag[0].start = fr; img_nfrag = 1;
		if (k < 2) fo = reg_inode(7, d, 0, v, 11); else fo = lreg_inode(7, d, 0, v, 11);
		w32(&INO, UNC | 8);
		sound(); finish(SQUASHFS_REG_TYPE);
		rd(0, 8, 1); rd(8, 3, w < 5); rd(10, 1, w < 5); rd(6, 5, w < 5);
		vf_reach(w < 5 ? "tail there" : "tail not there");
	} else if (op == 4) { /* a block that holds less, or more, than its part of the file */
		uint32_t j = k, raw = (uint32_t)vf_pick(0, 1), due = j == 3 ? 5 : 8, m = (uint32_t)vf_pick(raw, due + 2 * raw), d = 0, st = img_end, from, n, sz[4]; int ok;
		for (i = 0; i < 4; i++) {
			uint32_t len = i == j ? m : i == 3 ? 5 : 8, a;
			if (i == j && !raw) { static uint8_t c[16]; memcpy(c, content + 8 * i, 8); put_compressed(c, len); sz[i] = 4; }
			else { a = img_alloc(len); memset(IMG + a, 'z', len); memcpy(IMG + a, content + 8 * i, len < 8 ? len : 8); sz[i] = UNC | len; }
		}
		(void)d;
		fo = reg_inode(7, st, 0xffffffffu, 0, 29); for (i = 0; i < 4; i++) w32(&INO, sz[i]);
		sound(); finish(SQUASHFS_REG_TYPE);
		from = (uint32_t)vf_pick(0, 28); n = (uint32_t)vf_pick(0, 2); n = n == 0 ? 1 : n == 1 ? 7 : 29; if (from + n > 29) n = 29 - from;
		ok = m >= due || from >= 8 * (j + 1) || from + n <= 8 * j;
		rd(from, n, ok);
		vf_reach(ok ? m > due ? "long block" : "block there" : "short block");
	} else if (op == 5) { /* positions behind the end of a metadata block */
		sqfs_inode in; uint16_t off = vf_u16();
		if (k == 0) {
			sound(); fo = reg_inode(7, 0, 0xffffffffu, 0, 0);
			ino_comp = (uint32_t)vf_pick(0, 1);
			finish(SQUASHFS_REG_TYPE);
			vf_assume(off > INO.n);
			for (i = 0; i < 2; i++) { vf_assert(sqfs_inode_get(&fs, &in, off) != SQFS_OK, "an inode behind the end of its block is refused"); sibling(); }
			vf_reach("inode offset");
		} else {
			uint32_t at;
			sound();
			if (k == 1) { fo = dir_inode(7, 0, 20, 1); at = fo + 16 + 10; } else { fo = ldir_inode(7, 0, 20, 1, 0); at = fo + 16 + 18; }
			memcpy(ino_mem + at, &off, 2);
			dir_comp = (uint32_t)vf_pick(0, 1);
			finish_(SQUASHFS_DIR_TYPE, 3);
			vf_assume(off > DIRS.n);
			start();
			dir_fails(0);
			vf_reach("listing offset");
		}
	} else if (op == 6) { /* blocks outside the image */
		if (k == 0) { /* data */
			uint32_t at, how = (uint32_t)vf_pick(0, 3); uint64_t big = vf_u64();
			if (how == 3) { img_frag[0].start = big; img_frag[0].size = vf_pick(0, 1) ? 6 : UNC | 6; img_nfrag = 1; } /* a fragment */
			fo = lreg_inode(7, 0, how == 3 ? 0 : 0xffffffffu, 0, how == 3 ? 5 : 8); at = fo + 16; if (how < 3) w32(&INO, how == 2 ? vf_u32() : how ? 6 : UNC | 6);
			/* the position is behind the end, in the super block, or the size reaches beyond the end */
			if (how == 2) { uint32_t x; memcpy(&x, ino_mem + INO.n - 4, 4); x &= 0x1ffffff; x &= ~UNC; vf_assume(x >= 40000); big = 200; }
			memcpy(ino_mem + at, &big, 8);
			sound(); finish_(SQUASHFS_REG_TYPE, 3); end = img_end;
			if (how != 2) vf_assume(big < 96 || big > end - 6);
			start();
			rd(0, how == 3 ? 5 : 8, 0);
			vf_reach("data outside");
		} else if (k == 1) { /* inodes and directories */
			uint32_t what = (uint32_t)vf_pick(0, 1); sqfs_inode in; uint32_t ino, dir;
			sound(); v = vf_u32();
			if (what) { fo = dir_inode(7, 0, 20, 1); i = (uint32_t)v; memcpy(ino_mem + fo + 16, &i, 4); } else fo = reg_inode(7, 0, 0xffffffffu, 0, 0);
			finish_(what ? SQUASHFS_DIR_TYPE : SQUASHFS_REG_TYPE, 3); end = img_end;
			memcpy(&ino, IMG + 64, 4); memcpy(&dir, IMG + 72, 4);
			vf_assume(v > end - 2 - (what ? dir : ino));
			start();
			if (what) { dir_fails(0); vf_reach("listing outside"); }
			else { for (i = 0; i < 2; i++) { vf_assert(sqfs_inode_get(&fs, &in, v << 16) != SQFS_OK, "an inode outside the image is refused"); sibling(); } vf_reach("inode outside"); }
		} else { /* tables: the position of a block, or of the list of blocks */
			sqfs_id_t id = 7; uint64_t list; v = vf_u64();
			sound(); fo = reg_inode(7, 0, 0xffffffffu, 0, 0);
			finish_(SQUASHFS_REG_TYPE, 3); end = img_end;
			memcpy(&list, IMG + 48, 8);
			if (k == 2) { vf_assume(v < 96 || v > end - 2); i64((uint32_t)list, v); } else { vf_assume(v > end - 8 && v < 0x7fff000000000000ull); i64(48, v); }
			start();
			for (i = 0; i < 2; i++) { vf_assert(sqfs_id_get(&fs, 0, &id) != SQFS_OK, "a table outside the image is refused"); sibling(); }
			vf_reach("table outside");
		}
	} else if (op == 7) { /* names longer than names can be */
		uint16_t len = vf_u16(); uint32_t at, n;
		vf_assume(len >= 256);
		n = (k & 1) * 700; /* there may be bytes enough behind it */
		dir_header(1, 0, 5); at = DIRS.n; dir_entry(0, 0, SQUASHFS_FIFO_TYPE, "x", 1);
		pad_to(&DIRS, DIRS.n + n);
		sound();
		if (k < 2) { memcpy(dir_mem + at + 6, &len, 2); fo = dir_inode(7, 0, 21, 1); finish(SQUASHFS_DIR_TYPE); dir_fails(0); vf_reach("name too long"); }
		else {
			uint32_t sz = (uint32_t)len + (k == 3 ? 0x10000 : 0);
			dir_header(1, 0, 5); dir_entry(0, 0, SQUASHFS_FIFO_TYPE, "y", 1);
			fo = ldir_inode(7, 0, 42, 1, 1); w32(&INO, 21); w32(&INO, 0); w32(&INO, sz); wstr(&INO, "y", 1); pad_to(&INO, INO.n + 700);
			finish(SQUASHFS_DIR_TYPE);
			for (i = 0; i < 2; i++) { errno = 0; fails(squash_stat(&fs, "/f/q", &sb)); sibling(); }
			vf_reach("indexed name too long");
		}
	} else if (op == 8) { /* a directory too small for its own size */
		uint16_t s = (uint16_t)vf_pick(0, 3); uint32_t e = s;
		dir_header(1, 0, 5); dir_entry(0, 0, SQUASHFS_FIFO_TYPE, "x", 1);
		sound();
		if (k & 1) { fo = dir_inode(7, 0, 0, 1); memcpy(ino_mem + fo + 16 + 8, &s, 2); } else { fo = ldir_inode(7, 0, 0, 1, 0); memcpy(ino_mem + fo + 16 + 4, &e, 4); }
		finish(SQUASHFS_DIR_TYPE);
		dir_fails(1);
		vf_reach("small directory");
	} else { /* no block size */
		uint32_t d = img_alloc(8); int fd;
		memcpy(IMG + d, content, 8);
		if (k & 1) { img_frag[0].start = img_alloc(8); img_frag[0].size = UNC | 8; img_nfrag = 1; }
		fo = reg_inode(7, d, k & 1 ? 0 : 0xffffffffu, 0, 8 + (k & 1)); w32(&INO, UNC | 8);
		sound(); finish_(SQUASHFS_REG_TYPE, 3); img_blocksize = 0; i32(12, 0); start();
		fd = squash_open(&fs, "/f"); vf_assert(fd >= 0, "the file opens");
		errno = 0; fails(squash_read(fd, o, 8)); vf_assert(squash_close(fd) == 0, "close");
		sibling();
		vf_reach("no block size");
	}
	vf_assert(vf_locks_held == 0 && vf_fds_open == 0, "nothing is held");
	img_close_all(&fs);
	vf_end();
}
