/* P23, P26: inodes, block lists, link targets, directory indexes and tables that run into a
 * metadata block that cannot be decompressed.  What lies in other blocks stays as it is, what
 * needs the block fails each time, and works once the block can be read. */
#define INO_CAP 40000
#define DIR_CAP 40000
#include "img.h"
static sqfs fs;
static uint32_t bad_from, bad_to;
static void set_bad(const uint8_t *tags, int b) { int i; for (i = 1; i < VF_CODEC_MAX; i++) vf_codecs[i].bad = 0; if (b >= 0 && tags[b]) vf_codecs[tags[b]].bad = 1; }
static int hit(uint32_t a, uint32_t b) { return a < b && a < bad_to && b > bad_from; } /* [a, b) needs the block */
static struct stat sb;
static void fails(int r) { vf_assert(r == -1 && errno != 0, "what needs the block fails, with an errno"); }
/* an image whose root directory lists sound, f; the inode of f starts k bytes before a block boundary */
static uint32_t fo;
static void finish(uint32_t type) {
	uint32_t s, root, st;
	if (INO.n < 3 * MDSZ + 50) pad_to(&INO, 3 * MDSZ + 50); /* the others lie in a block of their own */
	img_mtime = 1999; s = reg_inode(8, 0, 0xffffffffu, 0, 0);
	st = DIRS.n; dir_header(1, fo, 7); dir_entry(fo, 0, type, "f", 1); dir_header(1, s, 8); dir_entry(s, 0, SQUASHFS_REG_TYPE, "s", 1);
	root = dir_inode(1, st, DIRS.n - st, 9);
	img_finish(root, 3);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
}
static void sibling(void) { errno = 0; vf_assert(squash_stat(&fs, "/s", &sb) == 0 && sb.st_mtime == 1999, "what lies in other blocks is found"); }
static uint8_t content[64], o[64];
void harness(void) {
	uint32_t op = vf_split(7, 0), kl = vf_split(8, 1), k, i, b, bs = 8; int r, rep;
	k = kl + 8 * (uint32_t)vf_pick(0, 6);
	ino_comp = 0xffff; /* every block is compressed */
	img_blocksize = bs;
	b = (uint32_t)vf_pick(0, 1);
	bad_from = b * MDSZ; bad_to = (b + 1) * MDSZ;
	img_mtime = 1234;
	if (op == 0) { /* a file of five blocks, its list behind its inode */
		uint32_t d, fix, from, n, need; int fd, st_bad; int64_t pos;
		for (i = 0; i < 40; i++) content[i] = 'a' + i;
		content[3] = vf_u8(); content[20] = vf_u8();
		d = img_alloc(40); memcpy(IMG + d, content, 40);
		pad_to(&INO, MDSZ - k);
		fo = reg_inode(7, d, 0xffffffffu, 0, 40); fix = INO.n;
		for (i = 0; i < 5; i++) w32(&INO, UNC | 8);
		finish(SQUASHFS_REG_TYPE);
		st_bad = hit(fo, fix);
		from = (uint32_t)vf_pick(0, 4) * 8 + 3; n = (uint32_t)vf_pick(0, 1) * 9 + 2;
		need = (from + n > 40 ? 40 : from + n); need = (need + 7) / 8; /* entries needed */
		set_bad(img_ino_tags, (int)b);
		for (rep = 0; rep < 2; rep++) {
			sibling();
			errno = 0; r = squash_stat(&fs, "/f", &sb);
			if (st_bad) { fails(r); errno = 0; fd = squash_open(&fs, "/f"); fails(fd); vf_assert(vf_fds_open == 0, "no descriptor is left"); continue; }
			vf_assert(r == 0 && sb.st_size == 40 && sb.st_mtime == 1234, "an inode before the block is found");
			fd = squash_open(&fs, "/f"); vf_assert(fd >= 0, "and opens");
			for (i = 0; i < 2; i++) {
				vf_assert(squash_lseek(fd, from, SQUASH_SEEK_SET) == (off_t)from, "seek");
				errno = 0; r = (int)squash_read(fd, o, n); pos = squash_lseek(fd, 0, SQUASH_SEEK_CUR);
				if (hit(fix, fix + 4 * need)) { fails(r); vf_assert(pos == (int64_t)from, "a read that fails leaves the position"); vf_reach("list cut"); }
				else { uint32_t w = from + n > 40 ? 40 - from : n; vf_assert(r == (int)w && memcmp(o, content + from, w) == 0 && pos == (int64_t)(from + w), "blocks whose sizes lie before the block are read"); vf_reach("list sound"); }
			}
			vf_assert(squash_close(fd) == 0, "close");
		}
		set_bad(img_ino_tags, -1);
		fd = squash_open(&fs, "/f"); vf_assert(fd >= 0 && squash_read(fd, o, 50) == 40 && memcmp(o, content, 40) == 0 && squash_close(fd) == 0, "once it can be read everything is read");
	} else if (op == 1) { /* a list long enough for an index, over three blocks and more; the last piece of data far in it */
		uint32_t nb = 2 * 2048 + 900, d, fix, at, wh; int fd; int64_t from;
		static const uint16_t places[6] = { 0, 5, 2049, 2200, 4096, 4990 };
		for (i = 0; i < 8; i++) content[i] = vf_u8();
		d = img_alloc(8); memcpy(IMG + d, content, 8);
		pad_to(&INO, MDSZ - 4 * kl - 33 - k);
		fo = lreg_inode(7, d, 0xffffffffu, 0, (uint64_t)nb * 8); fix = INO.n;
		wh = (uint32_t)vf_pick(0, 5); at = places[wh];
		for (i = 0; i < nb; i++) w32(&INO, i == at ? UNC | 8 : 0);
		bad_from = (b + 1) * MDSZ; bad_to = bad_from + MDSZ; /* the second or third block */
		finish(SQUASHFS_REG_TYPE);
		set_bad(img_ino_tags, (int)b + 1);
		sibling();
		if (!hit(fo, fix)) {
			fd = squash_open(&fs, "/f"); vf_assert(fd >= 0, "an inode before the block is found");
			for (rep = 0; rep < 2; rep++) {
				from = (int64_t)at * 8;
				vf_assert(squash_lseek(fd, from, SQUASH_SEEK_SET) == from, "seek");
				errno = 0; r = (int)squash_read(fd, o, 8);
				if (hit(fix, fix + 4 * (at + 1))) { fails(r); vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == from, "a read that fails leaves the position"); vf_reach("long list cut"); }
				else { vf_assert(r == 8 && memcmp(o, content, 8) == 0, "blocks whose sizes lie before the block are read"); vf_reach("long list sound"); }
			}
			set_bad(img_ino_tags, -1);
			vf_assert(squash_lseek(fd, (int64_t)at * 8, SQUASH_SEEK_SET) == (int64_t)at * 8 && squash_read(fd, o, 8) == 8 && memcmp(o, content, 8) == 0 && squash_close(fd) == 0, "once it can be read everything is read");
		}
	} else if (op == 2) { /* a link, basic or extended */
		uint32_t fix, ext = (uint32_t)vf_pick(0, 1), end; char t[20]; sqfs_inode in;
		pad_to(&INO, MDSZ - k);
		if (ext) { fo = inode_base(SQUASHFS_LSYMLINK_TYPE, 0777, 0, 0, 1234, 7); w32(&INO, 1); w32(&INO, 5); fix = INO.n; wstr(&INO, "///./", 5); w32(&INO, -1); }
		else { fo = symlink_inode(7, "//./s", 5); fix = fo + 24; }
		if (ext) { memcpy(ino_mem + fix, "//./s", 5); }
		end = fix + 5;
		finish(SQUASHFS_SYMLINK_TYPE);
		set_bad(img_ino_tags, (int)b);
		for (rep = 0; rep < 2; rep++) {
			sibling();
			errno = 0; r = squash_lstat(&fs, "/f", &sb);
			if (hit(fo, fix)) fails(r); else if (!hit(fo, end)) vf_assert(r == 0 && sb.st_size == 5 && sb.st_mtime == 1234, "an inode before the block is found"); else if (r) fails(r);
			memset(t, 'z', 20); errno = 0; r = (int)squash_readlink(&fs, "/f", t, 20);
			if (hit(fo, end)) { fails(r); vf_reach("link cut"); } else { vf_assert(r == 5 && memcmp(t, "//./s", 6) == 0, "a link before the block is read"); vf_reach("link sound"); }
			errno = 0; r = squash_stat(&fs, "/f", &sb);
			if (hit(fo, end)) fails(r); else vf_assert(r == 0 && sb.st_mtime == 1999, "and followed");
			errno = 0; r = squash_open(&fs, "/f/");
			if (hit(fo, end)) fails(r); else vf_assert(r >= 0 && squash_close(r) == 0, "and opened");
			if (!hit(fo, fix) && sqfs_inode_get(&fs, &in, ino_ref(fo)) == SQFS_OK) { size_t z = 20; sqfs_err e = sqfs_readlink(&fs, &in, t, &z); vf_assert((e != SQFS_OK) == hit(fix, end), "the internal entry point fails as well"); }
		}
		set_bad(img_ino_tags, -1);
		vf_assert(squash_stat(&fs, "/f", &sb) == 0 && sb.st_mtime == 1999, "once it can be read the link is followed");
	} else if (op == 3) { /* a directory with an index */
		uint32_t fix, st, hp[3], id; sqfs_inode in; sqfs_dir d; sqfs_dir_entry en; sqfs_name nb; sqfs_err er; short found; SQUASH_DIR *dd; struct dirent *de; char q[4] = "a0";
		pad_to(&INO, MDSZ - k);
		/* nine entries under three headers */
		for (i = 0; i < 9; i++) { q[0] = 'a' + i / 3; q[1] = '0' + i % 3; if (i % 3 == 0) { hp[i / 3] = DIRS.n; dir_header(3, 0, 20); } dir_entry(0, i, SQUASHFS_FIFO_TYPE, q, 2); }
		st = DIRS.n;
		fo = ldir_inode(7, 0, st, 1, 2); fix = INO.n;
		for (i = 1; i < 3; i++) { q[0] = 'a' + i; q[1] = '0'; w32(&INO, hp[i]); w32(&INO, 0); w32(&INO, 1); wstr(&INO, q, 2); }
		id = INO.n;
		finish(SQUASHFS_DIR_TYPE);
		set_bad(img_ino_tags, (int)b);
		for (rep = 0; rep < 2; rep++) {
			sibling();
			errno = 0; dd = squash_opendir(&fs, "/f");
			if (hit(fo, fix)) { vf_assert(dd == NULL && errno != 0, "a directory whose inode cannot be read does not open"); vf_assert(vf_fds_open == 0, "no descriptor is left"); continue; }
			vf_assert(dd != NULL, "a directory before the block opens");
			for (i = 0; i < 9; i++) { de = squash_readdir(dd); vf_assert(de && de->d_name[0] == (char)('a' + i / 3) && de->d_name[1] == (char)('0' + i % 3) && de->d_ino == 20 + i, "listing it needs no index"); }
			vf_assert(!squash_readdir(dd) && squash_closedir(dd) == 0, "and ends");
			vf_assert(sqfs_inode_get(&fs, &in, ino_ref(fo)) == SQFS_OK, "inode");
			i = (uint32_t)vf_pick(0, 9); q[0] = 'a' + i / 3; q[1] = '0' + i % 3; if (i == 9) q[0] = 'x';
			sqfs_dentry_init(&en, nb);
			er = sqfs_dir_lookup(&fs, &in, q, 2, &en, &found);
			if (er == SQFS_OK) vf_assert(!found == (i == 9) && (i == 9 || sqfs_dentry_inode_num(&en) == 20 + i), "a lookup that does not fail is right");
			else { vf_assert(hit(fix, id), "a lookup fails only over what cannot be read"); }
			if (i < 9) {
				uint32_t off = hp[i / 3] + (i % 3 ? 12 + 10 * (i % 3) : 0);
				er = sqfs_dir_open(&fs, &in, &d, off);
				if (er == SQFS_OK) vf_assert(sqfs_dir_next(&fs, &d, &en, &er) && sqfs_dentry_inode_num(&en) == 20 + i, "opening in the middle is right or fails");
				else vf_assert(hit(fix, id), "opening in the middle fails only over what cannot be read");
			}
		}
		set_bad(img_ino_tags, -1);
		vf_assert(sqfs_inode_get(&fs, &in, ino_ref(fo)) == SQFS_OK, "inode");
		sqfs_dentry_init(&en, nb);
		vf_assert(sqfs_dir_lookup(&fs, &in, "c2", 2, &en, &found) == SQFS_OK && found && sqfs_dentry_inode_num(&en) == 28, "once it can be read every name is found");
	} else if (op == 4) { /* the fragment table, or the fragment block */
		uint32_t d; int fd; int which = (int)vf_pick(0, 1);
		for (i = 0; i < 20; i++) content[i] = vf_u8();
		d = img_alloc(16); memcpy(IMG + d, content, 16);
		img_frag[0].start = put_compressed(content + 16, 4); img_frag[0].size = 4; img_nfrag = 1; img_tab_comp = 2;
		pad_to(&INO, MDSZ + k);
		fo = reg_inode(7, d, 0, 0, 20); w32(&INO, UNC | 8); w32(&INO, UNC | 8);
		finish(SQUASHFS_REG_TYPE);
		{ uint8_t t[2]; t[0] = img_frag_tag; t[1] = (uint8_t)IMG[img_frag[0].start + 1];
		if (kl & 1) { fd = squash_open(&fs, "/f"); vf_assert(squash_read(fd, o, 8) == 8, "read"); } else fd = squash_open(&fs, "/f");
		set_bad(t, which);
		for (rep = 0; rep < 3; rep++) {
			sibling();
			vf_assert(squash_lseek(fd, 8, SQUASH_SEEK_SET) == 8, "seek");
			vf_assert(squash_read(fd, o, 8) == 8 && memcmp(o, content + 8, 8) == 0, "the blocks before the tail are read");
			errno = 0; r = (int)squash_read(fd, o, 8); fails(r);
			vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == 16, "a read that fails leaves the position");
			vf_assert(squash_lseek(fd, 12, SQUASH_SEEK_SET) == 12, "seek"); errno = 0; r = (int)squash_read(fd, o, 8); fails(r);
			vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == 12, "a read that fails leaves the position");
		}
		set_bad(t, -1);
		vf_assert(squash_read(fd, o, 20) == 8 && memcmp(o, content + 12, 8) == 0 && squash_close(fd) == 0, "once it can be read the tail is read"); }
		vf_reach("tail");
	} else if (op == 5) { /* the id table */
		sqfs_id_t x; img_idval = vf_u32(); img_tab_comp = 1;
		pad_to(&INO, MDSZ + k);
		fo = reg_inode(7, 96, 0xffffffffu, 0, 0);
		finish(SQUASHFS_REG_TYPE);
		if (kl & 1) vf_assert(sqfs_id_get(&fs, 0, &x) == SQFS_OK && x == img_idval, "id");
		set_bad(&img_id_tag, 0);
		if (!(kl & 1)) for (rep = 0; rep < 2; rep++) { vf_assert(sqfs_id_get(&fs, 0, &x) != SQFS_OK, "an id in a block that cannot be read is an error"); sibling(); vf_reach("ids"); }
		set_bad(&img_id_tag, -1);
		vf_assert(sqfs_id_get(&fs, 0, &x) == SQFS_OK && x == img_idval, "once it can be read the id is found");
	} else { /* the inode of the root directory, or that of a directory on the way */
		uint32_t s, dn, st, root, inner; SQUASH_DIR *d; struct dirent *e;
		img_mtime = 1999; s = reg_inode(8, 0, 0xffffffffu, 0, 0);
		st = DIRS.n; dir_header(1, s, 8); dir_entry(s, 0, SQUASHFS_REG_TYPE, "s", 1);
		pad_to(&INO, MDSZ - k);
		dn = dir_inode(6, st, DIRS.n - st, 1); inner = INO.n;
		if (kl & 1) { st = DIRS.n; pad_to(&INO, 2 * MDSZ + 9); dir_header(1, dn, 6); dir_entry(dn, 0, SQUASHFS_DIR_TYPE, "d", 1); root = dir_inode(1, st, DIRS.n - st, 9); } else { root = dn; pad_to(&INO, 2 * MDSZ + 9); }
		img_finish(root, 3);
		vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
		set_bad(img_ino_tags, (int)b);
		for (rep = 0; rep < 2; rep++) {
			const char *f = kl & 1 ? "/d/s" : "/s", *dd = kl & 1 ? "/d" : "/"; struct dirent **l; char t[9]; sqfs_inode in;
			int bad = hit(dn, inner), bads = bad || b == 0; /* the file lies in the first block */
			errno = 0; r = squash_stat(&fs, f, &sb); if (bads) fails(r); else vf_assert(r == 0 && sb.st_mtime == 1999, "found");
			errno = 0; r = squash_lstat(&fs, f, &sb); if (bads) fails(r); else vf_assert(r == 0 && sb.st_mtime == 1999, "found");
			errno = 0; r = squash_open(&fs, f); if (bads) fails(r); else vf_assert(r >= 0 && squash_close(r) == 0, "opened");
			errno = 0; r = squash_stat(&fs, dd, &sb); if (bad) fails(r); else vf_assert(r == 0 && S_ISDIR(sb.st_mode), "found");
			errno = 0; r = squash_lstat(&fs, dd, &sb); if (bad) fails(r); else vf_assert(r == 0 && S_ISDIR(sb.st_mode), "found");
			errno = 0; r = (int)squash_readlink(&fs, f, t, 9); fails(r);
			errno = 0; r = squash_scandir(&fs, dd, &l, NULL, NULL); if (bad) fails(r); else { vf_assert(r == 1, "listed"); vf_r_free(l[0]); vf_r_free(l); }
			errno = 0; r = (int)squash_follow_link(&fs, f, &in); if (bads) vf_assert(r != SQFS_OK, "not followed"); else vf_assert(r == SQFS_OK && in.base.inode_number == 8, "followed");
			errno = 0; d = squash_opendir(&fs, dd);
			if (bad) vf_assert(d == NULL && errno != 0, "a directory whose inode cannot be read does not open");
			else { vf_assert(d != NULL, "opens"); e = squash_readdir(d); vf_assert(e && e->d_name[0] == 's' && e->d_ino == 8 && !squash_readdir(d) && squash_closedir(d) == 0, "is listed"); }
			vf_assert(vf_fds_open == 0 && vf_locks_held == 0, "nothing is held");
			if (bad) vf_reach("no way"); else vf_reach("way");
		}
		set_bad(img_ino_tags, -1);
		vf_assert(squash_stat(&fs, kl & 1 ? "/d/s" : "/s", &sb) == 0 && sb.st_mtime == 1999, "once it can be read everything is found");
	}
	vf_assert(vf_locks_held == 0 && vf_fds_open == 0, "nothing is held");
	img_close_all(&fs);
	vf_end();
}
