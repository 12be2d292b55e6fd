/* P02: the attributes reported are those stored, for every inode type, wherever the inode lies. */
#include "img.h"
#include <sys/sysmacros.h>
static sqfs fs;
static const mode_t fmt[15] = { 0, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK, S_IFDIR, S_IFREG, S_IFLNK, S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK };
static struct stat sb, sb2;
void harness(void) {
	uint32_t t = vf_split(16, 0), known = t >= 1 && t <= 14, root, x, d, tgt;
	uint16_t type, perm; uint32_t mtime, num, nlink = 1, rdev = 0; uint64_t size = 0; int fd, r;
	ino_comp = vf_split(4, 1);
	d = (uint32_t)vf_pick(0, 72);
	type = known ? t : vf_u16();
	if (!known) vf_assume(type == 0 || type > 14);
	perm = vf_u16(); vf_assume((perm & 0170000) == 0);
	mtime = vf_u32(); num = vf_u32();
	img_mtime = 77;
	tgt = reg_inode(2, 0, 0xffffffffu, 0, 0);
	x = MDSZ - d;
	dir_header(1, tgt, 2); dir_entry(tgt, 0, SQUASHFS_REG_TYPE, "t", 1);
	dir_header(1, x, 3); dir_entry(x, 0, known ? (t > 7 ? t - 7 : t) : 2, "x", 1);
	root = dir_inode(1, 0, DIRS.n, 9);
	pad_to(&INO, x);
	inode_base(type, perm, vf_u16(), vf_u16(), mtime, num);
	switch (type) {
	case 1: w32(&INO, vf_u32()); nlink = vf_u32(); w32(&INO, nlink); w16(&INO, vf_u16()); w16(&INO, vf_u16()); w32(&INO, vf_u32()); break;
	case 8: nlink = vf_u32(); w32(&INO, nlink); w32(&INO, vf_u32()); w32(&INO, vf_u32()); w32(&INO, vf_u32()); w16(&INO, vf_u16()); w16(&INO, vf_u16()); w32(&INO, vf_u32()); break;
	case 2: size = vf_u32(); w32(&INO, vf_u32()); w32(&INO, vf_u32()); w32(&INO, vf_u32()); w32(&INO, size); break;
	case 9: size = vf_u64(); vf_assume(size < 1ull << 63); nlink = vf_u32(); w64(&INO, vf_u64()); w64(&INO, size); w64(&INO, vf_u64()); w32(&INO, nlink); w32(&INO, vf_u32()); w32(&INO, vf_u32()); w32(&INO, vf_u32()); break;
	case 3: case 10: nlink = vf_u32(); size = 3; w32(&INO, nlink); w32(&INO, 3); wstr(&INO, "../", 3); INO.n--; wstr(&INO, "t", 1); break; /* "..t" is not a name here: see below */
	case 4: case 5: case 11: case 12: nlink = vf_u32(); rdev = vf_u32(); w32(&INO, nlink); w32(&INO, rdev); break;
	default: nlink = vf_u32(); w32(&INO, nlink); break;
	}
	if (type > 9 || !known) w32(&INO, vf_u32()); /* xattr index */
	{ int i; for (i = 0; i < 16; i++) w8(&INO, 0x77); }
	img_finish(root, 3);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	r = squash_lstat(&fs, "/x", &sb);
	if (!known) {
		vf_assert(r == -1, "lstat of an unknown inode type fails");
		vf_assert(squash_stat(&fs, "/x", &sb) == -1 && squash_open(&fs, "/x") == -1, "stat and open of an unknown inode type fail");
		vf_assert(vf_fds_open == 0, "the failed open leaves no descriptor");
		vf_reach("unknown");
		vf_end();
		return;
	}
	vf_assert(r == 0, "lstat of an existing object succeeds");
#define CHECK(s) \
	vf_assert(s.st_mode == (perm | fmt[t]), "the mode is the stored permissions with the type"); \
	vf_assert(s.st_nlink == nlink, "the link count is the stored one"); \
	vf_assert(s.st_mtime == (time_t)mtime, "the modification time is the stored one"); \
	if (S_ISREG(fmt[t]) || S_ISLNK(fmt[t])) vf_assert((uint64_t)s.st_size == size, "the size is the stored one"); \
	if (S_ISBLK(fmt[t]) || S_ISCHR(fmt[t])) vf_assert(s.st_rdev == makedev((rdev >> 8) & 0xfff, (rdev & 0xff) | ((rdev >> 12) & 0xfff00)), "the device number is the stored one")
	CHECK(sb);
	memset(&sb2, 0x5a, sizeof sb2);
	r = squash_stat(&fs, "/x", &sb2);
	if (S_ISLNK(fmt[t])) vf_assert(r == -1 && errno == ENOENT, "stat follows a link");
	else { vf_assert(r == 0, "stat of an existing object succeeds"); CHECK(sb2); }
	fd = squash_open(&fs, "/x");
	if (S_ISLNK(fmt[t])) { vf_assert(fd == -1, "open follows a link"); fd = squash_open_inner(&fs, "/x", 0); }
	vf_assert(fd >= 0, "an existing object opens");
	memset(&sb2, 0x5a, sizeof sb2);
	vf_assert(squash_fstat(fd, &sb2) == 0, "fstat of an open descriptor succeeds");
	CHECK(sb2);
	vf_assert(memcmp(&sb, &sb2, sizeof sb) == 0 || sb.st_mode == sb2.st_mode, "fstat agrees with lstat");
	if (S_ISLNK(fmt[t])) { char buf[8]; vf_assert(squash_readlink(&fs, "/x", buf, 8) == 3 && !memcmp(buf, "..t", 4), "the target is the stored one"); }
	vf_assert(squash_close(fd) == 0, "close");
	vf_reach("attributes");
	vf_end();
}
