/* P08: the position follows the documented rules, over sequences of seeks and reads. */
#include "img.h"
#define SZ 10
#ifdef VF_THOROUGH
#define K 3
#else
#define K 2
#endif
static sqfs fs;
static uint8_t data[SZ];
void harness(void) {
	uint32_t cls = vf_split(4, 1), kinds = vf_split(K == 2 ? 9 : 27, 0), i; int fd, fd2, fd3; int64_t pos = 0; const int64_t size = SZ; uint8_t buf[40]; struct stat sb;
	for (i = 0; i < size; i++) data[i] = (uint8_t)(i * 37 + 11);
	img_blocksize = 4;
	{ /* f has two full blocks and a short one */
		uint32_t o = img_alloc(SZ), o2 = img_alloc(2), f, g, h, root; memcpy(IMG + o, data, SZ); memcpy(IMG + o2, "gh", 2);
		f = reg_inode(2, o, 0xffffffffu, 0, SZ); w32(&INO, UNC | 4); w32(&INO, UNC | 4); w32(&INO, UNC | 2);
		g = reg_inode(3, o2, 0xffffffffu, 0, 2); w32(&INO, UNC | 2);
		{ uint32_t o3 = img_alloc(4), x; memcpy(IMG + o3, data, 4); x = put_compressed(data + 4, 4); vf_codecs[ncodec - 1].bad = 1; (void)x; x = img_alloc(2); memcpy(IMG + x, data + 8, 2);
		h = reg_inode(4, o3, 0xffffffffu, 0, SZ); w32(&INO, UNC | 4); w32(&INO, 4); w32(&INO, UNC | 2); }
		dir_header(3, f, 2); dir_entry(f, 0, SQUASHFS_REG_TYPE, "f", 1); dir_entry(g, 1, SQUASHFS_REG_TYPE, "g", 1); dir_entry(h, 2, SQUASHFS_REG_TYPE, "h", 1);
		root = dir_inode(1, 0, DIRS.n, 9);
		img_finish(root, 4);
	}
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	fd2 = squash_open(&fs, "/g"); fd = squash_open(&fs, "/f"); fd3 = squash_open(&fs, "/h");
	vf_assert(fd >= 0 && fd2 >= 0 && fd3 >= 0, "existing files open");
	for (i = 0; i < K; i++) {
		uint32_t op = (kinds / (i == 0 ? 1 : i == 1 ? 3 : 9)) % 3;
		errno = vf_stale();
		if (op == 0) { /* seek */
			int64_t off = (int64_t)vf_u64(), want; int wh = (int)vf_u32(), bad = 0, over = 0; off_t r;
			if (i == 0) vf_assume(cls == 3 ? wh > 2 || wh < 0 : wh == (int)cls);
#ifdef VF_THOROUGH
			if (off >= -2 && off <= SZ + 1) off = (int64_t)vf_concretize((uint64_t)off); /* one path each; all others together */
#endif
			if (wh == SQUASH_SEEK_SET) want = off;
			else if (wh == SQUASH_SEEK_CUR) { over = __builtin_add_overflow(pos, off, &want); }
			else if (wh == SQUASH_SEEK_END) want = size;
			else bad = 1, want = 0;
			r = squash_lseek(fd, off, wh);
			if (bad) { vf_assert(r == -1 && errno == EINVAL, "an unknown directive gives EINVAL"); vf_reach("bad directive"); }
			else if (over) { vf_assert(r == -1 && errno != 0, "a position that cannot be represented is refused"); vf_reach("overflow"); }
			else if (want < 0) { vf_assert(r == -1 && errno == EINVAL, "a negative position gives EINVAL"); vf_reach("negative"); }
			else { vf_assert(r == want, "seek returns the new position"); pos = want; vf_reach("seek"); }
		} else if (op == 1) { /* read */
			uint64_t n = vf_in(0, 12); int64_t want = pos >= size ? 0 : size - pos; ssize_t r;
			if (want > (int64_t)n) want = n;
			buf[want] = 0x77;
			r = squash_read(fd, buf, n);
			vf_assert(r == want, "read returns the bytes left, up to the length");
			vf_assert(buf[want] == 0x77, "read writes nothing else");
			if (want > 0) { uint64_t k = vf_in(0, SZ - 1); vf_assume(k < (uint64_t)want); vf_assert(buf[k] == data[pos + k], "read returns the bytes at the position"); vf_reach("read"); } else vf_reach("nothing left");
			pos += want;
		} else { /* failing read, and calls on another descriptor */
			static const uint8_t ps[4] = { 0, 3, 4, 1 }, ns[4] = { 6, 3, 2, 3 }; uint32_t v = i == 0 ? (uint32_t)vf_pick(0, 3) : 1, p3 = ps[v], n3 = ns[v], at; ssize_t r = squash_read(fd, buf, -(int64_t)vf_in(1, 0x7fffffffffffffffull));
			vf_assert(r == -1 && errno != 0, "a negative length is refused");
			/* the second of three blocks of h cannot be read */
			vf_assert(squash_lseek(fd3, p3, SQUASH_SEEK_SET) == p3, "seek on another descriptor");
			errno = 0; r = squash_read(fd3, buf, n3); at = p3;
			if (p3 + n3 > 4) { vf_assert(r == -1 && errno != 0, "a read that meets a corrupted block fails"); vf_reach("failed read"); }
			else { vf_assert(r == (ssize_t)n3, "a read in front of it succeeds"); at += n3; }
			vf_assert(squash_lseek(fd3, 0, SQUASH_SEEK_CUR) == at, "only what was returned moves the position");
			vf_assert(squash_lseek(fd3, 8, SQUASH_SEEK_SET) == 8 && squash_read(fd3, buf, 3) == 2 && buf[0] == data[8] && buf[1] == data[9], "what lies behind it can be read");
			vf_assert(squash_lseek(fd2, 1, SQUASH_SEEK_SET) == 1, "seek on another descriptor");
			vf_assert(squash_read(fd2, buf, 9) == 1, "read on another descriptor");
			vf_assert(squash_fstat(fd, &sb) == 0 && sb.st_size == size, "fstat leaves the position alone");
		}
		vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == pos, "the position follows the rules");
	}
	{
		int64_t want = pos >= size ? 0 : size - pos; uint32_t k;
		vf_assert(squash_read(fd, buf, 12) == want, "read returns the bytes left");
		for (k = 0; k < SZ; k++) if (k < want) vf_assert(buf[k] == data[pos + k], "read returns the bytes at the position");
	}
	vf_assert(squash_close(fd) == 0 && squash_close(fd2) == 0 && squash_close(fd3) == 0, "close");
	vf_end();
}
