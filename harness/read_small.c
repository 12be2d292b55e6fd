/* P06: reads through a descriptor return exactly the file's bytes, for every offset and length.
 * Up to two full blocks (raw, stored through the codec, or hole), then no tail, a tail in a
 * shared fragment (raw or compressed) or a short last block; basic or extended inode. */
#include "img.h"
#define BS 8
static uint8_t ref[64], fragbuf[32], blkbuf[4][BS];
static sqfs fs;
void harness(void) {
	uint32_t k0 = vf_split(4, 0), k1 = vf_split(4, 1), tailk = vf_split(5, 2), var = vf_split(4, 3); /* block kinds: 0 raw 1 codec 2 hole 3 absent; tail: 0 none 1 fragment 2 short raw block 3 fragment via codec 4 short hole */
	uint32_t kind[3], hdr[3], nb, i, j, start, tail = 0, fragoff = 0, root, f, nfull = (k0 != 3) + (k1 != 3), size;
	uint32_t off = (var & 1) * 13; /* embedding offset */
	IMG += off;
	kind[0] = k0; kind[1] = k1;
	img_blocksize = BS;
	if (tailk) tail = 5;
	nb = nfull;
	if (tailk == 2) kind[nb++] = 0;
	if (tailk == 4) kind[nb++] = 2;
	size = BS * nfull + tail;
	for (i = 0; i < size; i++) ref[i] = vf_u8();
	start = img_end;
	for (i = 0; i < nb; i++) {
		uint32_t n = i < nfull ? BS : tail;
		if (kind[i] == 2) { for (j = 0; j < n; j++) ref[i * BS + j] = 0; hdr[i] = 0; }
		else if (kind[i] == 0) { uint32_t o = img_alloc(n); memcpy(IMG + o, ref + i * BS, n); hdr[i] = UNC | n; }
		else { memcpy(blkbuf[i], ref + i * BS, n); put_compressed(blkbuf[i], n); hdr[i] = 4; }
	}
	if (tailk == 1 || tailk == 3) {
		fragoff = 3; /* fragment block of BS bytes */
		img_frag[0].start = 0;
		for (i = 0; i < BS; i++) fragbuf[i] = vf_u8();
		memcpy(fragbuf + fragoff, ref + BS * nfull, tail);
		if (tailk == 1) { uint32_t o = img_alloc(BS); memcpy(IMG + o, fragbuf, BS); img_frag[0].start = o; img_frag[0].size = UNC | BS; }
		else { img_frag[0].start = put_compressed(fragbuf, BS); img_frag[0].size = 4; }
		img_nfrag = 1;
	}
	if (var & 2) f = lreg_inode(2, start, img_nfrag ? 0 : 0xffffffffu, fragoff, size);
	else f = reg_inode(2, start, img_nfrag ? 0 : 0xffffffffu, fragoff, size);
	for (i = 0; i < nb; i++) w32(&INO, hdr[i]);
	dir_header(1, f, 2); dir_entry(f, 0, SQUASHFS_REG_TYPE, "f", 1);
	root = dir_inode(1, 0, DIRS.n, 3);
	img_finish(root, 2);
	vf_assert(sqfs_open_image(&fs, IMGBUF, off) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	{
		int fd = squash_open(&fs, "/f");
		uint64_t pos, n; uint8_t out[40]; ssize_t r; uint64_t want;
		vf_assert(fd >= 0, "an existing file opens");
		pos = vf_in(0, size + 2); n = vf_in(0, 30);
		memset(out, 0xA5, sizeof out);
		vf_assert(squash_lseek(fd, pos, SQUASH_SEEK_SET) == (off_t)pos, "lseek returns the position");
		errno = 0;
		want = pos >= size ? 0 : size - pos; if (want > n) want = n;
		r = squash_read(fd, out, n);
		vf_assert(r == (ssize_t)want, "read returns min(length, bytes left)");
		{ uint64_t k = vf_in(0, 39);
		if (k < want) { vf_assert(out[k] == ref[pos + k], "read returns the file's bytes"); vf_reach("read"); }
		else vf_assert(out[k] == 0xA5, "read writes nothing beyond its result"); }
		vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == (off_t)(pos + want), "read advances the position by its result");
		vf_assert(squash_close(fd) == 0, "close");
	}
	vf_end();
}
