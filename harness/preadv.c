/* P29: positional and vectored reads of the image match plain ones. */
#include "encl.h"
#ifdef VF_THOROUGH
#define VMAX3 9
#else
#define VMAX3 4
#endif
static uint8_t data[20];
static int fd, t, bad;
static void start(int nodes) {
	int m, f, d; uint32_t b0; (void)nodes;
	add(-1, T_DIR, ""); m = add(0, T_DIR, "__enclose_io_memfs__"); d = add(m, T_DIR, "d"); (void)d;
	f = add(m, T_REG, "f");
	{ int i; for (i = 0; i < 20; i++) data[i] = vf_u8(); }
	img_blocksize = 8;
	b0 = img_alloc(8); memcpy(IMG + b0, data, 8);
	put_compressed(data + 8, 8); bad = (int)vf_in(0, 1); vf_codecs[ncodec - 1].bad = bad;
	{ uint32_t o = img_alloc(4); memcpy(IMG + o, data + 16, 4); }
	N[f].laid = 1; N[f].bstart = b0; N[f].bfrag = 0xffffffffu; N[f].dlen = 20; N[f].nblk = 3; N[f].blk[0] = UNC | 8; N[f].blk[1] = 4; N[f].blk[2] = UNC | 4;
	tree_emit(0); img_finish(N[0].off, NN);
	vf_assert(sqfs_open_image(&FS, IMGBUF, 0) == SQFS_OK && squash_start() == SQFS_OK, "a well-formed image opens");
	enclose_io_fs = &FS; vf_sys_start();
}
void harness(void) {
	uint32_t what = vf_split(3, 0), i; int64_t pos = what == 1 ? (int64_t)vf_pick(0, 24) : 7 * (int64_t)vf_pick(0, 3); char a[12], b[12]; int e1;
	start(0);
	if (what == 2) { /* a directory: nothing can be read */
		struct iovec v[1];
		fd = enclose_io_open(2, PRE "/d", 0); vf_assert(fd >= 0, "open");
		v[0].iov_base = a; v[0].iov_len = 3;
		vf_assert(enclose_io_pread(fd, a, 3, (off_t)vf_in(0, 5)) == -1 && enclose_io_readv(fd, v, 1) == -1, "a directory cannot be read");
		vf_assert(squash_lseek(fd, 0, SEEK_CUR) == 0, "its position stays");
		vf_reach("directory");
		goto out;
	}
	fd = enclose_io_open(2, PRE "/f", 0); t = squash_open(&FS, PRE "/f");
	vf_assert(fd >= 0 && t >= 0, "open");
	vf_assert(enclose_io_lseek(fd, pos, SEEK_SET) == pos && squash_lseek(t, pos, SEEK_SET) == pos, "seek");
	for (i = 0; i < 12; i++) a[i] = b[i] = 'z';
	if (what == 0) {
		int far = (int)vf_split(4, 1); off_t off = far < 3 ? (off_t)(vf_pick(0, 8) + 9 * far) : (off_t)vf_u64(); size_t len = vf_pick(0, 11); if (far == 3) vf_assume(off < 0 || off > 26); ssize_t n, m = -1;
		errno = 0; n = enclose_io_pread(fd, a, len, off); e1 = errno; errno = 0;
		if (off >= 0 && squash_lseek(t, off, SEEK_SET) == off) m = squash_read(t, b, len);
		vf_assert(n == m, "a positional read returns what a seek and a read return");
		if (n < 0) vf_assert(e1 != 0, "a failing read has a reason"); else vf_assert(memcmp(a, b, n) == 0 && (n == 0 || memcmp(a, data + off, n) == 0), "and the same bytes");
		for (i = 0; i < 12; i++) if (n >= 0 && (ssize_t)i >= n) vf_assert(a[i] == 'z', "nothing is written behind them");
		vf_assert(enclose_io_lseek(fd, 0, SEEK_CUR) == pos, "a positional read leaves the position alone");
		if (n < 0 && off >= 0 && off < 20) vf_reach("pread fails"); if (n == 0) vf_reach("pread nothing"); if (n == 11) vf_reach("pread all");
	} else {
		struct iovec v[3]; int k = (int)vf_split(4, 1), j; char bufs[3][12]; size_t lens[3]; ssize_t n, m = 0, sum = 0, at = pos;
		for (j = 0; j < k; j++) { lens[j] = vf_pick(0, k == 3 ? VMAX3 : 9); for (i = 0; i < 12; i++) bufs[j][i] = 'z'; v[j].iov_base = bufs[j]; v[j].iov_len = lens[j]; }
		errno = 0; n = enclose_io_readv(fd, v, k); e1 = errno;
		for (j = 0; j < k; j++) {
			if (!lens[j]) continue;
			m = squash_read(t, b, lens[j]);
			if (m < 0) break;
			sum += m;
			if ((size_t)m < lens[j]) break;
		}
		if (m < 0 && sum == 0) { vf_assert(n == -1 && e1 != 0, "a vectored read fails when its first part does"); vf_reach("readv fails"); }
		else { vf_assert(n == sum, "a vectored read returns what the plain reads of its parts return"); if (m < 0) vf_reach("readv cut short"); if (n && k == 3 && !lens[1]) vf_reach("empty part"); }
		for (j = 0, m = n; j < k; j++) for (i = 0; i < 12; i++) {
			if (i < lens[j] && m > 0) { vf_assert(at < 20 && bufs[j][i] == (char)data[at], "the parts hold the bytes of the file"); at++; m--; }
			else if (i >= lens[j] || n >= 0 && sum == n && !bad) vf_assert(bufs[j][i] == 'z', "nothing else is written");
		}
		vf_assert(enclose_io_lseek(fd, 0, SEEK_CUR) == pos + (n > 0 ? n : 0), "the position advances by the result");
	}
	vf_assert(squash_close(t) == 0, "close");
out:
	vf_assert(vf_sys_n == 0, "nothing reaches the system");
	vf_assert(enclose_io_close(fd) == 0, "close");
	img_close_all(&FS);
	vf_end();
}
