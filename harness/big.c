/* P06, P07: the same with blocks of the sizes images have (128 KiB, 1 MiB), data far from the
 * start of the image, fragments deep inside their block, and files of more than 4 GiB. */
#define IMG_MAX 900000
#define INO_CAP 40000
#include "img.h"
static sqfs fs;
static uint32_t BS;
static uint64_t SIZE;
/* where stored bytes come from: piece p holds the file from at on */
static struct { uint64_t at; uint32_t n; const uint8_t *d; } PC[8];
static int npc;
static uint8_t store[7 << 20], out[400000];
static uint32_t used;
static const uint8_t *piece(uint64_t at, uint32_t n, uint32_t seed) { /* some bytes at its ends and around 64 KiB are arbitrary */
	uint8_t *p = store + used; uint32_t i;
	if (used + n > sizeof store) vf_fail_("store full");
	used += n;
	for (i = 0; i < n; i += 251) { uint32_t k = n - i < 251 ? n - i : 251; memset(p + i, (int)(seed + i / 251 * 7 + 1), k); p[i] ^= 0x55; p[i + k - 1] ^= 0x33; }
	p[0] = vf_u8(); p[n - 1] = vf_u8(); if (n > 65536) { p[65535] = vf_u8(); p[65536] = vf_u8(); }
	PC[npc].at = at; PC[npc].n = n; PC[npc++].d = p;
	return p;
}
/* the n bytes of the file at pos */
static int same(const uint8_t *o, uint64_t pos, uint64_t n) {
	int i, ok = 1; uint64_t e;
	while (n) {
		const uint8_t *src = 0; e = pos + n;
		for (i = 0; i < npc; i++) { if (pos >= PC[i].at && pos < PC[i].at + PC[i].n) { src = PC[i].d + (pos - PC[i].at); if (e > PC[i].at + PC[i].n) e = PC[i].at + PC[i].n; } else if (PC[i].at > pos && PC[i].at < e) e = PC[i].at; }
		if (src) { if (memcmp(o, src, e - pos)) ok = 0; }
		else { uint64_t k; static uint8_t z[1 << 16]; for (k = 0; k < e - pos; k += sizeof z) if (memcmp(o + k, z, e - pos - k < sizeof z ? e - pos - k : sizeof z)) ok = 0; }
		o += e - pos; n -= e - pos; pos = e;
	}
	return ok;
}
static uint32_t raw(const uint8_t *p, uint32_t n) { uint32_t o = img_alloc(n); memcpy(IMG + o, p, n); return o; }
static int fd;
static void begin(uint32_t f) {
	uint32_t root;
	dir_header(1, f, 2); dir_entry(f, 0, SQUASHFS_REG_TYPE, "f", 1);
	root = dir_inode(1, 0, DIRS.n, 3);
	img_blocksize = BS; img_finish(root, 2);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	fd = squash_open(&fs, "/f");
	vf_assert(fd >= 0, "an existing file opens");
}
static void read_at(uint64_t pos, uint64_t n) {
	uint64_t want = pos >= SIZE ? 0 : SIZE - pos; ssize_t r;
	if (want > n) want = n;
	if (want + 1 > sizeof out) vf_fail_("buffer too small");
	out[want] = 0xA5;
	vf_assert(squash_lseek(fd, pos, SQUASH_SEEK_SET) == (off_t)pos, "lseek returns the position");
	r = squash_read(fd, out, n);
	vf_assert(r == (ssize_t)want, "read returns min(length, bytes left)");
	vf_assert(same(out, pos, want), "read returns the file's bytes");
	vf_assert(out[want] == 0xA5, "read writes nothing beyond its result");
	vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == (off_t)(pos + want), "read advances the position by its result");
}
void harness(void) {
	uint32_t mode = vf_split(3, 0), sp = vf_split(4, 1), i, f, start; struct stat sb;
	if (mode == 0) { /* 128 KiB blocks: stored raw, compressed, a hole; then a tail in a fragment */
		static const uint32_t ns[5] = { 1, 70000, 131072, 131073, 300000 };
		uint32_t order = sp & 1, tail = sp == 1 || sp == 2 ? 65537 : 60001, foff = tail > 65536 ? 65000 : 70001, h[3]; const uint8_t *t; uint8_t *fb;
		BS = 131072; SIZE = 3ull * BS + tail;
		img_end = 70001; /* data starts beyond 64 KiB */
		start = img_end;
		for (i = 0; i < 3; i++) {
			uint32_t kind = (i + sp) % 3;
			if (kind == 0) { raw(piece((uint64_t)i * BS, BS, 3 + i), BS); h[i] = UNC | BS; }
			else if (kind == 1) { put_compressed(piece((uint64_t)i * BS, BS, 90 + i), BS); h[i] = 4; }
			else h[i] = 0;
		}
		t = piece(3ull * BS, tail, 17);
		fb = store + used; used += foff + tail; memset(fb, 0x77, foff); memcpy(fb + foff, t, tail);
		if (order) { img_frag[0].start = raw(fb, foff + tail); img_frag[0].size = UNC | (foff + tail); } else { img_frag[0].start = put_compressed(fb, foff + tail); img_frag[0].size = 4; }
		img_nfrag = 1;
		f = sp & 2 ? lreg_inode(2, start, 0, foff, SIZE) : reg_inode(2, start, 0, foff, SIZE);
		for (i = 0; i < 3; i++) w32(&INO, h[i]);
		begin(f);
		{ uint64_t b = (uint64_t)vf_pick(0, 3) * BS; static const int32_t d[7] = { 0, 1, -1, -70000, 65535, 65536, 65537 }; int32_t x = d[vf_pick(0, 6)]; if (b == 0 && x < 0) x = 5; read_at(b + x, ns[vf_pick(0, 4)]); }
		vf_reach("128 KiB blocks");
	} else if (mode == 1) { /* a stored size of more than 16 bits, a fragment of more than 16 bits apart */
		uint32_t n = 66000 + sp * 20000; /* of 128 KiB: compressed to n bytes */
		const uint8_t *p;
		BS = 131072; SIZE = 2ull * BS;
		p = piece(0, BS, 5);
		start = img_alloc(n); /* the model takes what stands at the start of the stored bytes */
		{ uint32_t o = img_end; put_compressed(p, BS); memcpy(IMG + start, IMG + o, 4); img_end = o; }
		raw(piece(BS, BS, 60), BS);
		f = reg_inode(2, start, 0xffffffffu, 0, SIZE); w32(&INO, n); w32(&INO, UNC | BS);
		begin(f);
		{ static const uint32_t at[6] = { 0, 65530, 131071, 131072, 196607, 262140 }; read_at(at[vf_pick(0, 5)], vf_pick(0, 1) ? 10 : 140000); }
		vf_reach("large stored blocks");
	} else { /* 1 MiB blocks, more than 4 GiB: holes, and blocks around the 32-bit boundaries */
		static const uint32_t at[5] = { 0, 5, 2047, 2048, 4096 }; uint32_t nb = 4100, tail = sp & 1 ? 77777 : 0, k = 0;
		BS = 1 << 20; SIZE = (uint64_t)nb * BS + tail;
		start = img_end;
		for (i = 0; i < 5; i++) put_compressed(piece((uint64_t)at[i] * BS, BS, 11 * i), BS);
		if (tail) { uint32_t n = tail; img_frag[0].start = raw(piece((uint64_t)nb * BS, n, 99), n); img_frag[0].size = UNC | n; img_nfrag = 1; }
		f = lreg_inode(2, start, tail ? 0 : 0xffffffffu, 0, SIZE);
		for (i = 0; i < nb; i++) if (k < 5 && at[k] == i) { w32(&INO, 4); k++; } else w32(&INO, 0);
		begin(f);
		vf_assert(squash_fstat(fd, &sb) == 0 && sb.st_size == (off_t)SIZE && squash_stat(&fs, "/f", &sb) == 0 && sb.st_size == (off_t)SIZE, "the size of a large file is reported");
		{ static const uint64_t p[12] = { 0, (1u << 20) - 3, (4u << 20) + 60000, (5u << 20) - 5, 0x7fffffffull - 2, 0x80000000ull, 0x80000000ull + 1048570, 0xffffffffull - 3, 0x100000000ull, 0x100000000ull + 65536, 0x100000000ull + (1 << 20) - 2, 4100ull << 20 };
		static const uint32_t ns[3] = { 9, 100000, 333333 }; uint64_t x = p[vf_pick(0, 11)];
		if (sp & 2) { read_at(0x100000000ull - 100, 200); }
		read_at(x, ns[vf_pick(0, 2)]);
		vf_assert(squash_lseek(fd, 0, SQUASH_SEEK_END) == (off_t)SIZE, "the end of a large file");
		vf_assert(squash_lseek(fd, -9, SQUASH_SEEK_CUR) == (off_t)(SIZE - 9), "a place before the end"); }
		vf_reach("more than 4 GiB");
	}
	vf_assert(squash_close(fd) == 0, "close");
	img_close_all(&fs);
	vf_end();
}
