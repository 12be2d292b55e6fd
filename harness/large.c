/* P07: files whose block list spans several metadata blocks. */
#define IMG_MAX 200000
#define INO_CAP 110000
#define DIR_CAP 2000
#include "img.h"
#define BS 8
#define MAXF 10
#define MAXB 4110
#define NRAW 14
static sqfs fs;
/* file x: nb blocks, the blocks raw[] are stored, all others are holes; tail bytes in fragment x */
static struct { uint32_t nb, tail, ino, num, lst; uint32_t raw[NRAW]; uint32_t nraw, start; } F[MAXF];
static uint32_t NF, fragpos;
static uint8_t S[MAXF][NRAW + 1][BS];
static uint32_t rawno(uint32_t x, uint32_t b) { uint32_t i; for (i = 0; i < F[x].nraw; i++) if (F[x].raw[i] == b) return i; return NRAW; }
static uint8_t content(uint32_t x, uint32_t i) { return S[x][rawno(x, i / BS)][i % BS]; }
static uint64_t fsize(uint32_t x) { return (uint64_t)F[x].nb * BS + F[x].tail; }
static int stored(uint32_t x, uint32_t b) { uint32_t i; for (i = 0; i < F[x].nraw; i++) if (F[x].raw[i] == b) return 1; return 0; }
static uint8_t ref(uint32_t x, uint32_t i) { return i / BS == F[x].nb || stored(x, i / BS) ? content(x, i) : 0; }
static void add_raw(uint32_t x, uint32_t b) { uint32_t i, j; if (b >= F[x].nb || F[x].nraw == NRAW) return; for (i = 0; i < F[x].nraw && F[x].raw[i] < b; i++) ; if (i < F[x].nraw && F[x].raw[i] == b) return; for (j = F[x].nraw; j > i; j--) F[x].raw[j] = F[x].raw[j - 1]; F[x].raw[i] = b; F[x].nraw++; }
/* first entry of the block list that starts in the m-th metadata block counted from the list's */
static uint32_t bound(uint32_t x, uint32_t m) { return (m * MDSZ - F[x].lst % MDSZ + 3) / 4; }
/* emits data, fragment and inode; the block list starts at stream offset lst */
static void emit(uint32_t x, uint32_t lst, uint32_t num, uint32_t nb, uint32_t tail, int ext) {
	uint32_t i, b, m;
	F[x].lst = lst; F[x].nb = nb; F[x].tail = tail; F[x].num = num;
	add_raw(x, 1); add_raw(x, nb - 1);
	for (m = 1; m < 4; m++) for (i = 0; i < 3; i++) if (bound(x, m) >= 2) add_raw(x, bound(x, m) - 2 + i);
	for (b = 0; b <= NRAW; b++) for (i = 0; i < BS; i++) S[x][b][i] = b < F[x].nraw || b == NRAW ? NF < 1 ? vf_u8() : (uint8_t)(x * 59 + b * 8 + i + 1) : 0;
	F[x].start = img_end;
	for (b = 0; b < F[x].nraw; b++) { uint32_t o = img_alloc(BS); for (i = 0; i < BS; i++) IMG[o + i] = content(x, F[x].raw[b] * BS + i); }
	if (tail) { uint32_t o = img_alloc(BS); for (i = 0; i < BS; i++) IMG[o + i] = i < tail ? content(x, nb * BS + i) : 0x99; img_frag[img_nfrag].start = o; img_frag[img_nfrag].size = UNC | BS; }
	pad_to(&INO, lst - (ext ? 56 : 32));
	F[x].ino = ext ? lreg_inode(num, F[x].start, tail ? img_nfrag : 0xffffffffu, 0, fsize(x)) : reg_inode(num, F[x].start, tail ? img_nfrag : 0xffffffffu, 0, fsize(x));
	if (tail) img_nfrag++;
	for (b = 0, i = 0; b < nb; b++) if (i < F[x].nraw && F[x].raw[i] == b) { w32(&INO, UNC | BS); i++; } else w32(&INO, 0);
	NF = x + 1;
}
static void finish(void) {
	uint32_t x, root; char name[2] = "a";
	for (x = 0; x < NF; x++) { dir_header(1, F[x].ino, F[x].num); name[0] = 'a' + x; dir_entry(F[x].ino, 0, SQUASHFS_REG_TYPE, name, 1); }
	root = dir_inode(1, 0, DIRS.n, 9);
	img_blocksize = BS;
	img_finish(root, NF + 1);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
}
static void read_at(uint32_t x, uint64_t pos, uint32_t n) {
	char name[3] = "/a"; uint8_t out[40]; int fd; uint64_t want = pos >= fsize(x) ? 0 : fsize(x) - pos; uint32_t i; int ok = 1;
	if (want > n) want = n;
	name[1] = 'a' + x;
	fd = squash_open(&fs, name);
	vf_assert(fd >= 0, "an existing file opens");
	memset(out, 0xA5, sizeof out);
	vf_assert(squash_lseek(fd, pos, SQUASH_SEEK_SET) == (off_t)pos, "lseek returns the position");
	vf_assert(squash_read(fd, out, n) == (ssize_t)want, "read returns min(length, bytes left)");
	for (i = 0; i < want; i++) if (out[i] != ref(x, pos + i)) ok = 0;
	vf_assert(ok, "read returns the file's bytes");
	vf_assert(out[want] == 0xA5, "read writes nothing beyond its result");
	vf_assert(squash_close(fd) == 0, "close");
}
void harness(void) {
	uint32_t mode = vf_split(5, 0);
	ino_comp = 0;
	if (mode < 4) { /* one file; where the list starts, how long it is, where to read */
		uint32_t place = mode, r = vf_split(4, 1), how = vf_split(3, 2), lst, nb, tail = 0, w, b = 0;
		lst = place == 0 ? 64 + r : place == 1 ? MDSZ - 3 + r : place == 2 ? MDSZ - 8 + r : 4096 + r;
#ifdef VF_THOROUGH
		if (how == 0) { nb = (uint32_t)vf_pick(2045, 2050); tail = (uint32_t)vf_pick(0, 1) * 5; }   /* around the size from which the index is used */
		else if (how == 1) { nb = (2 * MDSZ - lst % MDSZ) / 4 - 2 + (uint32_t)vf_pick(0, 4); tail = 5; } /* list ends at a metadata boundary */
		else { nb = 4096 + (uint32_t)vf_pick(0, 9); tail = (uint32_t)vf_pick(0, 1) * 3; }
#else
		if (how == 0) { nb = (uint32_t)vf_pick(2047, 2049); tail = (r & 1) * 5; }
		else if (how == 1) { nb = (2 * MDSZ - lst % MDSZ) / 4 - 1 + (uint32_t)vf_pick(0, 2); tail = 5; }
		else { nb = 4103 - r; tail = (place & 1) * 3; }
#endif
		emit(0, lst, 7, nb, tail, r & 1);
		finish();
#ifdef VF_THOROUGH
		{ uint32_t k; w = (uint32_t)vf_pick(0, 3); k = (uint32_t)vf_pick(0, 4);
		b = w == 0 ? k : w == 3 ? nb + 1 - k : bound(0, w) - 2 + k; }
#else
		w = (uint32_t)vf_pick(0, 7);
		b = w == 0 ? 0 : w < 3 ? bound(0, 1) - w + 1 : w < 5 ? bound(0, 2) - w + 3 : w == 5 ? nb - 2 : nb + w - 6;
#endif
		if (b < nb + 2) { static const uint8_t in[3] = { 0, 5, BS - 1 }; uint32_t o = in[vf_pick(0, 2)], n = 20; read_at(0, (uint64_t)b * BS + o, n); vf_reach("one file"); }
	} else { /* more files than the index cache has slots, in any order of access */
		static const uint32_t nums[MAXF] = { 5, 6, 5 + 8, 5 + 16, 5 + 256, 5 + 65536, 70, 71, 72, 0xffffffffu };
		uint32_t i, a = vf_split(4, 1), c = vf_split(3, 2), n = 10, s;
		for (i = 0; i < n; i++) emit(i, INO.n + 40 + (i & 3), nums[i], 2060, i & 1 ? 4 : 0, 0);
		finish();
#ifdef VF_THOROUGH
		s = (uint32_t)vf_pick(0, 9);
#else
		s = a;
#endif
		for (i = 0; i < (a == 3 ? n : (uint32_t)a); i++) { uint32_t x = (s + i * (c + 1)) % n; read_at(x, bound(x, 1) * BS + (c == 1 && i & 1 ? (uint32_t)-9 : 2), 20); }
		i = (uint32_t)vf_pick(0, 9);
		read_at(i, bound(i, 1) * BS + 2, 20);
#ifdef VF_THOROUGH
		i = (uint32_t)vf_pick(0, 9);
#else
		i = (i + 3 + c) % n;
#endif
		read_at(i, 2058 * BS, 20);
		read_at(s, bound(s, 1) * BS + 1, 20);
		vf_reach("many files");
	}
	vf_assert(vf_locks_held == 0, "no lock is held");
	sqfs_destroy(&fs);
	vf_assert(vf_live <= 1, "closing the image returns its memory");
	vf_end();
}
