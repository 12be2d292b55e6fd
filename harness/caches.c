/* P04: whatever was read before, every access yields the data of its block.
 * P26 (-DBAD): blocks that cannot be decompressed fail every time and spoil nothing else. */
#define IMG_MAX 60000
#define INO_CAP 110000
#include "img.h"
#define BS 8
#define NF 12
#ifdef BAD
#define NBAD 1
#else
#define NBAD 0
#endif
#ifdef VF_THOROUGH
#define HIST 6
#else
#define HIST 4
#endif
static struct img { sqfs fs; struct { uint8_t data[3 * BS + 4]; uint32_t nb, tail, off; uint8_t tag[3], ftag, itag; int fd; } f[NF]; uint32_t nf; uint8_t dtag, rtag, idtag, frtag; } G[2], *g;
static uint8_t ino2[1 << 16], dir2[4000], tab2[256];
static void bad_pick(uint8_t tag) { if (NBAD && tag) vf_codecs[tag].bad = (int)vf_in(0, 1); } /* which blocks are bad is decided when they are read */
static int is_bad(uint8_t tag) { return tag && vf_codecs[tag].bad; }
static void file(uint32_t nb, uint32_t tail, uint32_t seed) { /* contents are arbitrary, first bytes tell files and blocks apart */
	uint32_t x = g->nf++, b, i;
	g->f[x].nb = nb; g->f[x].tail = tail;
	for (i = 0; i < nb * BS + tail; i++) g->f[x].data[i] = vf_u8();
	(void)seed;
}
static void emit(uint32_t apart) {
	uint32_t x, b, start, root, sz; char nm;
	for (x = 0; x < g->nf; x++) {
		start = img_end;
		for (b = 0; b < g->f[x].nb; b++) { g->f[x].tag[b] = ncodec; put_compressed(g->f[x].data + b * BS, BS); }
		if (g->f[x].tail) { g->f[x].ftag = ncodec; img_frag[img_nfrag].start = put_compressed(g->f[x].data + g->f[x].nb * BS, g->f[x].tail); img_frag[img_nfrag].size = 4; }
		if (apart) pad_to(&INO, (x + 1) * MDSZ - 20); /* every inode lies in two metadata blocks */
		img_mtime = 1000 + x;
		g->f[x].off = reg_inode(10 + x, start, g->f[x].tail ? img_nfrag : 0xffffffffu, 0, g->f[x].nb * BS + g->f[x].tail);
		if (g->f[x].tail) img_nfrag++;
		for (b = 0; b < g->f[x].nb; b++) w32(&INO, 4);
	}
	for (x = 0; x < g->nf; x++) { nm = 'a' + x; dir_header(1, g->f[x].off, 10 + x); dir_entry(g->f[x].off, 0, SQUASHFS_REG_TYPE, &nm, 1); }
	sz = DIRS.n;
	root = dir_inode(1, 0, sz, 9);
	img_finish(root, g->nf + 1);
	g->dtag = dir_comp ? img_dir_tags[0] : 0; g->rtag = ino_comp ? img_ino_tags[root / MDSZ] : 0;
	g->idtag = img_id_tag; g->frtag = img_frag_tag;
}
static void open_all(void) {
	uint32_t x; char p[3] = "/a";
	for (x = 0; x < g->nf; x++) { p[1] = 'a' + x; g->f[x].fd = squash_open(&g->fs, p); vf_assert(g->f[x].fd >= 0, "an existing file opens"); }
}
static void read_op(uint32_t x, uint32_t pos, uint32_t n) {
	uint32_t size = g->f[x].nb * BS + g->f[x].tail, want = size - pos < n ? size - pos : n, i, b; int bad = 0, ok = 1; ssize_t r; uint8_t out[2 * BS + 8];
	for (b = pos / BS; b * BS < pos + want; b++) bad |= b == g->f[x].nb ? is_bad(g->f[x].ftag) || is_bad(g->frtag) : is_bad(g->f[x].tag[b]);
	vf_assert(squash_lseek(g->f[x].fd, pos, SQUASH_SEEK_SET) == pos, "lseek");
	errno = 0;
	r = squash_read(g->f[x].fd, out, n);
	if (bad) {
		vf_assert(r == -1 && errno != 0, "reading a corrupted block fails, every time");
		vf_assert(squash_lseek(g->f[x].fd, 0, SQUASH_SEEK_CUR) == pos, "a failed read does not move the position");
		vf_reach("bad data");
		return;
	}
	vf_assert(r == (ssize_t)want, "a read of sound blocks succeeds");
	for (i = 0; i < want; i++) ok &= out[i] == g->f[x].data[pos + i];
	vf_assert(ok, "a read yields the data of the block it names");
	vf_reach("good data");
}
static void stat_op(uint32_t x, int bad) {
	char p[3] = "/a"; struct stat sb; int r;
	p[1] = 'a' + x;
	{ sqfs_id_t id = 7; sqfs_err e = sqfs_id_get(&g->fs, 0, &id); vf_assert((e != SQFS_OK) == is_bad(g->idtag), "ids can be read unless their block is corrupted"); if (e == SQFS_OK) vf_assert(id == img_idval, "ids are read from their block"); }
	errno = 0;
	r = squash_stat(&g->fs, p, &sb);
	if (bad) { vf_assert(r == -1 && errno != 0, "what lies in a corrupted metadata block cannot be used"); vf_reach("bad metadata"); return; }
	vf_assert(r == 0 && sb.st_mtime == 1000 + x && sb.st_size == g->f[x].nb * BS + g->f[x].tail, "metadata read is that of the block it names");
	vf_reach("good metadata");
}
void harness(void) {
	uint32_t mode = vf_split(5, 0), sp = vf_split(6, 1), s, i, x; int live, two = mode == 3;
	g = &G[0];
	if (mode == 0) { file(3, 0, 0); file(2, 0, 1); emit(0); }
	else if (mode == 1) { if (NBAD) img_tab_comp = sp & 1 ? 2 : 0; for (x = 0; x < 5; x++) file(x & 1, 2, x); emit(0); }
	else if (mode == 2) { ino_comp = 0x3fff; dir_comp = 1; img_tab_comp = 1; for (x = 0; x < (NBAD ? 4 : NF); x++) file(0, 0, x); emit(1); }
	else if (mode == 3) {
		file(2, 2, 0); file(1, 0, 1); ino_comp = dir_comp = 1; emit(0);
		vf_assert(sqfs_open_image(&g->fs, IMG, 0) == SQFS_OK, "opens");
		/* a second image of the same layout */
		g = &G[1]; IMG += 20000; img_end = 96; img_nfrag = 0; INO.b = ino2; INO.n = 0; INO.cap = sizeof ino2; DIRS.b = dir2; DIRS.n = 0; DIRS.cap = sizeof dir2; img_tabmem = tab2;
		file(2, 2, 2); file(1, 0, 3); emit(0);
	} else { for (x = 0; x < 6; x++) file(2, 2, x); ino_comp = dir_comp = 1; emit(0); }
	vf_assert(sqfs_open_image(&g->fs, IMG, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	if (mode == 0) {
		open_all();
		for (x = 0; x < 2; x++) for (i = 0; i < g->f[x].nb; i++) bad_pick(g->f[x].tag[i]);
		for (s = 0; s < HIST; s++) {
			uint32_t op = s == 0 ? sp : (uint32_t)vf_pick(0, 5); /* five blocks, and reads across two */
			if (op < 3) read_op(0, op * BS + (s & 3), BS - 4); else if (op < 5) read_op(1, (op - 3) * BS + (s & 3), BS - 4); else read_op(s & 1, BS - 2, 5);
		}
	} else if (mode == 1) {
		open_all();
		for (x = 0; x < 5; x++) bad_pick(g->f[x].ftag);
		if (NBAD) bad_pick(g->frtag);
		for (s = 0; s < HIST + 1 - NBAD; s++) { uint32_t op = s == 0 ? sp : (uint32_t)vf_pick(0, 5); if (op < 5) read_op(op, g->f[op].nb * BS, 2); else read_op(1, BS - 3, 5); }
	} else if (mode == 2) {
		uint32_t nb = (INO.n + MDSZ - 1) / MDSZ, root = INO.n - 32, base;
		if (NBAD) { int one = 0; for (i = 0; i < nb; i++) bad_pick(img_ino_tags[i]); bad_pick(g->dtag); bad_pick(g->idtag); for (i = 0; i < VF_CODEC_MAX; i++) one += vf_codecs[i].bad; vf_assume(one <= 2); }
		base = is_bad(g->rtag) || is_bad(img_ino_tags[root / MDSZ]) || is_bad(img_ino_tags[(root + 31) / MDSZ]) || is_bad(g->dtag);
		if (!NBAD) for (s = 0; s < sp * 2; s++) stat_op((s * 5) % g->nf, 0);
		for (s = 0; s < 3; s++) { x = (uint32_t)vf_pick(0, g->nf - 1); stat_op(x, base || is_bad(img_ino_tags[g->f[x].off / MDSZ]) || is_bad(img_ino_tags[g->f[x].off / MDSZ + 1])); }
	} else if (mode == 3) {
		for (i = 0; i < 2; i++) { g = &G[i]; open_all(); bad_pick(g->f[0].tag[0]); bad_pick(g->f[1].tag[0]); bad_pick(g->f[0].ftag); }
		for (s = 0; s < HIST; s++) { uint32_t op = s == 0 ? sp : (uint32_t)vf_pick(0, 5); g = &G[op & 1]; op >>= 1; if (op == 0) read_op(0, 1, 3); else if (op == 1) read_op(1, 0, 4); else read_op(0, BS, BS + 2); }
		for (i = 0; i < 2; i++) { g = &G[i]; stat_op(sp & 1, 0); }
	} else { /* the caches stay within their size: reading everything again and again takes no more memory */
		int l0 = vf_live, l1 = 0;
		open_all();
		if (NBAD) for (x = 0; x < 3; x++) { bad_pick(g->f[x].tag[x & 1]); bad_pick(g->f[x].ftag); }
		l0 = vf_live;
		for (s = 0; s < 3; s++) {
			for (x = 0; x < 6; x++) { read_op((x * (sp + 1)) % 6, 3, BS); read_op((x + s) % 6, 2 * BS - 1, 3); stat_op(x, 0); }
			vf_assert(vf_live <= l0 + 2 * (8 + 1 + 3 + 8), "the caches hold no more than their stated number of blocks");
			if (s) vf_assert(vf_live <= l1 + 4, "repeating accesses takes no more memory");
			l1 = vf_live;
		}
		vf_reach("bounded");
	}
	for (i = 0; i <= (uint32_t)two; i++) { g = &G[i]; for (x = 0; x < g->nf; x++) if (g->f[x].fd) vf_assert(squash_close(g->f[x].fd) == 0, "close"); }
	if (two) sqfs_destroy(&G[1].fs);
	live = vf_live; (void)live;
	img_close_all(&G[0].fs);
	vf_end();
}
