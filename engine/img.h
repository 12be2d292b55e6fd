/* Builds well-formed squashfs 4.0 images in memory, from the on-disk format, without using
 * any code of the library.  Contents may be symbolic. */
#ifndef IMG_H
#define IMG_H
#include "vf.h"
#ifndef IMG_MAX
#define IMG_MAX 65536
#endif
#define MDSZ 8192
#ifdef VF_RO /* the image lies in memory that can only be read and ends where it ends */
#define IMG_PAGES ((IMG_MAX + 4095) / 4096 * 4096)
static uint8_t IMGBUF[IMG_PAGES] __attribute__((aligned(4096)));
#define sqfs_open_image(f, i, o) (vf_protect(IMGBUF, IMG_PAGES, (size_t)(IMG - IMGBUF) + img_end), sqfs_open_image(f, i, o))
#else
static uint8_t IMGBUF[IMG_MAX];
#endif
static uint8_t *IMG = IMGBUF;     /* start of the image (embedding offset applied by the harness) */
static uint32_t img_end = 96;     /* next free byte */
struct stream { uint8_t *b; uint32_t n, cap; };
static uint8_t ino_mem[
#ifdef INO_CAP
INO_CAP
#else
20000
#endif
], dir_mem[
#ifdef DIR_CAP
DIR_CAP
#else
20000
#endif
];
static struct stream INO = { ino_mem, 0, sizeof ino_mem }, DIRS = { dir_mem, 0, sizeof dir_mem };
static void w8(struct stream *s, uint64_t v) { if (s->n >= s->cap) vf_fail_("image builder: stream full"); s->b[s->n++] = (uint8_t)v; }
static void w16(struct stream *s, uint64_t v) { uint16_t x = (uint16_t)v; if (s->n + 2 > s->cap) vf_fail_("image builder: stream full"); memcpy(s->b + s->n, &x, 2); s->n += 2; }
static void w32(struct stream *s, uint64_t v) { uint32_t x = (uint32_t)v; if (s->n + 4 > s->cap) vf_fail_("image builder: stream full"); memcpy(s->b + s->n, &x, 4); s->n += 4; }
static void w64(struct stream *s, uint64_t v) { if (s->n + 8 > s->cap) vf_fail_("image builder: stream full"); memcpy(s->b + s->n, &v, 8); s->n += 8; }
static void wstr(struct stream *s, const char *p, uint32_t n) { if (s->n + n > s->cap) vf_fail_("image builder: stream full"); memcpy(s->b + s->n, p, n); s->n += n; }
static void pad_to(struct stream *s, uint32_t n) { while (s->n < n) s->b[s->n++] = 0xEE; }
static void i16(uint32_t o, uint64_t v) { uint16_t x = (uint16_t)v; memcpy(IMG + o, &x, 2); }
static void i32(uint32_t o, uint64_t v) { uint32_t x = (uint32_t)v; memcpy(IMG + o, &x, 4); }
static void i64(uint32_t o, uint64_t v) { memcpy(IMG + o, &v, 8); }
static uint32_t img_alloc(uint32_t n) { uint32_t o = img_end; img_end += n; if (IMG + img_end > IMGBUF + IMG_MAX) vf_fail_("image builder: image full"); return o; }

/* which metadata blocks are stored compressed: bit k = k-th block of the table */
static uint32_t ino_comp, dir_comp;
static uint32_t ncodec = 1;
static uint32_t put_compressed(const uint8_t *p, uint32_t n) { /* data block stored through the codec model; 4 bytes on disk */
	uint32_t o = img_alloc(4), t = ncodec++;
	if (t >= VF_CODEC_MAX) vf_fail_("image builder: too many compressed blocks");
	vf_codecs[t].data = p; vf_codecs[t].len = n; vf_codecs[t].bad = 0;
	IMG[o] = 0xC0; IMG[o + 1] = t; IMG[o + 2] = 0x11; IMG[o + 3] = 0x22;
	return o;
}
/* on-disk position, relative to the table start, of the metadata block holding stream offset off */
static uint32_t mdrel(uint32_t comp, uint32_t off) { uint32_t k = off / MDSZ, r = 0, i; for (i = 0; i < k; i++) r += ((comp >> i) & 1) ? 6 : MDSZ + 2; return r; }
static uint64_t md_ref(uint32_t comp, uint32_t off) { return ((uint64_t)mdrel(comp, off) << 16) | (off % MDSZ); }
static uint64_t ino_ref(uint32_t off) { return md_ref(ino_comp, off); }
static uint8_t img_tags[64]; /* codec tags of the blocks the last put_stream compressed */
static uint32_t put_stream(struct stream *s, uint32_t comp) {
	uint32_t start = img_end, k = 0, off = 0;
	do {
		uint32_t n = s->n - off, h; if (n > MDSZ) n = MDSZ;
		if (n == 0) break;
		h = img_alloc(2);
		if ((comp >> k) & 1) { i16(h, 4); if (k < 64) img_tags[k] = ncodec; put_compressed(s->b + off, n); }
		else { uint32_t d = img_alloc(n); i16(h, 0x8000 | n); memcpy(IMG + d, s->b + off, n); }
		off += n; k++;
	} while (off < s->n);
	return start;
}
static uint32_t img_mtime = 100; /* modification time of the inodes that follow */
/* inode bodies: each returns the offset in the inode stream */
static uint32_t inode_base(int type, uint64_t mode, uint64_t uid, uint64_t gid, uint64_t mtime, uint64_t num) {
	uint32_t o = INO.n; w16(&INO, type); w16(&INO, mode); w16(&INO, uid); w16(&INO, gid); w32(&INO, mtime); w32(&INO, num); return o;
}
static uint32_t reg_inode(uint64_t num, uint64_t start, uint64_t frag, uint64_t fragoff, uint64_t size) { /* block list is appended by the caller */
	uint32_t o = inode_base(SQUASHFS_REG_TYPE, 0644, 0, 0, img_mtime, num); w32(&INO, start); w32(&INO, frag); w32(&INO, fragoff); w32(&INO, size); return o;
}
static uint32_t lreg_inode(uint64_t num, uint64_t start, uint64_t frag, uint64_t fragoff, uint64_t size) {
	uint32_t o = inode_base(SQUASHFS_LREG_TYPE, 0644, 0, 0, img_mtime, num); w64(&INO, start); w64(&INO, size); w64(&INO, 0); w32(&INO, 1); w32(&INO, frag); w32(&INO, fragoff); w32(&INO, -1); return o;
}
static uint64_t img_link_size; /* the stored size of the target, if not 0: may be symbolic, and not that of the data */
static uint32_t symlink_inode(uint64_t num, const char *target, uint32_t n) {
	uint32_t o = inode_base(SQUASHFS_SYMLINK_TYPE, 0777, 0, 0, img_mtime, num); w32(&INO, 1); w32(&INO, img_link_size ? img_link_size : n); wstr(&INO, target, n); return o;
}
/* directory inode for a listing at DIRS offset dstart, dsize bytes long */
static uint32_t dir_inode(uint64_t num, uint32_t dstart, uint32_t dsize, uint64_t parent) {
	uint32_t o = inode_base(SQUASHFS_DIR_TYPE, 0755, 0, 0, img_mtime, num);
	w32(&INO, mdrel(dir_comp, dstart)); w32(&INO, 2); w16(&INO, dsize + 3); w16(&INO, dstart % MDSZ); w32(&INO, parent); return o;
}
static uint32_t ldir_inode(uint64_t num, uint32_t dstart, uint32_t dsize, uint64_t parent, uint32_t icount) { /* index entries appended by the caller */
	uint32_t o = inode_base(SQUASHFS_LDIR_TYPE, 0755, 0, 0, img_mtime, num);
	w32(&INO, 2); w32(&INO, dsize + 3); w32(&INO, mdrel(dir_comp, dstart)); w32(&INO, parent); w16(&INO, icount); w16(&INO, dstart % MDSZ); w32(&INO, -1); return o;
}
/* directory listing pieces */
static void dir_header(uint32_t count, uint32_t ino_off, uint64_t basenum) { w32(&DIRS, count - 1); w32(&DIRS, mdrel(ino_comp, ino_off)); w32(&DIRS, basenum); }
static void dir_entry(uint32_t ino_off, int dnum, int type, const char *name, uint32_t n) { w16(&DIRS, ino_off % MDSZ); w16(&DIRS, dnum); w16(&DIRS, type); w16(&DIRS, n - 1); wstr(&DIRS, name, n); }

static uint32_t img_blocksize = 8, img_nfrag, img_nids = 1;
static struct { uint64_t start; uint32_t size; } img_frag[8];
static uint64_t img_export_start = ~0ull;
static uint32_t img_idval = 1000;
static uint32_t img_tab_comp; /* bit 0: id table, bit 1: fragment table stored compressed */
static uint8_t img_tabbuf[256], *img_tabmem = img_tabbuf, img_ino_tags[64], img_dir_tags[64], img_id_tag, img_frag_tag;
/* write everything after the data area; root = inode stream offset of the root directory */
static void img_finish(uint32_t root, uint32_t inodes) {
	uint32_t ino, dir, fr = 0, id, o, i;
	ino = put_stream(&INO, ino_comp); memcpy(img_ino_tags, img_tags, 64);
	dir = put_stream(&DIRS, dir_comp); memcpy(img_dir_tags, img_tags, 64);
	if (img_nfrag && (img_tab_comp & 2)) {
		uint32_t md = img_alloc(2), k;
		for (k = 0; k < img_nfrag; k++) { uint64_t st = img_frag[k].start; memcpy(img_tabmem + 64 + 16 * k, &st, 8); memcpy(img_tabmem + 64 + 16 * k + 8, &img_frag[k].size, 4); }
		i16(md, 4); img_frag_tag = ncodec; put_compressed(img_tabmem + 64, 16 * img_nfrag);
		fr = img_alloc(8); i64(fr, md);
	} else if (img_nfrag) {
		uint32_t md = img_alloc(2 + 16 * img_nfrag);
		i16(md, 0x8000 | (16 * img_nfrag));
		for (i = 0; i < img_nfrag; i++) { i64(md + 2 + 16 * i, img_frag[i].start); i32(md + 2 + 16 * i + 8, img_frag[i].size); i32(md + 2 + 16 * i + 12, 0); }
		fr = img_alloc(8); i64(fr, md);
	}
	if (img_tab_comp & 1) { o = img_alloc(2); i16(o, 4); memcpy(img_tabmem, &img_idval, 4); img_id_tag = ncodec; put_compressed(img_tabmem, 4); }
	else { o = img_alloc(2 + 4); i16(o, 0x8000 | 4); i32(o + 2, img_idval); }
	id = img_alloc(8); i64(id, o);
	i32(0, SQUASHFS_MAGIC); i32(4, inodes); i32(8, 100); i32(12, img_blocksize); i32(16, img_nfrag);
	{ uint32_t log = 0; while ((1u << log) < img_blocksize) log++; i16(20, 1); i16(22, log); }
	 i16(24, 0); i16(26, img_nids); i16(28, 4); i16(30, 0);
	i64(32, ino_ref(root)); i64(40, img_end); i64(48, id); i64(56, ~0ull); i64(64, ino); i64(72, dir);
	i64(80, img_nfrag ? fr : ~0ull); i64(88, img_export_start);
}
#define UNC 0x1000000u
/* closes the image and the library: nothing may be left on the heap */
extern void (*vf_atexit_fn[4])(void);
extern int vf_atexit_n;
static void img_close_all(sqfs *fs) {
	int i;
	sqfs_destroy(fs);
	for (i = 0; i < vf_atexit_n; i++) vf_atexit_fn[i]();
	vf_assert(vf_locks_held == 0, "no lock is held in the end");
	vf_assert(vf_live == 0, "all memory is returned in the end");
}
#endif
