/* P10, P11, P12, P13, P14, P15: tables and listings of the sizes images have: inode and
 * directory tables beyond 64 KiB, a listing longer than 64 KiB, inode numbers beyond 16 bits,
 * headers with the most entries they can have. */
#define IMG_MAX 400000
#define INO_CAP 120000
#define DIR_CAP 200000
#include "img.h"
#define ME 620
void vf_r_free(void *);
static sqfs fs;
static struct { uint32_t len, off, pos, next, num; uint8_t type; char name[132]; } E[ME];
static uint32_t NE, NH, hpos[40], hent[40], dst, dsz, isplain, iindexed, isub, sel_bit;
#define BASE 70000u
static void name(uint32_t i) { /* in order; some bytes are arbitrary */
	char *s = E[i].name; uint32_t j, l = 110 + i % 20;
	s[0] = 'n'; s[1] = '0' + i / 100; s[2] = '0' + i / 10 % 10; s[3] = '0' + i % 10;
	for (j = 4; j < l; j++) s[j] = 'a' + (i + j) % 26;
	if (i == 0 || i == 255 || i == 256 || i == 257 || i == 511 || i == 512 || i == 599) { s[l - 1] = vf_u8(); vf_assume(s[l - 1] != 0 && s[l - 1] != '/'); }
	s[l] = 0; E[i].len = l;
}
static void listing(uint32_t n) { /* as mksquashfs groups them: a new header after 256 entries, or when the inode block changes */
	uint32_t i, k;
	dst = DIRS.n; NE = n;
	for (i = 0; i < n; ) {
		for (k = 1; i + k < n && k < 256 && E[i + k].off / MDSZ == E[i].off / MDSZ; k++) ;
		hpos[NH] = DIRS.n - dst; hent[NH++] = i;
		dir_header(k, E[i].off, E[i].num);
		for (; k; k--, i++) { E[i].pos = DIRS.n - dst; dir_entry(E[i].off, (int)(E[i].num - E[hent[NH - 1]].num), E[i].type, E[i].name, E[i].len); E[i].next = DIRS.n - dst; }
	}
	dsz = DIRS.n - dst;
}
static int calls;
static int sel(const struct dirent *e) { uint32_t i = (uint32_t)e->d_ino - BASE; vf_assert(i < NE && memcmp(e->d_name, E[i].name, E[i].len + 1) == 0, "the selector sees the stored entries"); calls++; return sel_bit == 2 ? 1 : (i & 1) == sel_bit; }
static int same(struct dirent *e, uint32_t i) { return e && e->d_ino == E[i].num && memcmp(e->d_name, E[i].name, E[i].len + 1) == 0 && e->d_type == (E[i].type == SQUASHFS_DIR_TYPE ? DT_DIR : DT_REG); }
void harness(void) {
	uint32_t mode = vf_split(6, 0), sp = vf_split(4, 1), i, j, root, cnt = 0, selh[16]; sqfs_inode plain, idx; SQUASH_DIR *d; sqfs_dir_entry e1; sqfs_name n1; short f1; sqfs_err er; struct stat sb; uint32_t at;
	ino_comp = sp & 1 ? 0x0b5a : 0; dir_comp = sp & 2 ? 0x2a6d5 : 0;
	pad_to(&INO, 69000 + (sp == 3 ? 5 : 0));
	/* a small directory, far in its table too */
	pad_to(&DIRS, 66000);
	for (i = 0; i < 600; i++) { uint32_t k = mode == 5 ? 0 : i; /* what the entries lead to; all the same in one mode, so that every header is full */
		name(i);
		if (i == 300 && mode != 5) { uint32_t s = DIRS.n, f; img_mtime = 1999; f = reg_inode(5, 0, 0xffffffffu, 0, 0); dir_header(1, f, 5); dir_entry(f, 0, SQUASHFS_REG_TYPE, "in", 2); E[i].num = BASE + i; E[i].type = SQUASHFS_DIR_TYPE; img_mtime = 1300; isub = E[i].off = dir_inode(BASE + i, s, DIRS.n - s, BASE - 1); }
		else { E[i].num = BASE + i; E[i].type = SQUASHFS_REG_TYPE; img_mtime = 1000 + i; E[i].off = k == i ? reg_inode(BASE + i, 0, 0xffffffffu, 0, 0) : E[0].off; }
	}
	listing(600);
	vf_assert(dsz > 65536, "harness: the listing is long");
	isplain = ldir_inode(BASE - 1, dst, dsz, BASE - 2, 0);
	for (i = 1, j = dst / MDSZ; i < NH && cnt < 16; i++) if ((dst + hpos[i]) / MDSZ != j) { j = (dst + hpos[i]) / MDSZ; selh[cnt++] = i; }
	iindexed = ldir_inode(BASE - 1, dst, dsz, BASE - 2, cnt);
	for (i = 0; i < cnt; i++) { uint32_t h = selh[i], l = E[hent[h]].len; w32(&INO, hpos[h]); w32(&INO, mdrel(dir_comp, dst + hpos[h])); w32(&INO, l - 1); wstr(&INO, E[hent[h]].name, l); }
	root = sp & 1 ? iindexed : isplain;
	img_finish(root, 602);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
	vf_assert(sqfs_inode_get(&fs, &plain, ino_ref(isplain)) == SQFS_OK && sqfs_inode_get(&fs, &idx, ino_ref(iindexed)) == SQFS_OK, "inodes far in their table are found");
	switch (mode) {
	case 0: case 5: /* listed, with a place remembered and returned to */
		d = squash_opendir(&fs, "/");
		vf_assert(d != NULL, "an existing directory opens");
		{ static const uint16_t marks[6] = { 0, 1, 255, 500, 599, 600 }; uint32_t m = marks[vf_pick(0, 5)]; long tok = -1;
		for (i = 0; i < NE; i++) { if (i == m) tok = squash_telldir(d); vf_assert(same(squash_readdir(d), i), "a long listing yields every entry once, in order"); }
		if (m == NE) tok = squash_telldir(d);
		errno = 0; vf_assert(squash_readdir(d) == NULL && errno == 0, "a long listing ends");
		squash_seekdir(d, tok);
		for (i = m; i < NE && i < m + 3; i++) vf_assert(same(squash_readdir(d), i), "reading resumes at a remembered place of a long listing");
		if (m + 3 > NE) vf_assert(squash_readdir(d) == NULL, "a long listing ends again");
		squash_rewinddir(d);
		vf_assert(same(squash_readdir(d), 0), "a long listing is rewound");
		}
		vf_assert(squash_closedir(d) == 0, "closedir");
		vf_reach("listed");
		break;
	case 1: { /* looked up */
		static const uint16_t which[6] = { 0, 255, 256, 300, 512, 599 }; char q[140]; uint32_t w = which[vf_pick(0, 5)], n = E[w].len; int want = -1;
		memcpy(q, E[w].name, n + 1);
		at = (uint32_t)vf_pick(0, 2);
		if (at) { uint32_t x = at == 2 ? n - 1 : 2; q[x] = (char)vf_u8(); vf_assume(q[x] != 0 && q[x] != '/'); }
		for (i = 0; i < NE; i++) if (E[i].len == n && memcmp(E[i].name, q, n) == 0) want = (int)i;
		for (i = 0; i < 2; i++) {
			sqfs_dentry_init(&e1, n1); f1 = 5;
			vf_assert(sqfs_dir_lookup(&fs, i ? &idx : &plain, q, n, &e1, &f1) == SQFS_OK, "a lookup in a long listing does not fail");
			vf_assert(!f1 == (want < 0), "a name is found exactly when the long listing has it");
			if (want >= 0) vf_assert(sqfs_dentry_inode_num(&e1) == E[want].num && sqfs_dentry_inode(&e1) == ino_ref(E[want].off) && sqfs_dentry_type(&e1) == E[want].type, "the entry of that name is found in a long listing");
		}
		{ char p[150]; int r; p[0] = '/'; memcpy(p + 1, q, n + 1); errno = 0;
		r = squash_stat(&fs, p, &sb);
		vf_assert(want < 0 ? r == -1 && errno == ENOENT : r == 0 && sb.st_mtime == 1000 + want, "stat of a name in a long listing");
		if (want == 300) { memcpy(p + 1 + n, "/in", 4); vf_assert(squash_stat(&fs, p, &sb) == 0 && sb.st_mtime == 1999 && S_ISREG(sb.st_mode), "a path goes through a directory far in its table"); }
		}
		if (want < 0) vf_reach("missing"); else vf_reach("found");
		break; }
	case 2: { /* scandir */
		struct dirent **l = 0; int r; uint32_t k = 0;
		sel_bit = (uint32_t)vf_pick(0, 2);
		r = squash_scandir(&fs, "/", &l, sel, NULL);
		vf_assert(r == (sel_bit == 2 ? 600 : 300) && calls == 600, "scandir returns the selected entries of a long listing");
		for (i = 0; i < NE; i++) if (sel_bit == 2 || (i & 1) == sel_bit) { vf_assert(same(l[k], i), "scandir keeps the order of a long listing"); vf_r_free(l[k++]); }
		vf_r_free(l);
		vf_reach("scanned");
		break; }
	case 4: { /* traversed */
		sqfs_traverse t; int stop = (int)vf_pick(0, 1) ? 450 : -1; short more; uint32_t k = 0, in_sub = 0;
		memset(&t, 0x5a, sizeof t);
		vf_assert(sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs)) == SQFS_OK, "traversal opens");
		while ((more = sqfs_traverse_next(&t, &er))) {
			if (in_sub) { /* within the subdirectory, then its end */
				char w[140]; memcpy(w, E[300].name, E[300].len); memcpy(w + E[300].len, "/in", 4);
				if (in_sub == 1) { vf_assert(!t.dir_end && strcmp(t.path, w) == 0 && sqfs_dentry_inode_num(&t.entry) == 5, "traversal descends into a directory far in its table"); in_sub = 2; }
				else { vf_assert(t.dir_end && strcmp(t.path, E[300].name) == 0, "traversal reports the end of the directory"); in_sub = 0; vf_reach("subdirectory"); }
				continue;
			}
			vf_assert(k < NE && !t.dir_end && sqfs_dentry_inode_num(&t.entry) == E[k].num && strcmp(t.path, E[k].name) == 0, "traversal visits every entry of a long listing in order");
			if (k == 300) in_sub = 1;
			if ((int)k == stop) break;
			k++;
		}
		vf_assert(er == SQFS_OK && (stop < 0 ? k == NE : (int)k == stop), "traversal ends after the last entry");
		sqfs_traverse_close(&t);
		vf_reach("traversed");
		break; }
	}
	if (mode == 3) { /* opened at a position */
		sqfs_dir dd; uint32_t p, k = (uint32_t)vf_pick(0, 5); int want = -1; static const uint16_t es[6] = { 1, 255, 256, 400, 510, 599 };
		p = E[es[k]].pos + (uint32_t)vf_pick(0, 1);
		for (i = 0; i < NE; i++) if (E[i].pos == p) want = (int)i;
		for (j = 0; j < 2; j++) {
			er = sqfs_dir_open(&fs, j ? &idx : &plain, &dd, p);
			vf_assert((er == SQFS_OK) == (want >= 0), "a long listing opens at exactly the offsets of its entries");
			if (er) continue;
			sqfs_dentry_init(&e1, n1);
			for (i = (uint32_t)want; i < NE && i < (uint32_t)want + 3; i++) {
				vf_assert(sqfs_dir_next(&fs, &dd, &e1, &er) && er == SQFS_OK && sqfs_dentry_inode_num(&e1) == E[i].num, "reading resumes at the position");
				vf_assert(sqfs_dentry_offset(&e1) == E[i].pos && sqfs_dentry_next_offset(&e1) == E[i].next, "entries of a long listing report their positions");
			}
		}
	}
	if (mode == 3) vf_reach("opened");
	img_close_all(&fs);
	vf_end();
}
