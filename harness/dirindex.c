/* P12: the directory index changes speed only. */
#define DIR_CAP 40000
#include "img.h"
#define ME 180
static sqfs fs;
static struct { uint32_t len, off, pos, next; char name[220]; } E[ME]; /* pos, next: offsets in the listing before and after the entry */
static uint32_t NE, NH, hpos[40], hent[40], dst;
static uint8_t q[300];
static void group(char g, uint32_t big, uint32_t heads) { /* names g, g.., gc000 .. and gx; heads: entries per header */
	uint32_t i, j, n = big + 3, k = 0;
	for (i = 0; i < n; i++) {
		char *s = E[NE].name; uint32_t l;
		s[0] = g;
		if (i == 0) l = 1; else if (i == 1) { s[1] = 'b'; l = 2; } else if (i == n - 1) { s[1] = 'x'; l = 2; }
		else { s[1] = 'c'; s[2] = 'a' + i / 26; s[3] = 'a' + i % 26; for (j = 4; j < 200; j++) s[j] = 'z'; l = 200; }
		E[NE].len = l;
		E[NE].pos = DIRS.n - dst;
		if (k == 0) { k = heads < n - i ? heads : n - i; hpos[NH] = DIRS.n - dst; hent[NH++] = NE; dir_header(k, E[0].off, 10); }
		k--;
		dir_entry(E[0].off, NE, SQUASHFS_REG_TYPE, s, l);
		E[NE].next = DIRS.n - dst;
		NE++;
	}
}
static uint32_t isplain, iindexed;
/* cmp: is the looked-up name entry i? */
static int find(uint32_t ql) { uint32_t i, j; for (i = 0; i < NE; i++) { if (E[i].len != ql) continue; for (j = 0; j < ql && E[i].name[j] == (char)q[j]; j++) ; if (j == ql) return i; } return -1; }
void harness(void) {
	uint32_t mode = vf_split(4, 0), shape = vf_split(4, 1), which = vf_split(3, 2), i, j, dsz, heads, n, cnt = 0; sqfs_inode plain, idx; uint32_t sel[3] = { 0, 0, 0 };
	dir_comp = shape & 1 ? 5 : 0;
	E[0].off = reg_inode(10, 0, 0xffffffffu, 0, 0);
	pad_to(&DIRS, shape == 0 ? 0 : shape == 1 ? 5000 : shape == 2 ? MDSZ - 6 : MDSZ + 13);
	dst = DIRS.n;
	heads = shape == 2 ? 5 : 30;
	for (i = 0; i < 4; i++) group((char)('d' + i), i == 2 ? 3 : 26, heads);
	dsz = DIRS.n - dst;
	isplain = ldir_inode(1, dst, dsz, 9, 0);
	/* the index names headers: those first in their metadata block (as mksquashfs does), or any three */
	if (which < 2) {
		uint32_t last = dst / MDSZ;
		for (i = 1; i < NH && cnt < 3; i++) if ((dst + hpos[i]) / MDSZ != last) { last = (dst + hpos[i]) / MDSZ; sel[cnt++] = i; }
		if (which == 1 && cnt > 1) cnt--;
	} else { sel[0] = 1; sel[1] = NH / 2; sel[2] = NH - 1; cnt = 3; }
	iindexed = ldir_inode(1, dst, dsz, 9, cnt);
	for (i = 0; i < cnt; i++) {
		uint32_t h = sel[i], l = E[hent[h]].len;
		w32(&INO, hpos[h]); w32(&INO, mdrel(dir_comp, dst + hpos[h])); w32(&INO, l - 1); wstr(&INO, E[hent[h]].name, l);
	}
	w32(&INO, 0x7a7a7a7a);
	w32(&DIRS, 0x61616161);
	img_finish(iindexed, NE);
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(sqfs_inode_get(&fs, &plain, ino_ref(isplain)) == SQFS_OK && sqfs_inode_get(&fs, &idx, ino_ref(iindexed)) == SQFS_OK, "inodes");
	vf_assert(cnt > 0, "harness: an index");
	if (mode < 2) { /* look up: short arbitrary names; stored names with one byte changed */
		sqfs_dir_entry e1, e2; sqfs_name n1, n2; short f1 = 5, f2 = 6; sqfs_err r1, r2; int want;
		if (mode == 0) { n = (uint32_t)vf_pick(1, 3); for (i = 0; i < n; i++) { q[i] = vf_u8(); vf_assume(q[i] != 0 && q[i] != '/'); } }
		else {
			uint32_t near = (uint32_t)vf_pick(0, 2 * cnt), at; /* an entry next to an indexed one */
			i = near == 2 * cnt ? NE - 1 : hent[sel[near / 2]] - (near & 1);
			n = E[i].len; memcpy(q, E[i].name, n);
			at = (uint32_t)vf_pick(0, 2); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
			q[at] = vf_u8(); vf_assume(q[at] != 0 && q[at] != '/');
		}
		q[n] = 0;
		want = find(n);
		sqfs_dentry_init(&e1, n1); sqfs_dentry_init(&e2, n2);
		r1 = sqfs_dir_lookup(&fs, &plain, (char *)q, n, &e1, &f1);
		r2 = sqfs_dir_lookup(&fs, &idx, (char *)q, n, &e2, &f2);
		vf_assert(r1 == SQFS_OK && r2 == SQFS_OK, "a lookup in a sound directory does not fail");
		vf_assert(!f1 == (want < 0), "without an index a name is found exactly when the directory has it");
		vf_assert(!f2 == (want < 0), "with an index a name is found exactly when the directory has it");
		if (want >= 0) {
			vf_assert(sqfs_dentry_inode_num(&e1) == 10u + want, "without an index the entry of that name is found");
			vf_assert(sqfs_dentry_inode_num(&e2) == 10u + want && sqfs_dentry_name_size(&e2) == n && memcmp(sqfs_dentry_name(&e2), q, n) == 0, "with an index the entry of that name is found");
			vf_reach("found");
		} else vf_reach("missing");
	} else { /* open at a position */
		sqfs_dir d; sqfs_dir_entry e; sqfs_name nb; sqfs_err er; uint32_t pos, k; int want = -1;
		if (mode == 2) { /* every entry; the end */
			uint32_t t = which == 2 ? NE : NE / 3 * 2;
			k = (uint32_t)vf_pick(which == 0 ? 0 : NE / 3 * (which), t);
			pos = k == NE ? dsz : E[k].pos;
		} else { /* anything near an indexed header */
			i = (uint32_t)vf_pick(0, cnt - 1);
			pos = hpos[sel[i]] + (uint32_t)vf_pick(0, 46) - 16;
		}
		for (i = 0; i < NE; i++) if (E[i].pos == pos) want = i;
		if (pos == dsz) want = NE;
		for (j = 0; j < 2; j++) {
			sqfs_inode *in = j ? &idx : &plain;
			er = sqfs_dir_open(&fs, in, &d, pos);
			vf_assert((er == SQFS_OK) == (want >= 0), "a directory opens at exactly the offsets of its entries");
			if (er != SQFS_OK) { vf_reach("refused"); continue; }
			sqfs_dentry_init(&e, nb);
			for (i = want; i < NE && i < (uint32_t)want + 3; i++) {
				vf_assert(sqfs_dir_next(&fs, &d, &e, &er) && er == SQFS_OK, "reading resumes at the position");
				vf_assert(sqfs_dentry_inode_num(&e) == 10 + i && sqfs_dentry_name_size(&e) == E[i].len && memcmp(sqfs_dentry_name(&e), E[i].name, E[i].len) == 0, "reading resumes with that entry");
				vf_assert(sqfs_dentry_offset(&e) == E[i].pos && sqfs_dentry_next_offset(&e) == E[i].next, "entries report their positions");
			}
			if (want + 3u > NE) vf_assert(!sqfs_dir_next(&fs, &d, &e, &er) && er == SQFS_OK, "reading ends at the end");
			vf_reach("resumed");
		}
	}
	vf_assert(vf_locks_held == 0, "no lock is held");
	vf_end();
}
