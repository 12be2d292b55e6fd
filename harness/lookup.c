/* P11: a name is found exactly when the directory has it. */
#include "img.h"
#ifdef VF_THOROUGH
#define ML 3
#else
#define ML 2
#endif
static sqfs fs;
static struct { uint32_t len, off; uint8_t name[260]; } E[8];
static uint32_t NE;
static uint8_t q[300];
static int less(uint32_t a, uint32_t b) { /* E[a] sorts before E[b]: bytewise, a proper prefix first */
	uint32_t i, n = E[a].len < E[b].len ? E[a].len : E[b].len; int lt = 0, eq = 1;
	for (i = 0; i < n; i++) { lt |= eq & (E[a].name[i] < E[b].name[i]); eq &= E[a].name[i] == E[b].name[i]; }
	return lt | (eq & (E[a].len < E[b].len));
}
static int same(uint32_t a, uint32_t ql) { uint32_t i; int eq = E[a].len == ql; if (!eq) return 0; for (i = 0; i < ql; i++) eq &= E[a].name[i] == q[i]; return eq; }
static void build(uint32_t heads, uint32_t pad, uint32_t at, int ext) {
	uint32_t i, left = 0, root, dst;
	pad_to(&INO, at);
	for (i = 0; i < NE; i++) { img_mtime = 1000 + i; E[i].off = reg_inode(10 + i, 0, 0xffffffffu, 0, 0); }
	pad_to(&DIRS, pad);
	dst = DIRS.n;
	for (i = 0; i < NE; i++) {
		if (left == 0) { left = 1; while (i + left < NE && !((heads >> (i + left)) & 1) && E[i].off / MDSZ == E[i + left].off / MDSZ) left++; dir_header(left, E[i].off, 10); }
		left--;
		dir_entry(E[i].off, i, SQUASHFS_REG_TYPE, (char *)E[i].name, E[i].len);
	}
	root = ext ? ldir_inode(1, dst, DIRS.n - dst, 9, 0) : dir_inode(1, dst, DIRS.n - dst, 9);
	w32(&DIRS, 0x61616161);
	img_finish(root, NE + 1);
}
static void query(uint32_t ql) {
	uint32_t i; int want = -1; sqfs_inode in, start; sqfs_dir_entry e; sqfs_name nb; short found = 7; struct stat sb; char path[310]; int r;
	for (i = 0; i < NE; i++) if (same(i, ql)) want = i;
	vf_obs((uint64_t)(want + 1));
	vf_assert(sqfs_inode_get(&fs, &start, sqfs_inode_root(&fs)) == SQFS_OK, "root inode");
	in = start;
	sqfs_dentry_init(&e, nb);
	q[ql] = 'a'; q[ql + 1] = 0; /* the length decides, not what follows */
	vf_assert(sqfs_dir_lookup(&fs, &in, (char *)q, ql, &e, &found) == SQFS_OK, "a lookup in a sound directory does not fail");
	vf_assert(!found == (want < 0), "a name is found exactly when the directory has it");
	if (want >= 0) {
		vf_assert(sqfs_dentry_inode_num(&e) == 10u + want && sqfs_dentry_type(&e) == SQUASHFS_REG_TYPE && sqfs_dentry_name_size(&e) == ql && memcmp(sqfs_dentry_name(&e), q, ql) == 0, "the entry found is the one of that name");
		vf_reach("found");
	} else vf_reach("missing");
	q[ql] = 0;
	if (ql == 1 && q[0] == '.') return; /* dot components: P16 */
	if (ql == 2 && q[0] == '.' && q[1] == '.') return;
	path[0] = '/'; memcpy(path + 1, q, ql + 1);
	errno = vf_stale();
	r = squash_stat(&fs, path, &sb);
	vf_assert((r == 0) == (want >= 0), "a path is found exactly when the directory has its name");
	if (want >= 0) vf_assert(sb.st_mtime == 1000 + want, "the path names the inode of the entry"); else vf_assert(r == -1 && errno == ENOENT, "a missing name gives ENOENT");
}
void harness(void) {
	uint32_t mode = vf_split(3, 0), ql, i, j;
	if (mode == 0) { /* arbitrary names, every header split */
		uint32_t sp = vf_split(7, 1), n = sp == 0 ? 0 : sp < 3 ? 1 : sp < 5 ? 2 : 3;
		uint32_t mask = vf_split(4, 2);
		NE = n;
		for (i = 0; i < n; i++) {
			E[i].len = 1 + ((sp + i + (i == 2)) & 1);
			for (j = 0; j < E[i].len; j++) { E[i].name[j] = vf_u8(); vf_assume(E[i].name[j] != 0 && E[i].name[j] != '/'); }
			vf_assume(E[i].name[0] != '.');
			if (i) vf_assume(less(i - 1, i));
		}
		build(mask << 1, 0, 0, sp & 1);
		ql = (uint32_t)vf_pick(1, ML);
		for (i = 0; i < ql; i++) { q[i] = vf_u8(); vf_assume(q[i] != 0 && q[i] != '/'); }
	} else if (mode == 1) { /* prefixes, extensions, high bytes and upper case among many, across a block boundary */
		static const char *const names[8] = { "A", "a", "aa", "aab", "ab", "b", "ba\xff", "\xc3\xa4" };
		uint32_t sp = vf_split(7, 1), mask = vf_split(4, 2);
		NE = 8;
		for (i = 0; i < 8; i++) { E[i].len = strlen(names[i]); memcpy(E[i].name, names[i], E[i].len); }
		dir_comp = mask;
		build(mask == 0 ? 0 : mask == 1 ? 0xfe : mask == 2 ? 0x14 : 0x88, MDSZ - 12 * sp - (uint32_t)vf_pick(0, 11), (sp & 1) ? MDSZ - 40 : 0, sp & 1);
		ql = (uint32_t)vf_pick(1, 3);
		for (i = 0; i < ql; i++) { q[i] = vf_u8(); vf_assume(q[i] != 0 && q[i] != '/'); }
	} else { /* the longest names */
		uint32_t sp = vf_split(7, 1), cut = vf_split(4, 2);
		NE = 2;
		E[0].len = 250 + (sp > 5 ? 5 : sp); E[1].len = 256 - (sp & 1);
		for (j = 0; j < 256; j++) E[0].name[j] = E[1].name[j] = 'k';
		E[1].name[0] = 'l';
		build(2, 0, 0, 0);
		ql = E[sp & 1].len - 1 + (cut & 3) % 3;
		for (j = 0; j < ql; j++) q[j] = 'k';
		q[0] = vf_u8(); q[ql - 1] = vf_u8();
		vf_assume(q[0] != 0 && q[0] != '/' && q[ql - 1] != 0 && q[ql - 1] != '/' && ql <= 256);
		vf_reach("long");
	}
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	query(ql);
	vf_assert(vf_locks_held == 0, "no lock is held");
	vf_end();
}
