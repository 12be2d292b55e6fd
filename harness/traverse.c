/* P15: traversal visits every descendant once, in order, with its path and end marks. */
#define MAXN 48
#include "tree.h"
#ifdef VF_THOROUGH
#define MN 6
#else
#define MN 5
#endif
static sqfs fs;
static char nm[MAXN][260];
static struct { int node, end; uint32_t skip, plen; char path[1300]; } ev[2 * MAXN];
static uint32_t nev;
static int has_child(int i) { int j; for (j = 1; j < NN; j++) if (N[j].parent == i) return 1; return 0; }
static void expect(int dir, const char *pre, uint32_t plen) {
	int j;
	for (j = 1; j < NN; j++) if (N[j].parent == dir) {
		uint32_t me = nev++, l = plen;
		memcpy(ev[me].path, pre, plen);
		if (plen) ev[me].path[l++] = '/';
		memcpy(ev[me].path + l, N[j].name, N[j].nlen); l += N[j].nlen; ev[me].path[l] = 0; ev[me].plen = l;
		ev[me].node = j; ev[me].end = 0;
		if (N[j].type == T_DIR) {
			uint32_t e;
			expect(j, ev[me].path, l);
			e = nev++;
			ev[e].node = j; ev[e].end = 1; ev[e].plen = l; memcpy(ev[e].path, ev[me].path, l + 1);
		}
		ev[me].skip = nev;
	}
}
static int name(int i, uint32_t len) { uint32_t k; for (k = 0; k < len; k++) nm[i][k] = k == 0 ? 'a' + i : '0' + (char)(k % 10); if (len > 1) { nm[i][len - 1] = (char)vf_u8(); vf_assume(nm[i][len - 1] != 0 && nm[i][len - 1] != '/'); } nm[i][len] = 0; return i; }
static void add2(int parent, int type, uint32_t len) { int i = NN; name(i, len); if (type == T_DIR) add(parent, T_DIR, nm[i]); else if (type == T_REG) add_file(parent, nm[i], "x", 1); else if (type == T_LNK) add_link(parent, nm[i], "a", 1); else add(parent, T_FIFO, nm[i]); N[i].nlen = len; }
void harness(void) {
	uint32_t mode = vf_split(4, 0), sp = vf_split(6, 1), sq = vf_split(4, 2), i, k, start = 0, stop = 0xffffffffu, steps = 0; sqfs_traverse t; sqfs_err er; sqfs_inode in; int live;
	memset(&t, 0x5a, sizeof t); /* the caller's structure holds anything */
	add(-1, T_DIR, "");
	if (mode == 0) { /* every shape */
		uint32_t n = sp >= MN ? MN : sp;
		for (i = 1; i <= n; i++) {
			int p = i == 1 ? 0 : (int)vf_pick(0, i - 1), ty;
			ty = (int)vf_pick(0, 1) ? T_DIR : i % 3 == 0 ? T_REG : i % 3 == 1 ? T_LNK : T_FIFO;
			if (i == 2 && (int)sq >= 0) { if (p != (int)(sq & 1) || (ty == T_DIR) != (int)(sq >> 1)) vf_stop(); }
			if (N[p].type != T_DIR) vf_stop();
			add2(p, ty, 1 + (i & 1));
		}
		if (n < 2 && sq) vf_stop();
	} else if (mode == 1) { /* deep */
		uint32_t depth = sp * 3 + sq + 1;
		for (i = 0; i < depth; i++) add2(i, T_DIR, i % 3 + 1);
		add2(depth, T_REG, 2);
		add2(0, T_DIR, 3);
		add2(depth / 2, T_LNK, 1);
	} else if (mode == 2) { /* path lengths around the sizes the buffer may have */
		static const uint16_t a[6] = { 1, 10, 29, 30, 31, 62 }, b[4] = { 1, 31, 200, 255 };
		add2(0, T_DIR, a[sp]);
		add2(1, T_DIR, b[sq]);
		add2(2, T_REG, 1 + (uint32_t)vf_pick(0, 3) * 31);
		add2(1, T_REG, 2);
		add2(0, T_DIR, 3);
		add2(0, T_REG, 255);
	} else { /* start anywhere; close anywhere; the same structure again */
		add2(0, T_DIR, 1); add2(1, T_REG, 2); add2(1, T_DIR, 1); add2(3, T_REG, 1); add2(0, T_DIR, 2); add2(0, T_REG, 1);
		start = sp == 0 ? 0 : sp == 1 ? 1 : sp == 2 ? 3 : sp == 3 ? 5 : 0;
		stop = (uint32_t)vf_pick(0, 12);
	}
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	expect(start, "", 0);
	live = vf_live;
	if (mode == 3 && sp == 4) { /* not a directory */
		vf_assert(sqfs_traverse_open(&t, &fs, ino_ref(N[2].off)) != SQFS_OK, "only directories can be traversed");
		vf_reach("refused");
		goto done;
	}
	if (sq & 1) vf_assert(sqfs_traverse_open(&t, &fs, ino_ref(N[start].off)) == SQFS_OK, "traversal opens");
	else vf_assert(sqfs_inode_get(&fs, &in, ino_ref(N[start].off)) == SQFS_OK && sqfs_traverse_open_inode(&t, &fs, &in) == SQFS_OK, "traversal opens");
	for (k = 0; k < nev && steps != stop; steps++) {
		vf_assert(sqfs_traverse_next(&t, &er) == 1 && er == SQFS_OK, "traversal goes on until everything is visited");
		vf_assert(!t.dir_end == !ev[k].end, "end marks come after the content of a directory and only there");
		vf_assert(strcmp(t.path, ev[k].path) == 0, "the path is that of the item");
		if (!ev[k].end) {
			vf_assert(sqfs_dentry_inode_num(&t.entry) == N[ev[k].node].num && sqfs_dentry_type(&t.entry) == N[ev[k].node].type && strcmp(sqfs_dentry_name(&t.entry), N[ev[k].node].name) == 0, "the entry is that of the item");
			if (N[ev[k].node].type == T_DIR && (mode == 0 || mode == 3 || k % 5 == 4) && vf_pick(0, 1)) {
				vf_assert(sqfs_traverse_prune(&t) == SQFS_OK, "prune");
				k = ev[k].skip;
				vf_reach("pruned");
				continue;
			}
		} else vf_reach("end mark");
		k++;
	}
	if (steps != stop) {
		for (i = 0; i < 2; i++) vf_assert(sqfs_traverse_next(&t, &er) == 0 && er == SQFS_OK, "then the traversal is finished");
		vf_reach("finished");
	} else vf_reach("stopped");
	sqfs_traverse_close(&t);
	if (sp & 1) sqfs_traverse_close(&t);
	if (mode == 3 && sp == 5) { /* a second traversal in the same structure */
		vf_assert(sqfs_traverse_open(&t, &fs, sqfs_inode_root(&fs)) == SQFS_OK && sqfs_traverse_next(&t, &er) == 1 && strcmp(t.path, ev[0].path) == 0, "a structure can be used again");
		sqfs_traverse_close(&t);
	}
done:
	vf_obs(nev);
	sqfs_destroy(&fs);
	vf_assert(vf_live == 0 && vf_locks_held == 0, "closing at any point releases everything");
	(void)live; (void)has_child;
	vf_end();
}
