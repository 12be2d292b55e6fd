/* A small tree of files, directories and links, turned into an image; and the reference
 * resolver for paths in it.  Children of one directory are added in name order. */
#ifndef TREE_H
#define TREE_H
#include "img.h"
#ifndef MAXN
#define MAXN 24
#endif
enum { T_DIR = SQUASHFS_DIR_TYPE, T_REG = SQUASHFS_REG_TYPE, T_LNK = SQUASHFS_SYMLINK_TYPE, T_FIFO = SQUASHFS_FIFO_TYPE };
typedef struct { int parent, type; const char *name; uint32_t nlen; const char *data; uint32_t dlen; uint32_t num, off, lst, lsz; int laid; uint32_t bstart, bfrag, nblk, blk[4]; } node; /* laid: the blocks are given */
static node N[MAXN];
static int NN;
static int add(int parent, int type, const char *name) { N[NN].parent = parent; N[NN].type = type; N[NN].name = name; N[NN].nlen = strlen(name); N[NN].num = 10 + NN; return NN++; }
static int add_file(int parent, const char *name, const char *data, uint32_t n) { int i = add(parent, T_REG, name); N[i].data = data; N[i].dlen = n; return i; }
static int add_link(int parent, const char *name, const char *target, uint32_t n) { int i = add(parent, T_LNK, name); N[i].data = target; N[i].dlen = n; return i; }
static void tree_emit(int i) {
	int j, cnt = 0;
	node *x = &N[i];
	img_mtime = 1000 + i; /* stat tells the nodes apart */
	if (x->type == T_DIR) {
		for (j = 1; j < NN; j++) if (N[j].parent == i) { tree_emit(j); cnt++; }
		img_mtime = 1000 + i;
		x->lst = DIRS.n;
		if (cnt) {
			int first = 1;
			for (j = 1; j < NN; j++) if (N[j].parent == i) {
				if (first) { dir_header(cnt, N[j].off, 10); first = 0; }
				dir_entry(N[j].off, N[j].num - 10, N[j].type, N[j].name, N[j].nlen);
			}
		}
		x->lsz = DIRS.n - x->lst;
		x->off = dir_inode(x->num, x->lst, x->lsz, 99);
	} else if (x->type == T_REG && x->laid) {
		x->off = reg_inode(x->num, x->bstart, x->bfrag, 0, x->dlen);
		for (j = 0; j < (int)x->nblk; j++) w32(&INO, x->blk[j]);
	} else if (x->type == T_REG) {
		uint32_t o = 0;
		if (x->dlen) { o = img_alloc(x->dlen); memcpy(IMG + o, x->data, x->dlen); }
		x->off = reg_inode(x->num, o, 0xffffffffu, 0, x->dlen);
		if (x->dlen) w32(&INO, UNC | x->dlen);
	} else if (x->type == T_LNK) x->off = symlink_inode(x->num, x->data, x->dlen);
	else { x->off = inode_base(x->type, 0600, 0, 0, img_mtime, x->num); w32(&INO, 1); }
}
/* node 0 must be the root directory */
static void tree_finish(void) { img_blocksize = 64; tree_emit(0); img_finish(N[0].off, NN); }
/* which node an inode is: by its number */
static int node_of(uint32_t num) { int i; for (i = 0; i < NN; i++) if (N[i].num == num) return i; return -1; }

static int ref_child(int d, const char *s, uint32_t n) {
	int j;
	if (N[d].type != T_DIR) return -1;
	for (j = 1; j < NN; j++) if (N[j].parent == d && N[j].nlen == n && memcmp(N[j].name, s, n) == 0) return j;
	return -1;
}
/* Components of path (n bytes) pushed on st; dot-dot pops; -1 when it climbs above the root */
struct comp { const char *s; uint32_t n; };
static int ref_norm(const char *p, uint32_t n, struct comp *st, int k, int max) {
	uint32_t i = 0;
	while (i < n) {
		uint32_t b;
		if (p[i] == '/') { i++; continue; }
		b = i;
		while (i < n && p[i] != '/') i++;
		if (i - b == 1 && p[b] == '.') continue;
		if (i - b == 2 && p[b] == '.' && p[b + 1] == '.') { if (k == 0) return -1; k--; continue; }
		if (k >= max) vf_fail_("reference: too many components");
		st[k].s = p + b; st[k].n = i - b; k++;
	}
	return k;
}
/* Links: the target replaces the link, relative to the directory the link lies in; more than
 * 32 replacements are too many.  Returns the node, -1 missing, -2 too many links. */
#define RMAX 200
static int ref_resolve_from(int start, const char *p, uint32_t n, int follow) { /* what climbs above start is not found */
	struct comp st[RMAX], nw[RMAX];
	int k = ref_norm(p, n, st, 0, RMAX), i, j, cur, count = 0;
	if (k < 0) return -1;
again:
	cur = start;
	for (i = 0; i < k; i++) {
		int c = ref_child(cur, st[i].s, st[i].n);
		if (c < 0) return -1;
		if (N[c].type == T_LNK && (i < k - 1 || follow)) {
			int m = 0;
			if (++count > 32) return -2;
			if (N[c].data[0] == '/') start = 0; else for (; m < i; m++) nw[m] = st[m];
			m = ref_norm(N[c].data, N[c].dlen, nw, m, RMAX);
			if (m < 0) return -1;
			for (j = i + 1; j < k; j++) { if (m >= RMAX) vf_fail_("reference: too many components"); nw[m++] = st[j]; }
			for (j = 0; j < m; j++) st[j] = nw[j];
			k = m;
			goto again;
		}
		cur = c;
	}
	return cur;
}
static int ref_resolve(const char *p, uint32_t n, int follow) { return ref_resolve_from(0, p, n, follow); }
#endif
