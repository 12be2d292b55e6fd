/* P30: the map returns the stored value of every present key and only those. */
#include "vf.h"
#include "squash/hash.h"
#ifdef VF_THOROUGH
#define K 5
#else
#define K 4
#endif
#define VMAX 12
static sqfs_hash h;
static struct { uint32_t key; uint8_t v[VMAX]; int live; } R[64]; /* newest last */
static int nr;
static uint32_t vs;
static int newest(uint32_t k) { int i; for (i = nr - 1; i >= 0; i--) if (R[i].live && R[i].key == k) return i; return -1; }
static void lookup(uint32_t k) {
	int i = newest(k); uint8_t *p = sqfs_hash_get(&h, k);
	if (i < 0) { vf_assert(!p, "a key that is not present yields nothing"); vf_reach("absent"); }
	else { uint32_t b; vf_assert(p != 0, "a present key yields a value"); for (b = 0; b < vs; b++) vf_assert(p[b] == R[i].v[b], "a present key yields the value added last"); vf_reach("present"); }
}
static sqfs_err put(uint32_t k, int seed) {
	uint32_t b; sqfs_err e;
	for (b = 0; b < vs; b++) R[nr].v[b] = seed < 0 ? vf_u8() : (uint8_t)(seed * 5 + b);
	e = sqfs_hash_add(&h, k, R[nr].v);
	if (e == SQFS_OK) { R[nr].key = k; R[nr].live = 1; nr++; }
	return e;
}
static void del(uint32_t k) { int i = newest(k); vf_assert(sqfs_hash_remove(&h, k) == SQFS_OK, "removing never fails"); if (i >= 0) R[i].live = 0; }
void harness(void) {
	uint32_t mode = vf_split(3, 0), cap = 1u << vf_split(3, 1), c = vf_split(4, 2), kinds = vf_split(16, 3), i; uint32_t k;
	static const uint8_t sizes[4] = { 1, 4, 8, 12 };
	vs = sizes[c];
	memset(&h, 0x5a, sizeof h);
	if (mode == 2 && c == 3) { /* capacities that cannot be used are refused */
		uint64_t n = vf_in(0, 9); if (n & (n - 1) || n == 0) { vf_assert(sqfs_hash_init(&h, 4, n) != SQFS_OK && vf_live == 0, "a capacity that is no power of two is refused"); vf_reach("refused"); }
		vf_end();
	}
	if (mode == 2) { /* memory runs out */
		uint64_t m = vf_u64(), m2 = m & (m - 1), bad; sqfs_err e;
		vf_assume((m2 & (m2 - 1)) == 0);
		vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0;
		if (sqfs_hash_init(&h, vs, cap) != SQFS_OK) { vf_assert(m & 1 && vf_live == 0, "a map that cannot be set up holds nothing"); vf_end(); }
		for (i = 0; i < 9; i++) {
			int n0 = vf_oom_no;
			e = put(i * 3, (int)i);
			bad = m & (((1ull << vf_oom_no) - 1) ^ ((1ull << n0) - 1));
			if (!bad) vf_assert(e == SQFS_OK, "an addition fails only for lack of memory");
			if (e != SQFS_OK) { vf_reach("failed"); }
			for (k = 0; k < 30; k += 3) lookup(k);
		}
		vf_oom_on = 0;
		for (i = 0; i < 9; i += 2) { del(i * 3); }
		for (k = 0; k < 30; k += 3) lookup(k);
		vf_obs(nr);
	} else if (mode == 0) { /* every short history with arbitrary keys */
		vf_assert(sqfs_hash_init(&h, vs, cap) == SQFS_OK, "set up");
		for (i = 0; i < K; i++) {
			k = vf_u32();
			if (i < 4 ? (kinds >> i) & 1 : (uint32_t)vf_pick(0, 1)) vf_assert(put(k, -1) == SQFS_OK, "add"); else del(k);
		}
		lookup(vf_u32());
	} else { /* growth over several sizes, with keys that collide and repeat, and arbitrary removals */
		uint32_t n = c == 0 ? 33 : 17, stride = c == 0 ? 1 : c == 1 ? 64 : c == 2 ? 5 : 0x10000000u, a, b;
		vf_assert(sqfs_hash_init(&h, vs, cap) == SQFS_OK, "set up");
		for (i = 0; i < n; i++) { if (i == n / 2) del(stride); vf_assert(put((i % 11) * stride, (int)i) == SQFS_OK, "add"); }
		a = (uint32_t)vf_in(0, 12); b = (uint32_t)vf_in(0, 12);
		del(a * stride); del(b * stride);
		vf_assert(put(7, 99) == SQFS_OK, "add");
		lookup(vf_u32());
	}
	sqfs_hash_destroy(&h);
	vf_assert(vf_live == 0, "destroying the map releases everything");
	vf_end();
}
