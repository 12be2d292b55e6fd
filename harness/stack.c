/* P31: last in, first out; every element released once. */
#include "vf.h"
#include "squash/stack.h"
#define NE 64
struct el { uint32_t id, x; };
static sqfs_stack s;
static uint8_t freed[NE]; static uint32_t val[NE], st[NE], n, total, base;
static struct el *last; static uint32_t vs;
static void freer(void *v) {
	struct el e; memcpy(&e, v, vs < 8 ? vs : 8);
	if (vs < 8) e.id = *(uint8_t *)v;
	vf_assert(e.id < total, "the release function gets an element");
	vf_assert(vs < 8 || e.x == val[e.id], "the element is as it was stored");
	vf_assert(!freed[e.id], "an element is released once");
	vf_assert(n > 0 && st[n - 1] == e.id, "the last element is released first");
	freed[e.id] = 1; n--;
}
static int usefree;
static int push(void) {
	uint8_t *p = 0; sqfs_err e = sqfs_stack_push(&s, &p);
	if (e != SQFS_OK) return 0;
	vf_assert(p != 0, "push yields the place of the new element");
	if (vs >= 8) { struct el *q = (struct el *)p; val[total] = vf_u32(); q->id = total; q->x = val[total]; if (vs > 8) p[vs - 1] = 9; } else *p = (uint8_t)total;
	st[n++] = total++;
	return 1;
}
static void pop(void) {
	uint32_t n0 = n; int r = sqfs_stack_pop(&s);
	if (n0 == 0) { vf_assert(r == 0 && n == 0, "an empty stack has nothing to pop"); vf_reach("empty"); return; }
	vf_assert(r != 0, "pop succeeds on a stack that is not empty");
	if (usefree) vf_assert(n == n0 - 1, "popping releases one element"); else n--;
}
static void check(void) {
	uint8_t *p = (uint8_t *)8; uint32_t i;
	vf_assert(sqfs_stack_size(&s) == n, "the size is the number of elements");
	for (i = 0; i < n; i++) {
		vf_assert(sqfs_stack_at(&s, i, &p) == SQFS_OK, "an element can be accessed");
		if (vs >= 8) vf_assert(((struct el *)p)->id == st[i] && ((struct el *)p)->x == val[st[i]], "elements keep their order and values"); else vf_assert(*p == (uint8_t)st[i], "elements keep their order and values");
	}
	if (n) { vf_assert(sqfs_stack_top(&s, &p) == SQFS_OK && (vs >= 8 ? ((struct el *)p)->id : *p) == st[n - 1], "top is the last element"); }
	else vf_assert(sqfs_stack_top(&s, &p) != SQFS_OK, "an empty stack has no top");
}
void harness(void) {
	uint32_t mode = vf_split(3, 0), init = vf_split(4, 1), c = vf_split(4, 2), i; uint64_t o; uint8_t *p;
	static const uint8_t sizes[4] = { 8, 1, 12, 48 }, inits[4] = { 0, 1, 2, 9 };
	vs = sizes[c]; usefree = (int)(c != 3 || mode == 0);
	memset(&s, 0x5a, sizeof s);
	if (mode == 1 && init == 3) { /* only initialised: safe to use and to destroy */
		sqfs_stack_init(&s);
		vf_assert(sqfs_stack_size(&s) == 0, "an initialised stack is empty");
		sqfs_stack_destroy(&s);
		vf_reach("initialised");
	}
	if (mode == 2) { uint64_t m = vf_u64(); vf_assume((m & (m - 1)) == 0); vf_oom_mask = m; vf_oom_on = 1; }
	if (sqfs_stack_create(&s, vs, inits[init], usefree ? freer : NULL) != SQFS_OK) { vf_assert(mode == 2 && vf_oom_mask & 1, "set up fails only for lack of memory"); vf_oom_on = 0; sqfs_stack_destroy(&s); vf_assert(vf_live == 0, "nothing is left"); vf_end(); }
	if (mode == 0) { /* every history */
#ifdef VF_THOROUGH
		for (i = 0; i < 9; i++) {
#else
		for (i = 0; i < 7; i++) {
#endif
			if (vf_pick(0, 1)) vf_assert(push(), "push"); else pop();
			check();
		}
	} else { /* growth */
		uint32_t k = mode == 1 ? 30 : 20, fails = 0;
		for (i = 0; i < k; i++) { int n0 = vf_oom_no; if (!push()) { vf_assert(mode == 2 && (vf_oom_mask >> n0) & 1, "push fails only for lack of memory"); fails++; vf_reach("push failed"); check(); } if (i % 7 == 6) { pop(); } }
		vf_assert(fails < 2, "one failure at most");
		vf_oom_on = 0;
		check();
		vf_obs(n);
	}
	o = vf_u64(); vf_assume(o >= n);
	vf_assert(sqfs_stack_at(&s, o, &p) != SQFS_OK, "access out of range fails");
	sqfs_stack_destroy(&s);
	if (usefree) { vf_assert(n == 0, "destroying releases every element"); for (i = 0; i < total; i++) vf_assert(freed[i], "every element was released"); }
	vf_assert(vf_live == 0 && sqfs_stack_size(&s) == 0, "a destroyed stack is empty and holds no memory");
	vf_end();
}
