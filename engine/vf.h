/* Harness interface.  The same harness runs in the symbolic executor (inputs are
 * solver variables) and natively (inputs are read back from a counterexample). */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "squash.h"

uint64_t vf_sym(int bytes);          /* a fresh input of that many bytes */
uint32_t vf_split(int n, int id);    /* 0..n-1, always enumerated (case split) */
void vf_assume_(int c);
void vf_assert_(int c, const char *msg);
void vf_fail_(const char *msg);
void vf_reach(const char *tag);      /* reachability witness */
void vf_obs(uint64_t v);             /* observation compared symbolic vs native */
uint64_t vf_concretize(uint64_t v);  /* fork over every value */
void vf_end(void);
void vf_stop(void);
int vf_native(void);
int vf_addr_ok(const void *p, size_t n);
size_t vf_malloc_size(const void *p);
void vf_protect(const void *p, size_t n, size_t used); /* the global p, n bytes of whole pages, may only be read from now on, and only the first used bytes */
void vf_trace(const char *tag, uint64_t v);
static inline uint8_t vf_u8(void) { return (uint8_t)vf_sym(1); }
static inline uint16_t vf_u16(void) { return (uint16_t)vf_sym(2); }
static inline uint32_t vf_u32(void) { return (uint32_t)vf_sym(4); }
static inline uint64_t vf_u64(void) { return vf_sym(8); }
/* a value in lo..hi (inclusive) */
static inline uint64_t vf_in(uint64_t lo, uint64_t hi) {
	uint64_t v = hi < 256 ? vf_sym(1) : hi < 65536 ? vf_sym(2) : hi <= 0xffffffffu ? vf_sym(4) : vf_sym(8);
	vf_assume_(v >= lo && v <= hi);
	return v;
}
/* the same, with one path per value */
static inline uint64_t vf_pick(uint64_t lo, uint64_t hi) { return vf_concretize(vf_in(lo, hi)); }
/* errno as an earlier call may have left it: 0 or anything else */
static inline int vf_stale(void) { return (int)vf_u32(); }
#define vf_assume(c) vf_assume_(!!(c))
#ifdef VF_LOCKS /* only the locks matter: what else the harness states is taken for granted */
#define vf_assert(c, msg) vf_assume_(!!(c))
#else
#define vf_assert(c, msg) vf_assert_(!!(c), msg)
#endif

/* ---- environment model (env.c) ---- */
extern int vf_live;              /* heap blocks the code under test holds */
extern uint64_t vf_oom_mask;     /* bit n set: the n-th allocation from vf_oom_start fails */
extern int vf_oom_no, vf_oom_on;
extern int vf_locks_held;        /* mutexes currently locked */
extern int vf_fds_open;          /* descriptors handed out by dup and not closed */
#define VF_FDS 4096
extern uint8_t vf_fd_state[VF_FDS];
extern int vf_dup_fail;          /* dup() fails with EMFILE */
extern int vf_dup_any;           /* dup() returns any unused descriptor below this bound (0: lowest) */
extern uint16_t vf_dup_set[16]; extern int vf_dup_n, vf_dup_from; /* dup() returns any unused one of these */
/* threads: coroutines; a thread gives control back to the harness (0) before each lock operation */
unsigned vf_thread_new(void (*f)(void *), void *a);
int vf_thread_done(unsigned t);
unsigned vf_thread_self(void);
void vf_thread_switch(unsigned t);
extern int vf_sched_on, vf_blocked[8];
void vf_env_reset(void);
/* codec model: a block is compressed as 0xC0 tag; the tag selects registered content */
#define VF_CODEC_MAX 64
struct vf_codec { const uint8_t *data; uint32_t len; int bad; };
extern struct vf_codec vf_codecs[VF_CODEC_MAX];
extern int vf_uncompress_calls;

/* model file system (extraction, sample) */
void harness(void);
#endif
