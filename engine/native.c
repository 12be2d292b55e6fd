/* Native side of the harness interface: replays recorded inputs on the real code. */
#include "vf.h"
#include <ucontext.h>
#include <sys/mman.h>
static uint64_t inv[4096]; static int inw[4096], nin, pos;
static FILE *obs;
static void bad(const char *m) { fprintf(stderr, "VFREPLAY: %s\n", m); fflush(0); _exit(78); }
uint64_t vf_sym(int b) {
	if (pos >= nin) bad("inputs exhausted");
	if (inw[pos] != b) bad("input width differs");
	return inv[pos++];
}
uint32_t vf_split(int n, int id) { (void)n; (void)id; return (uint32_t)vf_sym(4); }
void vf_assume_(int c) { if (!c) { fprintf(stderr, "VFASSUME\n"); fflush(0); _exit(77); } }
void vf_fail_(const char *m) { fprintf(stderr, "VFFAIL %s\n", m); fflush(0); _exit(42); }
void vf_assert_(int c, const char *m) { if (!c) vf_fail_(m); }
void vf_reach(const char *t) { (void)t; }
void vf_obs(uint64_t v) { printf("VFOBS %llu\n", (unsigned long long)v); }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_end(void) { printf("VFEND\n"); fflush(0); _exit(0); }
void vf_stop(void) { fprintf(stderr, "VFASSUME\n"); fflush(0); _exit(77); }
int vf_native(void) { return 1; }
int vf_addr_ok(const void *p, size_t n) { (void)p; (void)n; return 1; }
#pragma weak __asan_poison_memory_region
void __asan_poison_memory_region(void const volatile *, size_t);
void vf_protect(const void *p, size_t n, size_t used) {
	if (mprotect((void *)p, n, PROT_READ)) bad("mprotect");
	if (__asan_poison_memory_region) __asan_poison_memory_region((const char *)p + used, n - used);
}
void vf_trace(const char *t, uint64_t v) { fprintf(stderr, "TRACE %s %llu\n", t, (unsigned long long)v); }
/* threads as coroutines; 0 is the harness */
static ucontext_t ctx[8]; static char *stk[8]; static int done[8], nth = 1, cur;
static void (*tfn[8])(void *); static void *targ[8];
static void tend(int i);
static void tmain(int i) { tfn[i](targ[i]); tend(i); setcontext(&ctx[0]); }
static void mkfiber(int i);
unsigned vf_thread_new(void (*f)(void *), void *a) {
	int i = nth++;
	getcontext(&ctx[i]); stk[i] = malloc(1 << 18);
	ctx[i].uc_stack.ss_sp = stk[i]; ctx[i].uc_stack.ss_size = 1 << 18; ctx[i].uc_link = 0;
	tfn[i] = f; targ[i] = a;
	mkfiber(i);
	makecontext(&ctx[i], (void (*)(void))tmain, 1, i);
	return i;
}
/* with -fsanitize=thread the coroutines are fibers, synchronised only by the mutexes */
#pragma weak __tsan_create_fiber
#pragma weak __tsan_get_current_fiber
#pragma weak __tsan_switch_to_fiber
#pragma weak __tsan_acquire
#pragma weak __tsan_release
void *__tsan_create_fiber(unsigned); void *__tsan_get_current_fiber(void); void __tsan_switch_to_fiber(void *, unsigned); void __tsan_acquire(void *); void __tsan_release(void *);
void vf_sync(int acq, void *m);
static void *fib[8]; static char donetag[8]; static int err[8];
static void mkfiber(int i) { if (__tsan_create_fiber) { if (!fib[0]) fib[0] = __tsan_get_current_fiber(); fib[i] = __tsan_create_fiber(0); } }
static void tend(int i) { vf_sync(0, &donetag[i]); done[i] = 1; cur = 0; errno = err[0]; if (__tsan_switch_to_fiber) __tsan_switch_to_fiber(fib[0], 1); }
void vf_sync(int acq, void *m) { if (acq && __tsan_acquire) __tsan_acquire(m); if (!acq && __tsan_release) __tsan_release(m); }
int vf_thread_done(unsigned t) { if (done[t] && cur == 0) vf_sync(1, &donetag[t]); return done[t]; }
unsigned vf_thread_self(void) { return cur; }
void vf_thread_switch(unsigned t) {
	int me = cur; cur = t; err[me] = errno; errno = err[t];
	if (__tsan_switch_to_fiber) __tsan_switch_to_fiber(fib[t], 1);
	swapcontext(&ctx[me], &ctx[t]);
}
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r");
	unsigned long long v; int w;
	(void)argc;
	if (!f) bad("no input file");
	while (nin < 4096 && fscanf(f, "%d %llu", &w, &v) == 2) { inw[nin] = w; inv[nin++] = v; }
	fclose(f);
	harness();
	vf_end();
	return 0;
}
