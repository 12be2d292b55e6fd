/* Environment model: every symbol the library takes from the system, with only the
 * guarantees its documentation gives.  vf_r_<name> replaces <name> in /repo's objects,
 * in the symbolic run and in the native replay alike. */
#include "vf.h"
#include <stdarg.h>
#include <zlib.h>
#include <pthread.h>

int vf_live, vf_oom_no, vf_oom_on;
uint64_t vf_oom_mask;
int vf_locks_held;
int vf_fds_open, vf_dup_fail, vf_dup_any;
uint8_t vf_fd_state[VF_FDS];

void vf_env_reset(void) { vf_live = 0; }

/* ---------------------------------------------------------------- heap */
static int oom(void) {
	int n;
	if (!vf_oom_on) return 0;
	n = vf_oom_no++;
	if (n < 64 && ((vf_oom_mask >> n) & 1)) { errno = ENOMEM; return 1; }
	return 0;
}
static void fill(void *p, size_t n) { if (vf_native() && p) memset(p, 0xbe, n); }
void *vf_r_malloc(size_t n) { void *p; if (oom()) return NULL; p = malloc(n); if (p) { vf_live++; fill(p, n); } else errno = ENOMEM; return p; }
void *vf_r_calloc(size_t n, size_t m) { void *p; if (oom()) return NULL; if (m && n > (size_t)-1 / m) return NULL; p = calloc(n, m); if (p) vf_live++; else errno = ENOMEM; return p; }
void vf_r_free(void *p) { if (p) vf_live--; free(p); }
void *vf_r_realloc(void *p, size_t n) {
	void *q;
	if (p && n == 0) { vf_r_free(p); return NULL; }
	if (oom()) return NULL;
	q = realloc(p, n);
	if (!p && q) vf_live++;
	if (!q) errno = ENOMEM;
	return q;
}
void *vf_r_reallocarray(void *p, size_t n, size_t m) { if (m && n > (size_t)-1 / m) { errno = ENOMEM; return NULL; } return vf_r_realloc(p, n * m); }
char *vf_r_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vf_r_malloc(n); if (p) memcpy(p, s, n); return p; }
char *vf_r___strdup(const char *s) { return vf_r_strdup(s); }
char *vf_r_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = vf_r_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

void *vf_r_aligned_alloc(size_t a, size_t n) { (void)a; return vf_r_malloc(n); }
int vf_r_posix_memalign(void **p, size_t a, size_t n) { void *q = vf_r_malloc(n); (void)a; if (!q) return ENOMEM; *p = q; return 0; }

/* ---------------------------------------------------------------- descriptors */
uint16_t vf_dup_set[16]; int vf_dup_n, vf_dup_from = 3;
int vf_r_dup(int fd) {
	int i;
	(void)fd;
	if (vf_dup_fail) { errno = EMFILE; return -1; }
	if (vf_dup_n) { /* one of the given numbers, if unused */
		i = vf_dup_set[vf_pick(0, vf_dup_n - 1)];
		vf_assume(!vf_fd_state[i]);
	} else if (vf_dup_any) { /* any unused number: what dup returns depends on the rest of the process */
		i = (int)vf_pick(3, vf_dup_any - 1);
		vf_assume(!vf_fd_state[i]);
	} else
		for (i = vf_dup_from; i < 64 && vf_fd_state[i]; i++) ;
	if (i >= 64 && !vf_dup_n) { errno = EMFILE; return -1; }
	vf_fd_state[i] = 1; vf_fds_open++;
	return i;
}
int vf_close_fail;
int (*vf_close_hook)(int fd); /* closes the descriptors that did not come from dup */
int vf_r_close(int fd) {
	if (vf_close_fail) { errno = EIO; return -1; }
	if (vf_close_hook && (fd < 0 || fd >= VF_FDS || !vf_fd_state[fd])) return vf_close_hook(fd);
	if (fd < 0 || fd >= VF_FDS || !vf_fd_state[fd]) { errno = EBADF; return -1; }
	vf_fd_state[fd] = 0; vf_fds_open--;
	return 0;
}

/* ---------------------------------------------------------------- mutexes, threads */
/* with -finstrument-functions: whenever the real code returns to the harness, no lock is held */
static int depth_;
void __cyg_profile_func_enter(void *f, void *c) { (void)f; (void)c; depth_++; }
void __cyg_profile_func_exit(void *f, void *c) { (void)f; (void)c; if (--depth_ == 0 && vf_locks_held) vf_fail_("a call returns and holds a lock"); }
#define NM 40
static struct { void *m; int state; unsigned owner; } mtx[NM]; /* state 1 initialised, 2 locked */
int vf_sched_on;                 /* threads are running: lock operations are scheduling points */
unsigned vf_sched_steps;
static int mfind(void *m, int add) {
	int i, f = -1;
	for (i = 0; i < NM; i++) { if (mtx[i].m == m) return i; if (!mtx[i].m && f < 0) f = i; }
	if (add && f >= 0) { mtx[f].m = m; mtx[f].state = 1; return f; }
	return -1;
}
unsigned vf_thread_self(void);
void vf_thread_switch(unsigned t);
void vf_sync(int acquire, void *m);
static void *vf_waits[8];
int vf_blocked[8];                /* the thread waits for a mutex that is held */
static void sched(void) { if (vf_sched_on && vf_thread_self() != 0) vf_thread_switch(0); }
int vf_r_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int i; (void)a; i = mfind(m, 1); if (i >= 0) { if (mtx[i].state == 2) vf_locks_held--; mtx[i].state = 1; } return 0; }
int vf_r_pthread_mutex_destroy(pthread_mutex_t *m) { int i = mfind(m, 0); if (i >= 0) { if (mtx[i].state == 2) vf_locks_held--; mtx[i].m = 0; mtx[i].state = 0; } return 0; }
int vf_r_pthread_mutex_lock(pthread_mutex_t *m) {
	int i;
	sched();
	i = mfind(m, 1); /* a zero-initialised mutex is usable */
	if (i < 0) return 0;
	while (mtx[i].state == 2) {
		if (!vf_sched_on || mtx[i].owner == vf_thread_self()) vf_fail_("deadlock: a mutex is locked while the same thread holds it");
		vf_waits[vf_thread_self()] = m; vf_blocked[vf_thread_self()] = 1;
		sched();
	}
	vf_blocked[vf_thread_self()] = 0;
	mtx[i].state = 2; mtx[i].owner = vf_thread_self(); vf_locks_held++;
	vf_sync(1, m);
	return 0;
}
int vf_r_pthread_mutex_trylock(pthread_mutex_t *m) { int i = mfind(m, 1); if (i >= 0 && mtx[i].state == 2) return EBUSY; return vf_r_pthread_mutex_lock(m); }
int vf_r_pthread_mutex_unlock(pthread_mutex_t *m) {
	int i = mfind(m, 0);
	if (i < 0 || mtx[i].state != 2) { vf_fail_("a mutex is unlocked that is not locked"); return EPERM; }
	if (vf_sched_on && mtx[i].owner != vf_thread_self()) vf_fail_("a thread unlocks a mutex that another one holds");
	mtx[i].state = 1; vf_locks_held--;
	vf_sync(0, m);
	for (i = 0; i < 8; i++) if (vf_waits[i] == m) vf_blocked[i] = 0;
	return 0;
}

int vf_r_pthread_once(pthread_once_t *o, void (*f)(void)) { int *d = (int *)o; vf_r_pthread_mutex_lock((pthread_mutex_t *)o); if (!*d) { f(); *d = 2; } vf_r_pthread_mutex_unlock((pthread_mutex_t *)o); return 0; }

/* ---------------------------------------------------------------- zlib */
struct vf_codec vf_codecs[VF_CODEC_MAX];
int vf_uncompress_calls;
int vf_r_uncompress(unsigned char *dst, unsigned long *dl, const unsigned char *src, unsigned long sl) {
	unsigned t;
	vf_uncompress_calls++;
	if (sl < 2 || src[0] != 0xC0) return Z_DATA_ERROR;
	t = src[1];
	if (t >= VF_CODEC_MAX || !vf_codecs[t].data || vf_codecs[t].bad) return Z_DATA_ERROR;
	if (vf_codecs[t].len > *dl) return Z_BUF_ERROR;
	memcpy(dst, vf_codecs[t].data, vf_codecs[t].len);
	*dl = vf_codecs[t].len;
	return Z_OK;
}
int vf_r_uncompress2(unsigned char *dst, unsigned long *dl, const unsigned char *src, unsigned long *sl) { return vf_r_uncompress(dst, dl, src, *sl); }

/* ---------------------------------------------------------------- misc */
void (*vf_atexit_fn[4])(void);
int vf_atexit_n, vf_atexit_fail;
int vf_r_atexit(void (*f)(void)) { if (vf_atexit_fail) return 1; if (vf_atexit_n < 4) vf_atexit_fn[vf_atexit_n++] = f; return 0; }
static void swapb(char *a, char *b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } }
void vf_r_qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
	size_t i, j;
	char *b = base;
	for (i = 1; i < n; i++)
		for (j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) swapb(b + (j - 1) * w, b + j * w, w);
}
int vf_r_printf(const char *f, ...) { (void)f; return 0; }
int vf_r_fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
int vf_r_puts(const char *s) { (void)s; return 0; }
int vf_r_fputs(const char *s, FILE *f) { (void)s; (void)f; return 0; }
int vf_r_fflush(FILE *f) { (void)f; return 0; }
void vf_r_perror(const char *s) { (void)s; }
static char *num(char *e, unsigned long v, unsigned base) { *e = 0; do { *--e = "0123456789abcdef"[v % base]; v /= base; } while (v); return e; }
int vf_r_vsnprintf(char *out, size_t size, const char *f, va_list ap) {
	size_t n = 0;
	char tmp[32];
#define OUT(c) do { if (n + 1 < size) out[n] = (c); n++; } while (0)
	for (; *f; f++) {
		int lng = 0, width = 0, zero = 0, left = 0, prec = -1;
		if (*f != '%') { OUT(*f); continue; }
		f++;
		for (; *f == '0' || *f == '-' || *f == '#' || *f == '+' || *f == ' '; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else vf_fail_("environment model: printf flag"); }
		if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
		if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else for (prec = 0; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0'; }
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
		switch (*f) {
		case '%': OUT('%'); break;
		case 'c': OUT((char)va_arg(ap, int)); break;
		case 's': {
			const char *a = va_arg(ap, const char *); size_t l, k;
			if (!a) a = "(null)";
			if (prec < 0 && !width) { for (; *a; a++) OUT(*a); break; }
			l = prec < 0 ? strlen(a) : strnlen(a, (size_t)prec);
			if (!left) for (k = l; k < (size_t)width; k++) OUT(' ');
			for (k = 0; k < l; k++) OUT(a[k]);
			if (left) for (; k < (size_t)width; k++) OUT(' ');
			break; }
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			int sgn = *f == 'd' || *f == 'i', neg = 0; unsigned long v; char *p; size_t l, z = 0, k;
			if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); OUT('0'); OUT('x'); }
			else if (sgn) { long w = lng ? va_arg(ap, long) : va_arg(ap, int); neg = w < 0; v = neg ? -(unsigned long)w : (unsigned long)w; }
			else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			p = num(tmp + 31, v, *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10);
			l = strlen(p);
			if (prec >= 0) { if (l < (size_t)prec) z = (size_t)prec - l; } else if (zero && !left && l + neg < (size_t)width) z = (size_t)width - l - neg;
			if (!left) for (k = l + z + neg; k < (size_t)width; k++) OUT(' ');
			if (neg) OUT('-');
			for (k = 0; k < z; k++) OUT('0');
			for (k = 0; k < l; k++) OUT(*f == 'X' && p[k] >= 'a' ? (char)(p[k] - 32) : p[k]);
			if (left) for (k = l + z + neg; k < (size_t)width; k++) OUT(' ');
			break; }
		default: vf_fail_("environment model: printf conversion"); return -1;
		}
	}
	if (size) out[n < size ? n : size - 1] = 0;
	return (int)n;
}
int vf_r_snprintf(char *out, size_t size, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vf_r_vsnprintf(out, size, f, ap); va_end(ap); return r; }
int vf_r_sprintf(char *out, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vf_r_vsnprintf(out, (size_t)1 << 30, f, ap); va_end(ap); return r; }
int vf_r_vasprintf(char **o, const char *f, va_list ap) { va_list a; int n; va_copy(a, ap); n = vf_r_vsnprintf(NULL, 0, f, a); va_end(a); *o = NULL; if (n < 0 || !(*o = vf_r_malloc((size_t)n + 1))) return -1; return vf_r_vsnprintf(*o, (size_t)n + 1, f, ap); }
int vf_r_asprintf(char **o, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vf_r_vasprintf(o, f, ap); va_end(ap); return r; }
