/* Environment model, part two: temporary files, stdio and process facts, for extraction. */
#include "vf.h"
#include "env_file.h"
#include <stdarg.h>
#include <time.h>
struct vf_file vf_files[VF_NFILES];
int vf_streams_open, vf_f_budget, vf_creations;
static struct { int used; struct vf_file *f; } strm[8];
const char *vf_env_tmpdir, *vf_env_tmp, *vf_env_temp;
int vf_rand_choices = 0; static int seq = 100;
static int fault(int e) { /* any of the calls may fail, as many as the harness allows */
	if (vf_f_budget <= 0 || !vf_pick(0, 1)) return 0;
	vf_f_budget--; errno = e; return 1;
}
struct vf_file *vf_file_find(const char *n) { int i; for (i = 0; i < VF_NFILES; i++) if (vf_files[i].used && strcmp(vf_files[i].name, n) == 0) return &vf_files[i]; return 0; }
struct vf_file *vf_file_make(const char *n) {
	int i;
	if (strlen(n) >= sizeof vf_files[0].name) { errno = ENAMETOOLONG; return 0; }
	for (i = 0; i < VF_NFILES; i++) if (!vf_files[i].used) { vf_files[i].used = 1; vf_files[i].len = 0; strcpy(vf_files[i].name, n); return &vf_files[i]; }
	vf_fail_("environment model: too many files"); return 0;
}
int vf_files_count(void) { int i, n = 0; for (i = 0; i < VF_NFILES; i++) n += vf_files[i].used; return n; }
FILE *vf_r_fopen(const char *n, const char *m) {
	struct vf_file *f; int i;
	if (m[0] != 'w') { vf_fail_("environment model: fopen mode"); return 0; }
	if (fault(EACCES)) return 0;
	f = vf_file_find(n);
	if (f) { f->len = 0; f->clobbered = 1; } else { f = vf_file_make(n); vf_creations++; }
	if (!f) return 0;
	for (i = 0; i < 8; i++) if (!strm[i].used) { strm[i].used = 1; strm[i].f = f; vf_streams_open++; return (FILE *)&strm[i]; }
	vf_fail_("environment model: too many streams"); return 0;
}
FILE *vf_r_fopen64(const char *n, const char *m) { return vf_r_fopen(n, m); }
static int chk(FILE *s) { size_t d = (size_t)((char *)s - (char *)strm); if (d >= sizeof strm || d % sizeof strm[0] || !strm[d / sizeof strm[0]].used) vf_fail_("a stream is used that is not open"); return (int)(d / sizeof strm[0]); }
size_t vf_r_fwrite(const void *p, size_t sz, size_t n, FILE *s) {
	struct vf_file *f = strm[chk(s)].f; size_t all = sz * n, done = all;
	if (sz == 0 || n == 0) return 0;
	if (fault(ENOSPC)) done = all / 2;
	if (f->len + done > VF_FILE_MAX) vf_fail_("environment model: file too large");
	memcpy(f->data + f->len, p, done); f->len += done;
	return done == all ? n : done / sz;
}
int vf_r_fclose(FILE *s) { int i = chk(s); struct vf_file *f = strm[i].f; strm[i].used = 0; vf_streams_open--; if (fault(EIO)) { if (f->len) f->len--; return EOF; } return 0; }
int vf_r_ferror(FILE *s) { chk(s); return 0; }
long (*vf_path_hook)(int call, const char *n, void *b, long m);
int vf_r_unlink(const char *n) { if (vf_path_hook) return (int)vf_path_hook('u', n, 0, 0); else { struct vf_file *f = vf_file_find(n); if (!f) { errno = ENOENT; return -1; } f->used = 0; return 0; } }
int vf_r_remove(const char *n) { return vf_r_unlink(n); }
int vf_r_stat(const char *n, struct stat *b) { if (vf_path_hook) return (int)vf_path_hook('s', n, b, 0); else { struct vf_file *f = vf_file_find(n); if (!f) { errno = ENOENT; return -1; } memset(b, 0, sizeof *b); b->st_mode = S_IFREG | 0600; b->st_size = f->len; return 0; } }
int vf_r_lstat(const char *n, struct stat *b) { if (vf_path_hook) return (int)vf_path_hook('l', n, b, 0); return vf_r_stat(n, b); }
int vf_r_stat64(const char *n, struct stat *b) { return vf_r_stat(n, b); }
int vf_r_access(const char *n, int m) { (void)m; if (vf_path_hook) return (int)vf_path_hook('a', n, 0, m); if (!vf_file_find(n)) { errno = ENOENT; return -1; } return 0; }
char *vf_r_getenv(const char *n) { return (char *)(strcmp(n, "TMPDIR") == 0 ? vf_env_tmpdir : strcmp(n, "TMP") == 0 ? vf_env_tmp : strcmp(n, "TEMP") == 0 ? vf_env_temp : 0); }
void vf_r_srand(unsigned s) { (void)s; }
void vf_r_srandom(unsigned s) { (void)s; }
int vf_r_rand(void) { return vf_rand_choices ? (int)vf_pick(1, vf_rand_choices) : seq++; } /* anything it may return, or all different */
long vf_r_random(void) { return vf_r_rand(); }
time_t vf_r_time(time_t *t) { if (t) *t = 1; return 1; }
pid_t vf_r_getpid(void) { return 4711; }
