/* P28: the enclosed working directory. */
#include "encl.h"
#ifdef VF_THOROUGH
#define K 3
#define FREE 4
#else
#define K 2
#define FREE 3
#endif
static char cwd[2200], path[2200], full[4400];
static const char *words[16] = { PRE, PRE "/", PRE "///", PRE "/d", PRE "/d//", PRE "/d/.", PRE "/s", PRE "/g", PRE "/no", PRE "x", "/usr", "d", "..", "./", "g", "d/../d/" };
static long answer(struct vf_sys *s) {
	if (s->call == S_GETCWD) { return vf_sys_ret; }
	if (s->call == S_CHDIR) { long r = vf_pick(0, 1) ? 0 : -1; if (r) errno = EACCES; return r; }
	vf_fail_("unexpected system call"); return 0;
}
static void report(void) { /* getcwd with every size, and without a buffer */
	size_t l = strlen(cwd), n; int how = (int)vf_pick(0, 2), i; char *b, *r, *raw;
	vf_sys_n = 0; errno = 0;
	if (!cwd[0]) {
		char c[4]; vf_sys_ret = (long)vf_u64(); n = vf_u64();
		r = enclose_io_getcwd(c, n);
		vf_assert(vf_sys_n == 1 && vf_sys[0].call == S_GETCWD && vf_sys[0].p == c && (size_t)vf_sys[0].a == n && (long)r == vf_sys_ret, "outside the image the system reports the directory");
		return;
	}
	if (how == 0) {
		r = enclose_io_getcwd(0, 0);
		vf_assert(r && strcmp(r, cwd) == 0, "a buffer of its own holds the working directory");
		vf_r_free(r);
	} else if (how == 1) {
		static const int rel[8] = { 0, 1, 2, -1, 0, 1, 2, 9 }; int k = (int)vf_pick(0, 7);
		n = k < 3 ? (size_t)rel[k] : l + rel[k];
		raw = malloc(n + 1); b = raw; for (i = 0; i <= (int)n; i++) raw[i] = 'z';
		r = enclose_io_getcwd(b, n);
		if (n >= l + 1) { vf_assert(r == b && strcmp(b, cwd) == 0, "the working directory is the one last changed to"); vf_reach("reported"); }
		else { vf_assert(!r && errno && (n == 0 || errno == ERANGE), "a buffer that is too small is refused"); vf_reach("too small"); }
		vf_assert(raw[n] == 'z', "nothing is written behind the buffer");
		free(raw);
	} else { static char big[4096]; r = enclose_io_getwd(big); vf_assert(r == big && strcmp(big, cwd) == 0, "getwd tells the same"); }
	vf_assert(vf_sys_n == 0, "the system is not asked");
}
static void rel(void) { /* relative names start at it */
	static const char *t[4] = { "f", "g", "../g", "d" }; int i = (int)vf_pick(0, 3), w; struct stat sb; int r;
	if (!cwd[0]) return;
	strcpy(full, cwd); strcat(full, "/"); strcat(full, t[i]);
	if (strlen(full) > 2040) return;
	w = ref_resolve(full, strlen(full), 1);
	vf_sys_n = 0;
	r = enclose_io_stat(t[i], &sb);
	vf_assert(vf_sys_n == 0, "a relative name is the image's");
	if (w >= 0) { vf_assert(r == 0 && sb.st_mtime == 1000 + w, "a relative name starts at the working directory"); vf_reach("relative"); }
	else vf_assert(r == -1, "a relative name that does not exist");
}
static void change(int step) {
	uint32_t fam = step == 0 ? vf_split(4, 1) : (uint32_t)vf_pick(0, 2), n, i; int in, w = -1, r, big; size_t l;
	if (fam == 0) strcpy(path, words[step == 0 ? vf_split(16, 2) : vf_pick(0, 15)]);
	else if (fam == 1) { n = (uint32_t)vf_pick(1, step ? FREE - 1 : FREE); for (i = 0; i < n; i++) { path[i] = vf_u8(); vf_assume(path[i] != 0); } path[n] = 0; }
	else if (fam == 2) { strcpy(path, PRE); n = (uint32_t)vf_pick(1, step ? FREE - 1 : FREE); for (i = 0; i < n; i++) { path[PREN + i] = vf_u8(); vf_assume(path[PREN + i] != 0); } path[PREN + n] = 0; }
	else { static const uint16_t ls[8] = { 2000, 2023, 2040, 2045, 2046, 2047, 2048, 2049 }; n = ls[vf_pick(0, 7)]; strcpy(path, PRE "/"); for (i = PREN + 1; i + 3 < n; i += 2) { path[i] = '.'; path[i + 1] = '/'; } while (i < n - 1) path[i++] = '/'; path[i++] = vf_pick(0, 1) ? '/' : 'd'; path[i] = 0; }
	in = cwd[0] && path[0] != '/' ? 1 : ref_inside(path);
	vf_sys_n = 0; errno = vf_stale();
	r = enclose_io_chdir(path);
	if (!in) {
		vf_assert(vf_sys_n == 1 && vf_sys[0].call == S_CHDIR && strcmp(vf_sys[0].orig, path) == 0, "a directory outside is the system's");
		if (r == 0) { cwd[0] = 0; vf_reach("left"); }
		return;
	}
	vf_assert(vf_sys_n == 0, "a directory of the image is not the system's");
	full[0] = 0;
	if (path[0] != '/') { strcpy(full, cwd); strcat(full, "/"); }
	strcat(full, path);
	l = strlen(full); big = l >= 2046;
	w = ref_resolve(full, l, 1);
	if (r == 0) {
		vf_assert(w >= 0 && N[w].type == T_DIR, "only a directory can be changed to");
		while (l && full[l - 1] == '/') l--;
		full[l] = 0; strcpy(cwd, full);
		vf_reach(path[0] == '/' ? "entered" : "moved");
	} else { vf_assert(r == -1 && errno != 0 && (big || w < 0 || N[w].type != T_DIR), "a directory of the image can be changed to"); vf_reach("refused"); }
}
void harness(void) {
	int k, n = 1 + (int)vf_split(K, 0), when;
	encl_start();
	vf_sys_answer = answer;
	when = (int)vf_pick(0, 1);
	for (k = 0; k < n; k++) {
		change(k);
		if (k == n - 1) { if (when) report(); else rel(); }
	}
	vf_assert(vf_locks_held == 0 && vf_live >= 0, "no lock is held");
	vf_end();
}
