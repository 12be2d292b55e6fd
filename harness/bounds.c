/* P18: following links ends; lengths around the internal limits stay within bounds. */
#define MAXN 60
#define IMG_MAX 90000
#define INO_CAP 30000
#include "tree.h"
static sqfs fs;
static char buf[6000], tgt[6000];
static struct stat sb;
/* every way of resolving the path; the answers agree */
static int all(const char *p) {
	int r, fd; SQUASH_DIR *d; char lb[8]; char *copy = malloc(strlen(p) + 1); /* exactly sized: reading behind it shows */
	strcpy(copy, p);
	errno = vf_stale(); r = squash_stat(&fs, copy, &sb);
	vf_assert(r == 0 || (r == -1 && errno != 0), "resolving ends with success or an error");
	if (r < 0) { int e = errno; errno = vf_stale(); fd = squash_open(&fs, copy); vf_assert(fd == -1 && errno == e, "open gives the same error"); errno = vf_stale(); d = squash_opendir(&fs, copy); vf_assert(d == NULL && errno == e, "opendir gives the same error"); errno = e; }
	else { fd = squash_open(&fs, copy); vf_assert(fd >= 0 && squash_close(fd) == 0, "open succeeds as stat does"); }
	{ int e = errno; sqfs_inode node; sqfs_err q; errno = vf_stale(); q = squash_follow_link(&fs, copy, &node);
		if (strlen(copy) > SQUASHFS_PATH_LEN) vf_assert(q != SQFS_OK && errno == ENAMETOOLONG, "following refuses an overlong path");
		else if (r) vf_assert(q != SQFS_OK && errno == e, "following fails as stat does"); else vf_assert(q == SQFS_OK, "following succeeds as stat does"); errno = e; }
	{ int e = errno; struct stat s2; (void)squash_lstat(&fs, copy, &s2); (void)squash_readlink(&fs, copy, lb, sizeof lb); errno = e; }
	free(copy);
	return r;
}
static void begin(void) {
	tree_finish();
	vf_assert(sqfs_open_image(&fs, IMGBUF, 0) == SQFS_OK, "a well-formed image opens");
	vf_assert(squash_start() == SQFS_OK, "start");
}
/* a path of exactly n bytes naming node /d/f in a roundabout way */
static void roundabout(char *p, uint32_t n, uint32_t how) {
	uint32_t k = 0; const char *unit = how == 0 ? "/." : how == 1 ? "/" : how == 2 ? "/d/.." : "/./";
	uint32_t ul = strlen(unit);
	while (k + ul + 4 <= n) { memcpy(p + k, unit, ul); k += ul; }
	while (k + 4 < n) p[k++] = '/';
	memcpy(p + k, "/d/f", 4); p[n] = 0;
}
void harness(void) {
	uint32_t mode = vf_split(7, 0), sp = vf_split(8, 1), i, n; int r, d;
	add(-1, T_DIR, "");
	if (mode == 0) { /* cycles: two links with any targets over a small alphabet, and every path of two components */
		static const char *const t[8] = { "a", "b", "/a/b", "b/a", "d/a", "../a", "d/../b", "/d" };
		static const char *const q[6] = { "/a", "/b/", "/a/b", "/d/a", "/d/a/x", "b/../a" };
		uint32_t x = (uint32_t)vf_pick(0, 7), y = (uint32_t)vf_pick(0, 7); int want; const char *p = q[vf_pick(0, 5)];
		add_link(0, "a", t[sp], strlen(t[sp])); add_link(0, "b", t[x], strlen(t[x])); d = add(0, T_DIR, "d"); add_link(d, "a", t[y], strlen(t[y]));
		begin();
		want = ref_resolve(p, strlen(p), 1);
		r = all(p);
		if (want >= 0) { vf_assert(r == 0 && sb.st_mtime == 1000 + want, "links that lead somewhere are followed"); vf_reach("leads somewhere"); }
		else if (want == -1) { vf_assert(r == -1 && errno == ENOENT, "links to nothing give ENOENT"); vf_reach("leads nowhere"); }
		else { vf_assert(r == -1 && errno == ELOOP, "cyclic links give ELOOP"); vf_reach("cycle"); }
	} else if (mode == 1) { /* arbitrary self-referring targets */
		n = 1 + (sp & 3);
		for (i = 0; i < n; i++) { static const char al[4] = { '/', '.', 'a', 'b' }; tgt[i] = al[vf_pick(0, 3)]; }
		add_link(0, "a", tgt, n); add_link(0, "b", sp & 4 ? "a/b" : "a", sp & 4 ? 3 : 1);
		begin();
		{ int want = ref_resolve("/a/b", 4, 1); r = all("/a/b"); vf_assert((r == 0) == (want >= 0), "links resolve as their targets say"); if (want < 0) vf_assert(errno == (want == -2 ? ELOOP : ENOENT), "and fail as they say"); }
		{ int want = ref_resolve("b", 1, 1); r = all("b"); vf_assert((r == 0) == (want >= 0), "links resolve as their targets say"); if (want < 0) vf_assert(errno == (want == -2 ? ELOOP : ENOENT), "and fail as they say"); }
		vf_reach("arbitrary");
	} else if (mode == 2) { /* chains */
		static const uint8_t len[8] = { 1, 2, 8, 31, 32, 33, 34, 45 }; static char nm[60][3], to[60][3];
		n = len[sp];
		for (i = 0; i < n; i++) { nm[i][0] = 'A' + i / 8; nm[i][1] = 'a' + i % 8; if (i) memcpy(to[i - 1], nm[i], 2); }
		memcpy(to[n - 1], "zz", 2);
		for (i = 0; i < n; i++) add_link(0, nm[i], to[i], 2);
		add_file(0, "zz", "Z", 1);
		begin();
		r = all("/Aa");
		if (n <= SQUASHFS_MAX_LINK_LEVEL) { vf_assert(r == 0 && sb.st_mtime == 1000 + NN - 1, "a chain of links is followed to the end"); vf_reach("chain"); }
		else { vf_assert(r == -1 && errno == ELOOP, "a longer chain gives ELOOP"); vf_reach("too long"); }
	} else if (mode == 3) { /* long paths */
		static const uint16_t len[8] = { 250, 1000, 2040, 2046, 2047, 2048, 2049, 5000 };
		d = add(0, T_DIR, "d"); add_file(d, "f", "F", 1);
		begin();
		roundabout(buf, len[sp] + (uint32_t)vf_pick(0, 1), (uint32_t)vf_pick(0, 3));
		r = all(buf);
		if (len[sp] + 1 < SQUASHFS_PATH_LEN) { vf_assert(r == 0 && sb.st_mtime == 1002, "a long path names its object"); vf_reach("long path"); }
		else if (r == 0) vf_assert(sb.st_mtime == 1002, "an overlong path names its object or is refused");
	} else if (mode == 4) { /* long targets, with something before and behind */
		static const uint16_t len[8] = { 250, 1000, 2040, 2044, 2047, 2048, 2049, 5000 };
		uint32_t how = (uint32_t)vf_pick(0, 2), more = (uint32_t)vf_pick(0, 1);
		n = len[sp] + more;
		roundabout(tgt, n, sp & 3);
		if (how == 1) memcpy(tgt + n - 4, sp & 1 ? "///d" : "/./d", 4); /* then /f follows */
		if (how == 2) tgt[0] = sp & 2 ? 'd' : '.', tgt[1] = sp & 2 ? '/' : '/'; /* relative */
		if (how == 2) memcpy(tgt + n - 4, sp & 2 ? "/./f" : "/d/f", 4);
		if (how == 2 && (sp & 2)) for (i = 2; i < n - 4; i++) tgt[i] = '/';
		d = add(0, T_DIR, "d"); add_file(d, "f", "F", 1); add_link(0, "l", tgt, n);
		begin();
		{ int want = ref_resolve(how == 1 ? "/l/f" : "/l", how == 1 ? 4 : 2, 1);
		r = all(how == 1 ? "/l/f" : how == 2 ? "//./l" : "/l");
		if (n + 8 < SQUASHFS_PATH_LEN) { vf_assert((r == 0) == (want >= 0), "a long target leads to its object"); if (want >= 0) vf_assert(sb.st_mtime == 1000 + want, "it leads to the right one"); vf_reach("long target"); }
		else if (r == 0) vf_assert(want >= 0 && sb.st_mtime == 1000 + want, "an overlong target leads to its object or is refused"); }
	} else if (mode == 6) { /* any stored size larger than anything behind it */
		static const char *const q[8] = { "/l", "l", "/l/f", "/l/", "d/../l", "d/m", "/d/m/f", "/d/m/../f" };
		img_link_size = vf_u32(); vf_assume(img_link_size > MDSZ);
		add_link(0, "l", "/f", 2); d = add(0, T_DIR, "d"); add_file(0, "f", "F", 1); add_link(d, "m", "../f", 4);
		begin();
		r = all(q[sp]);
		if (sp == 7) vf_assert(r == -1 || sb.st_mtime == 1003, "a path that steps back over a link names what is left or fails"); else
		vf_assert(r == -1, "a link whose target is not there leads nowhere");
		vf_reach("oversized");
	} else { /* long components, in paths and targets */
		static const uint16_t len[8] = { 200, 254, 255, 256, 257, 300, 1000, 2030 }; static char name[256];
		memset(buf, 'k', 4100); buf[0] = '/'; n = len[sp];
		for (i = 0; i < 255; i++) name[i] = 'k';
		name[255] = 0;
		if (n < 255) name[n] = 0;
		add_file(0, name, "F", 1);
		memcpy(tgt, buf, n + 1);
		add_link(0, "l", tgt, n + 1);
		begin();
		buf[n + 1] = 0;
		r = all(buf);
		if (n <= 255) { vf_assert(r == 0 && sb.st_mtime == 1001, "a long name is found"); vf_reach("long name"); } else { vf_assert(r == -1 && (errno == ENOENT || errno == ENAMETOOLONG), "a longer name than any is not found"); vf_reach("longer name"); }
		r = all("/l");
		if (n <= 255) vf_assert(r == 0 && sb.st_mtime == 1001, "a link to a long name is followed"); else vf_assert(r == -1, "a link to a longer name fails");
		buf[n + 1] = '/'; buf[n + 2] = 'f'; buf[n + 3] = 0;
		r = all(buf);
		vf_assert(r == -1, "a file has no entries");
	}
	vf_assert(vf_locks_held == 0 && vf_fds_open == 0, "nothing is held");
	img_close_all(&fs);
	vf_end();
}
