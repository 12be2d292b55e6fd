/* P24: extraction makes a faithful temporary copy once, and removes it in the end.
 * P25 (-DP=25): an extraction that fails at any step leaves nothing behind. */
#define IMG_MAX 100000
#include "img.h"
#include "env_file.h"
#define BS 8192
#ifdef VF_THOROUGH
#define K 6
#define MASKBITS 3
#define FBUDGET 3
#else
#define K 5
#define MASKBITS 2
#define FBUDGET 2
#endif
static sqfs fs, fs2;
static uint8_t content[40100], small_[2][8];
static uint32_t size; static uint8_t tagbad;
extern int vf_atexit_fail;
/* /a: the file under test; /b, /c: small ones; /d a directory; /l link to a; /n link to nothing; /p fifo */
static void build(sqfs *f, int which, int compressed) {
	uint32_t o, i, nb = size / BS, tail = size % BS, offs[8], root, fr = 0xffffffffu;
	o = img_end;
	img_blocksize = BS;
	if (compressed && nb) { /* the second block is compressed, and may be corrupted */
		for (i = 0; i < nb; i++) { if (i == nb - 1) { tagbad = ncodec; put_compressed(content + i * BS, BS); } else { uint32_t d = img_alloc(BS); memcpy(IMG + d, content + i * BS, BS); } }
	} else if (nb) { uint32_t d = img_alloc(nb * BS); memcpy(IMG + d, content, nb * BS); }
	if (tail) { img_frag[0].start = img_end; img_frag[0].size = UNC | (tail + 4); { uint32_t d = img_alloc(tail + 4); memcpy(IMG + d, content + nb * BS, tail); } img_nfrag = 1; fr = 0; }
	offs[0] = reg_inode(10, o, fr, 0, size);
	for (i = 0; i < nb; i++) w32(&INO, compressed && i == nb - 1 ? 4 : UNC | BS);
	for (i = 0; i < 2; i++) { uint32_t d = img_alloc(8); small_[i][0] = (uint8_t)('A' + which * 2 + i); memset(small_[i] + 1, 'z', 7); memcpy(IMG + d, small_[i], 8); offs[1 + i] = reg_inode(11 + i, d, 0xffffffffu, 0, i ? 8 : 5); w32(&INO, UNC | (i ? 8 : 5)); }
	offs[3] = dir_inode(13, 0, 0, 9);
	offs[4] = symlink_inode(14, "a", 1);
	offs[5] = symlink_inode(15, "zz", 2);
	offs[6] = inode_base(SQUASHFS_FIFO_TYPE, 0600, 0, 0, 7, 16); w32(&INO, 1);
	dir_header(7, offs[0], 10);
	dir_entry(offs[0], 0, SQUASHFS_REG_TYPE, "a", 1); dir_entry(offs[1], 1, SQUASHFS_REG_TYPE, "b", 1); dir_entry(offs[2], 2, SQUASHFS_REG_TYPE, "c", 1);
	dir_entry(offs[3], 3, SQUASHFS_DIR_TYPE, "d", 1); dir_entry(offs[4], 4, SQUASHFS_SYMLINK_TYPE, "l", 1); dir_entry(offs[5], 5, SQUASHFS_SYMLINK_TYPE, "n", 1); dir_entry(offs[6], 6, SQUASHFS_FIFO_TYPE, "p", 1);
	root = dir_inode(1, 0, DIRS.n, 9);
	img_finish(root, 9);
	vf_assert(sqfs_open_image(f, IMG, 0) == SQFS_OK, "a well-formed image opens");
	/* what is built next goes behind */
	IMG += (img_end + 15) & ~15u; img_end = 96; INO.n = DIRS.n = 0; img_nfrag = 0;
}
static const char *dir_;
static void faithful(const char *p, const uint8_t *c, uint32_t n, const char *ext) {
	struct vf_file *f; size_t l = strlen(p);
	f = vf_file_find(p);
	vf_assert(f != 0, "the path that is returned names a file");
	vf_assert(f->len == n && memcmp(f->data, c, n) == 0, "the copy has exactly the content of the file");
	vf_assert(!f->clobbered, "the file is a new one");
	vf_assert(strncmp(p, dir_, strlen(dir_)) == 0, "the copy lies in the temporary directory");
	if (ext) { vf_assert(l > strlen(ext) && p[l - strlen(ext) - 1] == '.' && strcmp(p + l - strlen(ext), ext) == 0, "the copy has the requested extension"); }
}
static void nothing_open(void) { vf_assert(vf_fds_open == 0 && vf_streams_open == 0, "no descriptor or stream stays open"); vf_assert(vf_locks_held == 0, "no lock is held"); }
static void finish(int others) {
	squash_extract_clear_cache();
	vf_assert(vf_files_count() == others, "clearing the cache removes every copy");
	sqfs_destroy(&fs); if (fs2.fd) sqfs_destroy(&fs2);
	{ int i; for (i = 0; i < vf_atexit_n; i++) vf_atexit_fn[i](); }
	vf_assert(vf_files_count() == others, "and nothing else");
	vf_assert(vf_live <= 1, "no memory stays behind (but for the name of the temporary directory)");
	vf_end();
}
static const uint16_t sizes[8] = { 0, 1, 5000, 16383, 16384, 16385, 24576, 40000 };
static void contents(void) { uint32_t i; for (i = 0; i < size; i++) content[i] = (uint8_t)(i * 31 + (i >> 8) + 3); if (size) { content[0] = vf_u8(); content[size - 1] = vf_u8(); content[size / 2] = vf_u8(); } }
void harness(void) {
	uint32_t mode = vf_split(3, 0), sp = vf_split(8, 1), i, j; const char *p, *q, *ext; char path[8];
	dir_ = "/tmp";
#if P == 24
	if (mode == 0) { /* every size; every place of the temporary directory */
		size = sizes[sp]; contents();
		build(&fs, 0, sp & 1);
		vf_assert(squash_start() == SQFS_OK, "start");
		switch (vf_pick(0, 5)) { case 0: break; case 1: vf_env_tmpdir = "/my/tmp/"; vf_env_tmp = "/no"; dir_ = "/my/tmp/libsquash"; break; case 2: vf_env_tmp = "/u"; vf_env_temp = "/no"; dir_ = "/u/"; break; case 3: vf_env_temp = "/v/w"; dir_ = "/v/w/"; break; case 4: vf_env_tmpdir = "/"; dir_ = "/"; break; default: vf_env_tmpdir = ""; dir_ = "/"; }
		ext = vf_pick(0, 1) ? "so.1" : NULL;
		p = squash_extract(&fs, sp == 3 ? "/l" : "/a", ext);
		vf_assert(p != 0, "extracting a regular file succeeds");
		nothing_open();
		faithful(p, content, size, ext);
		vf_assert(vf_files_count() == 1, "one copy is made");
		q = squash_extract(&fs, sp == 3 ? "/l" : "/a", ext);
		vf_assert(q && strcmp(p, q) == 0 && vf_files_count() == 1 && vf_creations == 1, "the same path again gives the same copy");
		faithful(q, content, size, ext);
		vf_reach("size");
		finish(0);
	} else if (mode == 1) { /* histories over paths and images */
		static const char *const names[4] = { "/b", "/c", "b", "/a" };
		struct { int f; const char *p; char name[64]; } tab[16]; int nt = 0;
		size = 20; contents();
		build(&fs, 0, 0); build(&fs2, 1, 0);
		vf_assert(squash_start() == SQFS_OK, "start");
		for (i = 0; i < K; i++) {
			uint32_t what = i == 0 ? sp : (uint32_t)vf_pick(0, 8); int w, n, c0 = vf_creations, hit = -1; uint8_t want[8];
			if (what == 8) { squash_extract_clear_cache(); nt = 0; vf_assert(vf_files_count() == 0, "clearing the cache removes every copy"); vf_reach("cleared"); continue; }
			w = (int)what >> 2; n = (int)what & 3;
			strcpy(path, names[n]); /* the caller reuses one string */
			ext = (i & 1) ? "x" : NULL;
			p = squash_extract(w ? &fs2 : &fs, path, ext);
			memset(path, 'q', sizeof path);
			vf_assert(p != 0, "extracting a regular file succeeds");
			nothing_open();
			for (j = 0; j < (uint32_t)nt; j++) if (tab[j].f == w && tab[j].p == names[n]) hit = (int)j;
			if (hit >= 0) { vf_assert(strcmp(p, tab[hit].name) == 0 && vf_creations == c0, "the same path again gives the same copy"); ext = NULL; vf_reach("again"); }
			else {
				vf_assert(vf_creations == c0 + 1, "one copy is made");
				for (j = 0; j < (uint32_t)nt; j++) vf_assert(strcmp(p, tab[j].name) != 0, "different paths and images have different copies");
				tab[nt].f = w; tab[nt].p = names[n]; strcpy(tab[nt].name, p); nt++;
			}
			if (n == 3) faithful(p, content, size, ext);
			else { want[0] = (uint8_t)('A' + w * 2 + (n == 1)); memset(want + 1, 'z', 7); faithful(p, want, n == 1 ? 8 : 5, ext); }
		}
		vf_assert(vf_files_count() == nt, "every copy is still there");
		finish(0);
	} else { /* names already taken by others */
		uint32_t n = sp & 3, others = 0; struct vf_file *o[4];
		size = 20; contents();
		build(&fs, 0, 0);
		vf_assert(squash_start() == SQFS_OK, "start");
		if (n > 0) { o[others] = vf_file_make("/tmp/libsquash-1"); o[others++]->len = 3; }
		if (n > 1) { o[others] = vf_file_make("/tmp/libsquash-2"); o[others++]->len = 3; }
		if (n > 2) { o[others] = vf_file_make("/tmp/libsquash-1.x"); o[others++]->len = 3; }
		vf_rand_choices = 3;
		for (i = 0; i < 2; i++) {
			ext = sp & 4 ? "x" : NULL;
			errno = 0;
			p = squash_extract(&fs, i ? "/c" : "/b", ext);
			nothing_open();
			if (p) { uint8_t want[8]; want[0] = (uint8_t)('A' + i); memset(want + 1, 'z', 7); faithful(p, want, i ? 8 : 5, ext); vf_reach("free name"); }
			else { vf_assert(errno != 0, "a failed extraction sets errno"); vf_reach("no free name"); }
			for (j = 0; j < others; j++) vf_assert(o[j]->used && o[j]->len == 3 && !o[j]->clobbered, "files of others are left alone");
		}
		finish((int)others);
	}
#else
	{
		static const char *const paths[8] = { "/a", "/a", "/l", "/nope", "/d", "/n", "/p", "/a/x" };
		uint64_t m, m2; int expect, dup = 0, bad = 0, hit, copies; uint32_t big = sp == 1;
		if (mode == 2 && sp > 2) vf_end();
		size = sp == 0 ? 20000 : big ? 40000 : 300; contents();
		build(&fs, 0, mode == 1 && sp < 2);
		vf_assert(squash_start() == SQFS_OK, "start");
		expect = sp < 3;
		if (mode == 2) { /* the temporary directory is a very long name */
			static char huge[33000]; memset(huge, 'x', sizeof huge - 1); huge[0] = '/'; huge[sp == 0 ? 32999 : sp == 1 ? 32745 : 300] = 0; vf_env_tmpdir = huge;
			errno = 0;
			p = squash_extract(&fs, "/a", NULL);
			vf_assert(!p && errno, "an extraction that cannot be named fails");
			nothing_open(); vf_assert(vf_files_count() == 0, "nothing is left behind");
			vf_reach("long name");
			finish(0);
		}
		if (mode == 0) { /* memory and descriptors run out */
			m = vf_u64(); m2 = m;
			for (i = 0; i < MASKBITS; i++) m2 &= m2 - 1;
			vf_assume(m2 == 0);
			dup = vf_dup_fail = (int)vf_pick(0, 1);
			vf_oom_mask = m; vf_oom_on = 1; vf_oom_no = 0;
		} else { /* any file operation fails; the last block is corrupted */
			vf_f_budget = FBUDGET;
			if (tagbad) bad = vf_codecs[tagbad].bad = (int)vf_pick(0, 1);
		}
		errno = 0;
		p = squash_extract(&fs, paths[sp], "e");
		vf_oom_on = 0; vf_dup_fail = 0;
		hit = mode == 0 ? dup || vf_oom_no > 63 || (vf_oom_mask & ((1ull << vf_oom_no) - 1)) != 0 : bad || vf_f_budget < FBUDGET;
		vf_f_budget = 0; if (tagbad) vf_codecs[tagbad].bad = 0;
		nothing_open();
		if (p) { vf_assert(expect, "only regular files are extracted"); faithful(p, content, size, "e"); copies = 1; vf_reach("extracted"); }
		else {
			vf_assert(errno != 0, "a failed extraction sets errno");
			vf_assert(!expect || hit, "an extraction without a fault succeeds");
			vf_assert(vf_files_count() == 0, "a failed extraction leaves no file");
			copies = 0; vf_reach("failed");
		}
		vf_obs(copies);
		errno = 0;
		q = squash_extract(&fs, paths[sp], "e");
		nothing_open();
		if (expect) { vf_assert(q != 0, "a later extraction without the fault succeeds"); faithful(q, content, size, "e"); vf_assert(vf_files_count() == 1, "one copy is there"); }
		else vf_assert(!q && errno && vf_files_count() == 0, "what is no regular file is never extracted");
		finish(0);
	}
#endif
}
