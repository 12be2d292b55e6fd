/* C library functions for the symbolic executor (libc itself has no bitcode).
 * The native replay uses the real libc. */
#include <stddef.h>
#include <stdint.h>
unsigned vf_thread_self(void);
static int vf_errno_var[8];
int *__errno_location(void) { return &vf_errno_var[vf_thread_self()]; }
void *malloc(size_t); void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t k) { size_t n = 0; while (n < k && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (; *a && *a == *b; a++, b++) ; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return low(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { for (; *a && low(*a) == low(*b); a++, b++) ; return low((unsigned char)*a) - low((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (low((unsigned char)*a) != low((unsigned char)*b)) return low((unsigned char)*a) - low((unsigned char)*b); if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i; for (i = 0; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strchrnul(const char *s, int c) { for (; *s && *s != (char)c; s++) ; return (char *)s; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const unsigned char *a = h, *b = n; size_t i, j; for (i = 0; i + nn <= hn; i++) { for (j = 0; j < nn && a[i + j] == b[j]; j++) ; if (j == nn) return (void *)(a + i); } return 0; }
char *strstr(const char *h, const char *n) { size_t j; for (;; h++) { for (j = 0; n[j] && h[j] == n[j]; j++) ; if (!n[j]) return (char *)h; if (!*h) return 0; } }
size_t strspn(const char *s, const char *a) { size_t n; for (n = 0; s[n] && strchr(a, s[n]); n++) ; return n; }
size_t strcspn(const char *s, const char *a) { size_t n; for (n = 0; s[n] && !strchr(a, s[n]); n++) ; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { char *e; if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
char *strtok(char *s, const char *d) { static char *sv; return strtok_r(s, d, &sv); }
char *__strtok_r(char *s, const char *d, char **sv) { return strtok_r(s, d, sv); }
char *strsep(char **p, const char *d) { char *s = *p, *e; if (!s) return 0; e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = 0; return s; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
char *strerror(int e) { (void)e; return "error"; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
unsigned long gnu_dev_makedev(unsigned ma, unsigned mi) { return ((unsigned long)(ma & 0xfff) << 8) | ((unsigned long)(ma & 0xfffff000u) << 32) | (mi & 0xff) | ((unsigned long)(mi & 0xffffff00u) << 12); }
unsigned gnu_dev_major(unsigned long d) { return ((d >> 8) & 0xfff) | ((unsigned)(d >> 32) & 0xfffff000u); }
unsigned gnu_dev_minor(unsigned long d) { return (d & 0xff) | ((unsigned)(d >> 12) & 0xffffff00u); }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (; n; n--) if ((*a++ = *b++) == (unsigned char)c) return a; return 0; }
char *stpncpy(char *d, const char *s, size_t n) { size_t i, r; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (r = i; i < n; i++) d[i] = 0; return d + r; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
char *strcasestr(const char *h, const char *n) { size_t j; for (;; h++) { for (j = 0; n[j] && low((unsigned char)h[j]) == low((unsigned char)n[j]); j++) ; if (!n[j]) return (char *)h; if (!*h) return 0; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = lo + (hi - lo) / 2; const char *p = (const char *)b + m * w; int c = f(k, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
static int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'z' ? (c | 32) - 'a' + 10 : 99; }
static unsigned long number(const char *s, char **e, int base, int *neg) {
	const char *p = s; unsigned long v = 0; int any = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	*neg = *p == '-'; if (*p == '-' || *p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digit(p[2]) < 16) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	for (; digit(*p) < base; p++) { v = v * base + digit(*p); any = 1; }
	if (e) *e = (char *)(any ? p : s);
	return v;
}
unsigned long strtoul(const char *s, char **e, int b) { int neg; unsigned long v = number(s, e, b, &neg); return neg ? -v : v; }
long strtol(const char *s, char **e, int b) { return (long)strtoul(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return (long long)strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return (long long)strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || ((c | 32) >= 'a' && (c | 32) <= 'f'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
const unsigned short **__ctype_b_loc(void) {
	static unsigned short t[384]; static const unsigned short *p;
	if (!p) { int c; for (c = 0; c < 256; c++) t[c + 128] = (unsigned short)((isupper(c) ? 1 << 8 : 0) | (islower(c) ? 1 << 9 : 0) | (isalpha(c) ? 1 << 10 : 0) | (isdigit(c) ? 1 << 11 : 0) | (isxdigit(c) ? 1 << 12 : 0) | (isspace(c) ? 1 << 13 : 0) | (isprint(c) ? 1 << 14 : 0) | (isgraph(c) ? 1 << 15 : 0) | (isblank(c) ? 1 : 0) | (iscntrl(c) ? 2 : 0) | (ispunct(c) ? 4 : 0) | (isalnum(c) ? 8 : 0)); p = t + 128; }
	return &p;
}
const int **__ctype_tolower_loc(void) { static int t[384]; static const int *p; if (!p) { int c; for (c = -128; c < 256; c++) t[c + 128] = low(c); p = t + 128; } return &p; }
const int **__ctype_toupper_loc(void) { static int t[384]; static const int *p; if (!p) { int c; for (c = -128; c < 256; c++) t[c + 128] = toupper(c); p = t + 128; } return &p; }
