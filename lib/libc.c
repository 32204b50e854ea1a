/* The C library functions the harnesses reach, in plain C, so that they are executed symbolically too. */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <stdlib.h>
long write(int, const void *, unsigned long);
void *memset(void *p, int c, size_t n) { return __builtin_memset(p, c, n); }
void *memcpy(void *d, const void *s, size_t n) { return __builtin_memcpy(d, s, n); }
void *memmove(void *d, const void *s, size_t n) { return __builtin_memmove(d, s, n); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower(*a) == tolower(*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char *strndup(const char *s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; char *p = malloc(k + 1); for (size_t i = 0; i < k; i++) p[i] = s[i]; p[k] = 0; return p; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int abs(int x) { return x < 0 ? -x : x; }
static int digit(int c, int base) { int d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99; return d < base ? d : -1; }
unsigned long strtoul(const char *s, char **end, int base) {
	const char *p = s; int neg = 0; unsigned long v = 0; while (isspace((unsigned char)*p)) p++;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2], 16) >= 0) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	const char *b = p; for (; digit((unsigned char)*p, base) >= 0; p++) v = v * base + digit((unsigned char)*p, base);
	if (end) *end = (char *)(p == b ? s : p); return neg ? -v : v;
}
long strtol(const char *s, char **end, int base) {
	const char *p = s; int neg = 0; unsigned long v = 0, lim; int over = 0; while (isspace((unsigned char)*p)) p++;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2], 16) >= 0) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX; const char *b = p;
	for (; digit((unsigned char)*p, base) >= 0; p++) { int d = digit((unsigned char)*p, base); if (v > (lim - d) / base) over = 1; else v = v * base + d; }
	if (end) *end = (char *)(p == b ? s : p); if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } return neg ? (long)-v : (long)v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
static int isnan_(double x) { return x != x; }
static int dg(int c) { for (int k = 0; k < 9; k++) if (c == '0' + k) return k; return 9; }
double strtod(const char *s, char **end) {
	/* correctly rounded for up to 15 digits and powers of ten up to 22 */
	const char *p = s; int neg = 0, any = 0, x = 0, nd = 0; unsigned long m = 0; while (isspace((unsigned char)*p)) p++;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	for (; isdigit((unsigned char)*p); p++) { any = 1; if (nd < 18) { m = m * 10 + dg(*p); if (m) nd++; } else x++; }
	if (*p == '.') { p++; for (; isdigit((unsigned char)*p); p++) { any = 1; if (nd < 18) { m = m * 10 + dg(*p); if (m) nd++; x--; } } }
	if (any && (*p == 'e' || *p == 'E')) { const char *q = p + 1; int en = 0, e = 0; if (*q == '-' || *q == '+') en = *q++ == '-'; if (isdigit((unsigned char)*q)) { for (; isdigit((unsigned char)*q); q++) if (e < 10000) e = e * 10 + dg(*q); x += en ? -e : e; p = q; } }
	double v = (double)m, t = 1; int k = x < 0 ? -x : x; if (k > 22) { while (k-- > 0 && k < 700) v = x < 0 ? v / 10 : v * 10; } else { while (k-- > 0) t *= 10; v = x < 0 ? v / t : v * t; }
	if (end) *end = (char *)(any ? p : s); return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, NULL); }
struct out { char *b; size_t n, cap; };
static void put(struct out *o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void num(struct out *o, unsigned long v, int base, int neg, int width, int zero, int upper, int prec, int left) {
	char t[24]; int n = 0; while (v) { int d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; }
	if (!n && prec != 0) t[n++] = '0'; while (n < prec) t[n++] = '0';
	int len = n + neg; if (!zero && !left) for (; width > len; width--) put(o, ' ');
	if (neg) put(o, '-'); if (zero) for (; width > len; width--) put(o, '0'); for (int i = n; i-- > 0;) put(o, t[i]); if (left) for (; width > len; width--) put(o, ' ');
}
void vf_double(char *b, char conv, int prec, double d);
int vsnprintf(char *b, size_t cap, const char *f, va_list a) {
	struct out o = {b, 0, cap};
	for (; *f; f++) {
		if (*f != '%') { put(&o, *f); continue; }
		f++; int zero = 0, left = 0, width = 0, prec = -1, lng = 0, sgn = 0;
		for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') sgn = 1; else if (*f != '#' && *f != ' ') break; }
		if (*f == '*') { width = va_arg(a, int); f++; } else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(a, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
		while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
		switch (*f) {
		case '%': put(&o, '%'); break;
		case 'c': { int c = va_arg(a, int); if (!left) for (; width > 1; width--) put(&o, ' '); put(&o, (char)c); if (left) for (; width > 1; width--) put(&o, ' '); break; }
		case 's': { const char *s = va_arg(a, const char *); if (!s) s = "(null)"; int n = 0; while ((prec < 0 || n < prec) && s[n]) n++; if (!left) for (; width > n; width--) put(&o, ' '); for (int i = 0; i < n; i++) put(&o, s[i]); if (left) for (; width > n; width--) put(&o, ' '); break; }
		case 'd': case 'i': { long v = lng ? va_arg(a, long) : va_arg(a, int); if (sgn && v >= 0) put(&o, '+'); num(&o, v < 0 ? -(unsigned long)v : (unsigned long)v, 10, v < 0, width, zero, 0, prec, left); break; }
		case 'u': num(&o, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned), 10, 0, width, zero, 0, prec, left); break;
		case 'o': num(&o, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned), 8, 0, width, zero, 0, prec, left); break;
		case 'x': case 'X': num(&o, lng ? va_arg(a, unsigned long) : va_arg(a, unsigned), 16, 0, width, zero, *f == 'X', prec, left); break;
		case 'p': put(&o, '0'); put(&o, 'x'); num(&o, (unsigned long)va_arg(a, void *), 16, 0, 0, 0, 0, -1, 0); break;
		case 'f': case 'g': case 'e': case 'F': case 'G': { char t[400]; vf_double(t, *f, prec, va_arg(a, double)); int n = strlen(t); if (!left) for (; width > n; width--) put(&o, ' '); for (int i = 0; t[i]; i++) put(&o, t[i]); break; }
		default: put(&o, '%'); put(&o, *f); if (!*f) f--; break;
		}
	}
	if (cap) b[o.n < cap ? o.n : cap - 1] = 0;
	return (int)o.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int vsprintf(char *b, const char *f, va_list a) { return vsnprintf(b, (size_t)1 << 40, f, a); }
int sprintf(char *b, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, (size_t)1 << 40, f, a); va_end(a); return r; }
/* streams: memory to read from, or a buffer that grows; descriptors 1 and 2 go to the engine */
#define FILE VFILE
typedef struct { unsigned char *b; size_t n, pos, cap; int fd, eof, unget; } VFILE;
static VFILE f0, f1 = {0, 0, 0, 0, 1, 0, 0}, f2 = {0, 0, 0, 0, 2, 0, 0};
VFILE *stdin = &f0, *stdout = &f1, *stderr = &f2;
static void emit1(VFILE *f, const char *b, size_t n) {
	if (f->fd) { write(f->fd, b, n); return; }
	for (size_t i = 0; i < n; i++) { if (f->n == f->cap) { unsigned char *q = malloc(f->cap * 2 + 64); for (size_t k = 0; k < f->n; k++) q[k] = f->b[k]; free(f->b); f->b = q; f->cap = f->cap * 2 + 64; } f->b[f->n++] = b[i]; }
}
VFILE *vf_file(const char *d, size_t n) { VFILE *f = malloc(sizeof *f); f->b = malloc(n + 1); for (size_t i = 0; i < n; i++) f->b[i] = d[i]; f->n = n; f->pos = 0; f->cap = 0; f->fd = 0; f->eof = 0; f->unget = 0; return f; }
VFILE *vf_sink(void) { return vf_file("", 0); }
size_t vf_sunk(VFILE *f, char *b, size_t n) { size_t i = 0; for (; i < n && i < f->n; i++) b[i] = f->b[i]; return i; }
void vf_stdin(const char *d, size_t n) { stdin = vf_file(d, n); }
void vf_stdout(VFILE *f) { stdout = f; }
int fgetc(VFILE *f) { if (f->unget) { int c = f->unget - 1; f->unget = 0; return c; } if (f->pos >= f->n) { f->eof = 1; return -1; } return f->b[f->pos++]; }
int getc(VFILE *f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, VFILE *f) { if (c < 0) return -1; f->unget = (unsigned char)c + 1; f->eof = 0; return c; }
int feof(VFILE *f) { return f->eof; }
int ferror(VFILE *f) { (void)f; return 0; }
size_t fread(void *b, size_t w, size_t n, VFILE *f) { unsigned char *p = b; size_t k = 0; for (; k < w * n; k++) { int c = fgetc(f); if (c < 0) break; p[k] = c; } return w ? k / w : 0; }
size_t fwrite(const void *b, size_t w, size_t n, VFILE *f) { emit1(f, b, w * n); return n; }
int fclose(VFILE *f) { free(f->b); free(f); return 0; }
char *fgets(char *b, int n, VFILE *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
static int emit(VFILE *f, const char *fmt, va_list a) { char t[600]; int n = vsnprintf(t, 600, fmt, a); emit1(f, t, n < 599 ? n : 599); return n; }
int printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = emit(stdout, fmt, a); va_end(a); return r; }
int vprintf(const char *fmt, va_list a) { return emit(stdout, fmt, a); }
int fprintf(VFILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = emit(f, fmt, a); va_end(a); return r; }
int vfprintf(VFILE *f, const char *fmt, va_list a) { return emit(f, fmt, a); }
int fputs(const char *s, VFILE *f) { emit1(f, s, strlen(s)); return 1; }
int puts(const char *s) { fputs(s, stdout); emit1(stdout, "\n", 1); return 1; }
int fputc(int c, VFILE *f) { char b = c; emit1(f, &b, 1); return (unsigned char)c; }
int putc(int c, VFILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fflush(VFILE *f) { (void)f; return 0; }
static int scan(const char *s, const char *f, va_list a) { int n = 0; char *e = (char *)s;
	for (; *f; f++) { if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*e)) e++; continue; } if (*f != '%') { if (*e != *f) break; e++; continue; }
		f++; int l = 0; while (*f == 'l' || *f == 'z') { l = 1; f++; } char *b = e;
		if (*f == 'd') { long v = strtol(b, &e, 10); if (e == b) break; if (l) *va_arg(a, long *) = v; else *va_arg(a, int *) = (int)v; }
		else if (*f == 'u') { unsigned long v = strtoul(b, &e, 10); if (e == b) break; if (l) *va_arg(a, unsigned long *) = v; else *va_arg(a, unsigned *) = (unsigned)v; }
		else if (*f == 'f') { double v = strtod(b, &e); if (e == b) break; if (l) *va_arg(a, double *) = v; else *va_arg(a, float *) = (float)v; }
		else break;
		n++; }
	return n; }
int sscanf(const char *s, const char *f, ...) { va_list a; va_start(a, f); int n = scan(s, f, a); va_end(a); return n; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list a; va_start(a, f); int n = scan(s, f, a); va_end(a); return n; }
double round(double x) { double t = (double)(long)x; if (x - t >= 0.5) t += 1; if (t - x >= 0.5) t -= 1; return x > 9e15 || x < -9e15 ? x : t; }
double floor(double x) { double t = (double)(long)x; return x > 9e15 || x < -9e15 ? x : t > x ? t - 1 : t; }
static void swap(char *a, char *b, size_t n) { for (size_t i = 0; i < n; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) swap(p + (j - 1) * w, p + j * w, w); }
int vf_in(int i);
unsigned vf_u32(int i) { return (unsigned)vf_in(i) | (unsigned)vf_in(i + 1) << 8 | (unsigned)vf_in(i + 2) << 16 | (unsigned)vf_in(i + 3) << 24; }
unsigned char vf_u8(int i) { return (unsigned char)vf_in(i); }
char vf_c(int i) { return (char)vf_in(i); }
void vf_assert(int, const char *);
void vf_eq(long a, long b, const char *what) { vf_assert(a == b, what); }
int vf_i(long x) { return (int)x; }

/* input i, decided by the path */
int vf_pick(int i) { int v = vf_in(i); for (int k = 0; k < 255; k++) if (v == k) return k; return 255; }
