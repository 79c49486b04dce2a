/* C models of the libc functions the repository calls, executed symbolically together with it.
 * Files live in memory.  Not used in native replays (those use the real libc in a scratch directory). */
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include "sx.h"
void *malloc(size_t); void free(void *); void exit(int); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
void sx_inconclusive(const char *); int sx_fmt_double(char *, const char *, double); double sx_strtod(const char *);
typedef struct SXF { int fd, pos, rd, wr, eof, err, ap; } SXF;
#define NF 8
#ifndef FCAP
#define FCAP 16384
#endif
static char fname[NF][1024]; static int flen[NF]; static int fexists[NF]; static int fdeny[NF]; static int nfiles;
static unsigned char fd0[FCAP], fd1[FCAP], fd2[FCAP], fd3[FCAP], fd4[FCAP], fd5[FCAP], fd6[FCAP], fd7[FCAP];
static unsigned char *const fdat[NF] = {fd0, fd1, fd2, fd3, fd4, fd5, fd6, fd7};
static int open_handles;

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lower(*a) == lower(*b)) { a++; b++; } return lower(*a) - lower(*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && lower(*a) == lower(*b)) { a++; b++; n--; } return n ? lower(*a) - lower(*b) : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (; ; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; if (!s) return 0; s += strspn(s, d); if (!*s) { *sv = 0; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = 0; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int tolower(int c) { return lower(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned short ctab[384]; static const unsigned short *ctp; static int ctinit;
const unsigned short **__ctype_b_loc(void) { if (!ctinit) { ctinit = 1; for (int i = 0; i < 256; i++) { unsigned short m = 0; if (isupper(i)) m |= 1 << 8; if (islower(i)) m |= 1 << 9; if (isalpha(i)) m |= 1 << 10; if (isdigit(i)) m |= 1 << 11; if (isxdigit(i)) m |= 1 << 12; if (isspace(i)) m |= 1 << 13; if (isprint(i)) m |= 1 << 14; if (isprint(i) && i != ' ') m |= 1 << 15; if (i == ' ' || i == 9) m |= 1; if (i < 32 || i == 127) m |= 2; if (ispunct(i)) m |= 4; if (isalnum(i)) m |= 8; ctab[128 + i] = m; } ctp = ctab + 128; } return &ctp; }
static int err_; int *__errno_location(void) { return &err_; }
static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
double strtod(const char *s, char **end) {
  const char *p = s; while (isspace(*p)) p++; const char *b = p; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  int conc = 1, nd = 0, frac = 0, any = 0; unsigned long m = 0; const char *st = p;
  while (1) { int c = *p; if (sx_is_symbolic(c)) conc = 0; if (!isdigit(c)) break; m = m * 10 + (c - '0'); if (any || c != '0') { nd++; } any = 1; p++; }
  if (*p == '.') { const char *q = p + 1; if (any || isdigit(*q)) { p++; while (1) { int c = *p; if (sx_is_symbolic(c)) conc = 0; if (!isdigit(c)) break; m = m * 10 + (c - '0'); nd++; frac++; any = 1; p++; } } }
  if (!any) { /* nan / inf spellings */ if (lower(*p) == 'n' || lower(*p) == 'i') { sx_inconclusive("strtod nan/inf"); } if (end) *end = (char *)s; return 0.0; }
  int ex = 0; if (*p == 'e' || *p == 'E') { const char *q = p + 1; int en = 0; if (*q == '-') { en = 1; q++; } else if (*q == '+') q++; if (isdigit(*q)) { while (isdigit(*q)) { ex = ex * 10 + (*q - '0'); q++; } if (en) ex = -ex; p = q; } }
  if (end) *end = (char *)p;
  if (conc) { char buf[128]; int n = 0; for (const char *q = b; q < p && n < 127; q++) buf[n++] = *q; buf[n] = 0; return sx_strtod(buf); }
  ex -= frac; if (nd > 15) sx_inconclusive("strtod: too many symbolic digits"); double r = (double)(long)m; if (ex < 0) { if (ex < -22) sx_inconclusive("strtod exp"); r = r / p10[-ex]; } else { if (ex > 22) sx_inconclusive("strtod exp"); r = r * p10[ex]; }
  (void)st; return neg ? -r : r; }
double atof(const char *s) { return strtod(s, 0); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
long strtol(const char *s, char **end, int base) { const char *p = s; while (isspace(*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; unsigned long m = 0; int any = 0, ovf = 0; while (1) { int c = *p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = lower(c) - 'a' + 10; else break; if (d >= base) break; if (m > (0x7fffffffffffffffUL - d) / base) ovf = 1; else m = m * base + d; any = 1; p++; } if (end) *end = (char *)(any ? p : s); if (ovf) return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; return neg ? -(long)m : (long)m; }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
__attribute__((weak)) int rand(void) { int r = (int)sx_bits("rand", 31); return r; }
long random(void) { return rand(); }
long time(long *t) { if (t) *t = 1000; return 1000; }
long clock(void) { return 0; }
char *getenv(const char *n) { return 0; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *a = base; char t[64]; if (sz > 64) sx_inconclusive("qsort elem"); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) { memcpy(t, a + j * sz, sz); memcpy(a + j * sz, a + (j - 1) * sz, sz); memcpy(a + (j - 1) * sz, t, sz); } }

/* ---- files ---- */
static int ffind(const char *n) { for (int i = 0; i < nfiles; i++) if (!strcmp(fname[i], n)) return i; return -1; }
static int fnew(const char *n) { int i = ffind(n); if (i >= 0) return i; if (nfiles >= NF || strlen(n) > 1023) { sx_inconclusive("too many files"); return -1; } strcpy(fname[nfiles], n); return nfiles++; }
/* harness-side file access (native counterpart uses real files) */
void sxf_put(const char *n, const void *p, size_t len) { int i = fnew(n); if (len > FCAP) sx_inconclusive("file too large"); memcpy(fdat[i], p, len); flen[i] = (int)len; fexists[i] = 1; }
long sxf_get(const char *n, void *p, size_t cap) { int i = ffind(n); if (i < 0 || !fexists[i]) return -1; size_t k = (size_t)flen[i] < cap ? (size_t)flen[i] : cap; memcpy(p, fdat[i], k); return flen[i]; }
int sxf_open_handles(void) { return open_handles; }
SXF *fopen(const char *n, const char *m) { int wr = m[0] == 'w', ap = m[0] == 'a'; int plus = strchr(m, '+') != 0; int i = ffind(n); if (m[0] == 'r' && (i < 0 || !fexists[i])) return 0; if (i >= 0 && fdeny[i]) return 0; if (i < 0) i = fnew(n); if (wr) flen[i] = 0; if (wr || ap) fexists[i] = 1; SXF *f = malloc(sizeof(SXF)); f->fd = i; f->pos = 0; f->rd = m[0] == 'r' || plus; f->wr = wr || ap || plus; f->eof = f->err = 0; f->ap = ap; open_handles++; return f; }
int fclose(SXF *f) { open_handles--; free(f); return 0; }
int fgetc(SXF *f) { if (!f->rd) { f->err = 1; return -1; } if (f->pos >= flen[f->fd]) { f->eof = 1; return -1; } return fdat[f->fd][f->pos++]; }
int getc(SXF *f) { return fgetc(f); }
int ungetc(int c, SXF *f) { if (f->pos > 0) f->pos--; f->eof = 0; return c; }
int fputc(int c, SXF *f) { if (!f->wr) { f->err = 1; return -1; } if (f->ap) f->pos = flen[f->fd]; if (f->pos >= FCAP) { sx_inconclusive("file too large"); return -1; } while (flen[f->fd] < f->pos) fdat[f->fd][flen[f->fd]++] = 0; fdat[f->fd][f->pos++] = (unsigned char)c; if (f->pos > flen[f->fd]) flen[f->fd] = f->pos; return (unsigned char)c; }
int putc(int c, SXF *f) { return fputc(c, f); }
int fputs(const char *s, SXF *f) { while (*s) fputc(*s++, f); return 1; }
char *fgets(char *b, int n, SXF *f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fread(void *p, size_t sz, size_t n, SXF *f) { unsigned char *q = p; if (!sz || !n) return 0; if (!f->rd) { f->err = 1; return 0; } size_t av = f->pos < flen[f->fd] ? (size_t)(flen[f->fd] - f->pos) : 0, want = sz * n; if (want / sz != n || want > av) { want = av; f->eof = 1; } if (want) memcpy(q, fdat[f->fd] + f->pos, want); f->pos += (int)want; return want / sz; }
size_t fwrite(const void *p, size_t sz, size_t n, SXF *f) { const unsigned char *q = p; size_t w = sz * n; if (!w) return 0; if (!f->wr) { f->err = 1; return 0; } if (f->ap) f->pos = flen[f->fd]; if (f->pos + w > FCAP) { sx_inconclusive("file too large"); return 0; } while (flen[f->fd] < f->pos) fdat[f->fd][flen[f->fd]++] = 0; memcpy(fdat[f->fd] + f->pos, q, w); f->pos += (int)w; if (f->pos > flen[f->fd]) flen[f->fd] = f->pos; return n; }
int fseek(SXF *f, long o, int wh) { long np = wh == 0 ? o : wh == 1 ? f->pos + o : flen[f->fd] + o; if (np < 0) return -1; f->pos = (int)np; f->eof = 0; return 0; }
long ftell(SXF *f) { return f->pos; }
void rewind(SXF *f) { f->pos = 0; f->eof = 0; f->err = 0; }
int feof(SXF *f) { return f->eof; }
int ferror(SXF *f) { return f->err; }
void clearerr(SXF *f) { f->eof = f->err = 0; }
int fileno(SXF *f) { return 3 + f->fd; }
int remove(const char *n) { int i = ffind(n); if (i < 0 || !fexists[i]) return -1; fexists[i] = 0; flen[i] = 0; return 0; }
int unlink(const char *n) { return remove(n); }
int access(const char *n, int m) { int i = ffind(n); return i >= 0 && fexists[i] ? 0 : -1; }
/* ---- scanf ---- */
typedef struct { const char *s; SXF *f; int cnt; int last; } SRC;
static int sget(SRC *r) { r->cnt++; if (r->f) { int c = fgetc(r->f); r->last = c; return c; } int c = (unsigned char)*r->s; if (!c) { r->last = -1; return -1; } r->s++; r->last = c; return c; }
static void sunget(SRC *r) { r->cnt--; if (r->last < 0) return; if (r->f) ungetc(r->last, r->f); else r->s--; }
static int vscan(SRC *r, const char *fmt, va_list ap) {
  int conv = 0; const char *p = fmt;
  for (; *p; p++) {
    if (isspace(*p)) { int c; do c = sget(r); while (isspace(c)); sunget(r); continue; }
    if (*p != '%') { int c = sget(r); if (c != (unsigned char)*p) { sunget(r); return (c < 0 && !conv) ? -1 : conv; } continue; }
    p++; if (*p == '%') { int c = sget(r); if (c != '%') { sunget(r); return conv; } continue; }
    int sup = 0; if (*p == '*') { sup = 1; p++; } int w = 0; while (isdigit(*p)) w = w * 10 + (*p++ - '0'); int h = 0, l = 0; while (*p == 'h' || *p == 'l' || *p == 'z' || *p == 'j') { if (*p == 'h') h++; else l++; p++; }
    if (*p != 'c' && *p != '[' && *p != 'n') { int c; do c = sget(r); while (isspace(c)); sunget(r); if (c < 0) return conv ? conv : -1; }
    switch (*p) {
      case 'd': case 'i': case 'u': case 'x': case 'X': { unsigned long m = 0; int neg = 0, any = 0, k = 0; if (!w) w = 1000; int c = sget(r); k++; if (c == '-' || c == '+') { neg = c == '-'; c = sget(r); k++; } int base = (*p == 'x' || *p == 'X') ? 16 : 10; while (k <= w) { int d; if (isdigit(c)) d = c - '0'; else if (base == 16 && isxdigit(c)) d = lower(c) - 'a' + 10; else break; m = m * base + d; any = 1; c = sget(r); k++; } sunget(r); if (!any) return conv; if (neg) m = -m; if (!sup) { if (l) *va_arg(ap, long *) = (long)m; else if (h == 1) *va_arg(ap, short *) = (short)m; else if (h == 2) *va_arg(ap, char *) = (char)m; else *va_arg(ap, int *) = (int)m; conv++; } break; }
      case 'f': case 'g': case 'e': case 'E': case 'G': { char b[64]; int n = 0; if (!w || w > 62) w = 62; int c = sget(r); while (n < w && (isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) { if ((c == '-' || c == '+') && n && b[n - 1] != 'e' && b[n - 1] != 'E') break; b[n++] = (char)c; c = sget(r); } sunget(r); b[n] = 0; char *e; double v = strtod(b, &e); if (e == b) return conv; if (!sup) { if (l) *va_arg(ap, double *) = v; else *va_arg(ap, float *) = (float)v; conv++; } break; }
      case 's': { char *d = sup ? 0 : va_arg(ap, char *); int n = 0, c; if (!w) w = 1 << 30; while (n < w) { c = sget(r); if (c < 0 || isspace(c)) { sunget(r); break; } if (d) d[n] = (char)c; n++; } if (d) { d[n] = 0; conv++; } break; }
      case 'c': { char *d = sup ? 0 : va_arg(ap, char *); if (!w) w = 1; for (int i = 0; i < w; i++) { int c = sget(r); if (c < 0) { return conv ? conv : -1; } if (d) d[i] = (char)c; } if (d) conv++; break; }
      case '[': { p++; int inv = 0; if (*p == '^') { inv = 1; p++; } const char *set = p; if (*p == ']') p++; while (*p && *p != ']') p++; char *d = sup ? 0 : va_arg(ap, char *); int n = 0; if (!w) w = 1 << 30; while (n < w) { int c = sget(r); int in = 0; if (c < 0) { sunget(r); break; } for (const char *q = set; q < p; q++) { if (q + 2 < p && q[1] == '-') { if (c >= (unsigned char)q[0] && c <= (unsigned char)q[2]) in = 1; q += 2; } else if (c == (unsigned char)*q) in = 1; } if (in == inv) { sunget(r); break; } if (d) d[n] = (char)c; n++; } if (!n) return (conv || r->last >= 0) ? conv : -1; if (d) { d[n] = 0; conv++; } break; }
      case 'n': if (!sup) *va_arg(ap, int *) = r->cnt; break;
      default: sx_inconclusive("scanf conversion");
    } }
  return conv; }
int vsscanf(const char *s, const char *f, va_list ap) { SRC r = {s, 0, 0, 0}; return vscan(&r, f, ap); }
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsscanf(s, f, ap); va_end(ap); return k; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsscanf(s, f, ap); va_end(ap); return k; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsscanf(s, f, ap); va_end(ap); return k; }
int vfscanf(SXF *f, const char *fm, va_list ap) { SRC r = {0, f, 0, 0}; return vscan(&r, fm, ap); }
int fscanf(SXF *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int k = vfscanf(f, fm, ap); va_end(ap); return k; }
int __isoc99_fscanf(SXF *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int k = vfscanf(f, fm, ap); va_end(ap); return k; }
int __isoc23_fscanf(SXF *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int k = vfscanf(f, fm, ap); va_end(ap); return k; }
/* ---- printf ---- */
typedef struct { char *b; size_t cap; size_t n; SXF *f; } DST;
static void dput(DST *d, char c) { if (d->f) fputc(c, d->f); else if (d->n + 1 < d->cap) d->b[d->n] = c; d->n++; }
static int vprint(DST *d, const char *p, va_list ap) {
  for (; *p; p++) {
    if (*p != '%') { dput(d, *p); continue; }
    const char *st = p; p++; int left = 0, zero = 0, plus = 0, w = 0, prec = -1, l = 0; while (*p == '-' || *p == '0' || *p == '+' || *p == ' ' || *p == '#') { if (*p == '-') left = 1; if (*p == '0') zero = 1; if (*p == '+') plus = 1; p++; } if (*p == '*') { w = va_arg(ap, int); p++; } else while (isdigit(*p)) w = w * 10 + (*p++ - '0'); if (*p == '.') { p++; prec = 0; if (*p == '*') { prec = va_arg(ap, int); p++; } else while (isdigit(*p)) prec = prec * 10 + (*p++ - '0'); } while (*p == 'l' || *p == 'h' || *p == 'z' || *p == 'j') { if (*p != 'h') l++; p++; }
    char t[512]; int n = 0; const char *o = t;
    switch (*p) {
      case '%': t[n++] = '%'; break;
      case 'c': t[n++] = (char)va_arg(ap, int); break;
      case 's': { o = va_arg(ap, const char *); if (!o) o = "(null)"; n = prec >= 0 ? (int)strnlen(o, prec) : (int)strlen(o); break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': { unsigned long m; int neg = 0; if (*p == 'd' || *p == 'i') { long v = l ? va_arg(ap, long) : va_arg(ap, int); neg = v < 0; m = neg ? -(unsigned long)v : (unsigned long)v; } else m = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); unsigned base = (*p == 'x' || *p == 'X') ? 16 : 10; char q[32]; int k = 0; do { int g = m % base; q[k++] = (char)(g < 10 ? '0' + g : (*p == 'X' ? 'A' : 'a') + g - 10); m /= base; } while (m); while (k < prec) q[k++] = '0'; if (zero && !left) while (k + (neg || plus) < w && k < 31) q[k++] = '0'; if (neg) t[n++] = '-'; else if (plus) t[n++] = '+'; while (k) t[n++] = q[--k]; break; }
      case 'f': case 'g': case 'e': case 'E': case 'G': case 'F': { char sp[32]; int k = 0; for (const char *q = st; q <= p && k < 31; q++) if (*q != 'l' ) sp[k++] = *q; sp[k] = 0; n = sx_fmt_double(t, sp, va_arg(ap, double)); w = 0; break; }
      case 'p': (void)va_arg(ap, void *); t[n++] = 'p'; break;
      default: sx_inconclusive("printf conversion");
    }
    if (!left) for (int i = n; i < w; i++) dput(d, ' '); for (int i = 0; i < n; i++) dput(d, o[i]); if (left) for (int i = n; i < w; i++) dput(d, ' ');
  }
  return (int)d->n; }
int vsnprintf(char *b, size_t c, const char *f, va_list ap) { DST d = {b, c, 0, 0}; int k = vprint(&d, f, ap); if (c) b[d.n < c ? d.n : c - 1] = 0; return k; }
int snprintf(char *b, size_t c, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsnprintf(b, c, f, ap); va_end(ap); return k; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 30, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int k = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return k; }
int vfprintf(SXF *fp, const char *f, va_list ap) { DST d = {0, 0, 0, fp}; return vprint(&d, f, ap); }
static SXF std_ = {0, 0, 0, 0, 0, 0, 0}; SXF *stdout = &std_, *stderr = &std_, *stdin = &std_;
int fprintf(SXF *fp, const char *f, ...) { if (fp == &std_) return 0; va_list ap; va_start(ap, f); int k = vfprintf(fp, f, ap); va_end(ap); return k; }
void *bsearch(const void *k, const void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *p = (const char *)b + m * w; int c = f(k, p); if (!c) return (void *)p; if (c < 0) hi = m; else lo = m + 1; } return 0; }
long long atoll(const char *s) { return strtol(s, 0, 10); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long double strtold(const char *s, char **e) { return (long double)strtod(s, e); }
double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; return x - t; }
