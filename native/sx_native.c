/* Native replay runtime: feeds recorded values into the same harness compiled against the real code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>
#include "sx.h"
static char **nm, **hx; static int n_in, cap; static int loaded; static int exit_mode; static long live;
static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static void load(void) { if (loaded) return; loaded = 1; const char *f = getenv("SX_INPUTS"); if (!f) return; FILE *p = fopen(f, "r"); if (!p) return; static char line[1 << 20]; while (fgets(line, sizeof line, p)) { char *sp = strchr(line, ' '); if (!sp) continue; *sp = 0; char *e = sp + 1; e[strcspn(e, "\r\n")] = 0; if (n_in == cap) { cap = cap ? cap * 2 : 64; nm = realloc(nm, cap * sizeof *nm); hx = realloc(hx, cap * sizeof *hx); } nm[n_in] = strdup(line); hx[n_in++] = strdup(e); } fclose(p); }
static struct { char n[64]; int k; } cnt[512]; static int ncnt;
static int seq(const char *n) { for (int i = 0; i < ncnt; i++) if (!strcmp(cnt[i].n, n)) return cnt[i].k++; if (ncnt == 512) quit(79); snprintf(cnt[ncnt].n, 64, "%s", n); cnt[ncnt++].k = 1; return 0; }
void sx_make_symbolic(void *p, size_t n, const char *name) { load(); char key[96]; snprintf(key, 96, "%s#%d", name, seq(name)); memset(p, 0, n); for (int i = 0; i < n_in; i++) if (!strcmp(nm[i], key)) { size_t L = strlen(hx[i]) / 2; for (size_t j = 0; j < L && j < n; j++) { unsigned v; sscanf(hx[i] + 2 * j, "%2x", &v); ((unsigned char *)p)[j] = (unsigned char)v; } return; } }
unsigned long sx_bits(const char *name, int b) { unsigned long v = 0; sx_make_symbolic(&v, 8, name); if (b < 64) v &= (1UL << b) - 1; return v; }
void sx_assume(int c) { if (!c) { printf("SX-ASSUME-FAILED\n"); quit(78); } }
void sx_assert(int c, const char *m) { if (!c) { printf("SX-VIOLATION %s\n", m); quit(77); } }
void sx_observe(const char *n, long v) { printf("SX-OBS %s %lx\n", n, (unsigned long)v); }
void sx_exit_mode(int m) { exit_mode = m; }
void sx_merge(int m) {} void sx_reach(const char *n) {} long sx_concretize(long v) { return v; } static int residue = -1; void sx_heap_residue(int r) { residue = r; }
long sx_param(const char *n, long d) { char k[80]; snprintf(k, 80, "SX_P_%s", n); const char *v = getenv(k); return v ? atol(v) : d; }
int sx_in_engine(void) { return 0; } int sx_addressable(const void *p, size_t n) { return 1; } int sx_is_symbolic(long v) { return 0; } long sx_block_size(const void *p) { return -1; }
void sx_inconclusive(const char *m) { printf("SX-INCONCLUSIVE %s\n", m); quit(79); }
void __wrap_exit(int c) { if (exit_mode == 0) { printf("SX-EXIT the library terminated the process (exit %d)\n", c); quit(76); } printf("SX-QUIET-EXIT\n"); quit(0); }
/* fill pattern + leak accounting for blocks the repository allocates */
static int fillb = -2; static int fill(void) { if (fillb == -2) { const char *v = getenv("SX_FILL"); fillb = v ? (int)strtol(v, 0, 16) : -1; } return fillb; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
/* blocks handed out at a chosen address residue (mod 64) */
static struct { char *p; int off; size_t n; } rt_[8192]; static int nrt;
static char *res_alloc(size_t n) { if (residue < 0 || nrt >= 8192) return 0; void *q = 0; if (posix_memalign(&q, 64, n + residue) || !q) return 0; rt_[nrt].p = (char *)q + residue; rt_[nrt].n = n; rt_[nrt++].off = residue; return (char *)q + residue; }
static int res_find(void *p) { for (int i = nrt - 1; i >= 0; i--) if (rt_[i].p == (char *)p) return i; return -1; }
static void res_free(int i) { char *q = rt_[i].p - rt_[i].off; rt_[i] = rt_[--nrt]; __real_free(q); }
__attribute__((weak)) void *__wrap_malloc(size_t n) { void *p = res_alloc(n); if (!p) p = __real_malloc(n); if (p) { live++; if (fill() >= 0) memset(p, fill(), n); } return p; }
__attribute__((weak)) void *__wrap_calloc(size_t a, size_t b) { void *p = res_alloc(a * b); if (p) memset(p, 0, a * b); else p = __real_calloc(a, b); if (p) live++; return p; }
__attribute__((weak)) void *__wrap_realloc(void *q, size_t n) { int i = q ? res_find(q) : -1; if (i >= 0) { void *p = __real_malloc(n ? n : 1); memcpy(p, q, n < rt_[i].n ? n : rt_[i].n); res_free(i); return p; } void *p = __real_realloc(q, n); if (p && !q) live++; return p; }
__attribute__((weak)) void __wrap_free(void *p) { if (p) live--; int i = p ? res_find(p) : -1; if (i >= 0) res_free(i); else __real_free(p); }
long sx_live_heap(void) { return live; }
__attribute__((weak)) int rand(void) { return (int)sx_bits("rand", 31); }
static int nfd(void) { int k = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e; while (d && (e = readdir(d))) k++; if (d) closedir(d); return k; }
static int fd0; int sxf_open_handles(void) { return nfd() - fd0; }
void sxf_put(const char *n, const void *p, size_t len) { FILE *f = fopen(n, "wb"); if (!f) quit(79); if (len) fwrite(p, 1, len, f); fclose(f); }
long sxf_get(const char *n, void *p, size_t c) { FILE *f = fopen(n, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long L = ftell(f); rewind(f); size_t k = (size_t)L < c ? (size_t)L : c; if (k && fread(p, 1, k, f) != k) quit(79); fclose(f); return L; }
#ifndef SX_ENTRY
#error SX_ENTRY
#endif
void SX_ENTRY(void);
int main(void) { load(); const char *w = getenv("SX_CWD"); if (w && chdir(w)) quit(79); alarm(20); fd0 = nfd(); live = 0; SX_ENTRY(); printf("SX-DONE\n"); quit(0); }
