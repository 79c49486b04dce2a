/* Shared oracles: cubes and 2-D images built by hand in exactly-sized blocks, so that every access
 * outside them is caught, and the reference layout of the three interleaves. */
#ifndef HM_H
#define HM_H
#include "repo.h"
static const int DTS[9] = {1, 2, 3, 4, 5, 12, 13, 14, 15};
static inline int esz(int dt) { return dt == 1 ? 1 : (dt == 2 || dt == 12) ? 2 : (dt == 3 || dt == 4 || dt == 13) ? 4 : 8; }
/* element index of (line i, sample j, band k) */
static inline long pos(const char *il, long s, long l, long b, long i, long j, long k) {
  if (il[1] == 's') return k * s * l + i * s + j;      /* bsq */
  if (il[2] == 'l') return i * s * b + k * s + j;      /* bil */
  return i * s * b + j * b + k;                        /* bip */
}
static const char *ILS[3] = {"bsq", "bil", "bip"};
static hyper_mat raw_cube(int s, int l, int b, int dt, const char *il) {
  hyper_mat m = (hyper_mat)malloc(sizeof(HyperMat)); memset(m, 0, sizeof *m);
  m->samples = s; m->lines = l; m->bands = b; m->data_type = dt; for (int i = 0; i < 3; i++) m->interleave[i] = il[i];
  m->data = malloc((size_t)s * l * b * esz(dt)); m->wavelength = (float *)malloc(b * sizeof(float)); return m;
}
/* every byte of the pixels and of the wavelengths is an independent symbolic value */
static hyper_mat sym_cube(const char *nm, int s, int l, int b, int dt, const char *il) {
  char w[40]; strcpy(w, nm); strcat(w, ".wave"); hyper_mat m = raw_cube(s, l, b, dt, il);
  sx_make_symbolic(m->data, (size_t)s * l * b * esz(dt), nm); sx_make_symbolic(m->wavelength, b * sizeof(float), w); return m;
}
static void free_cube(hyper_mat m) { free(m->data); free(m->wavelength); free(m); }
static simple_mat raw_img(int r, int c, int dt, int ch) {
  simple_mat m = (simple_mat)malloc(sizeof(SIMPLE_MAT)); memset(m, 0, sizeof *m);
  m->rows = r; m->cols = c; m->data_type = dt; m->channels = ch; m->elem_size = esz(dt); m->data = malloc((size_t)r * c * ch * esz(dt)); return m;
}
static simple_mat sym_img(const char *nm, int r, int c, int dt, int ch) { simple_mat m = raw_img(r, c, dt, ch); sx_make_symbolic(m->data, (size_t)r * c * ch * esz(dt), nm); return m; }
static simple_mat fill_img(int r, int c, int dt, int ch, int v) { simple_mat m = raw_img(r, c, dt, ch); memset(m->data, v, (size_t)r * c * ch * esz(dt)); return m; }
static void free_img(simple_mat m) { free(m->data); free(m); }
static inline int same_il(const char *a, const char *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
/* header and wavelength agreement */
static void check_hdr(hyper_mat m, int s, int l, int b, int dt, const char *il) {
  sx_assert(m != NULL, "a result is returned");
  sx_assert(m->samples == s && m->lines == l && m->bands == b, "result dimensions");
  sx_assert(m->data_type == dt, "result data type"); sx_assert(same_il(m->interleave, il), "result interleave");
}
static void check_bytes(const void *got, const void *exp, long n, const char *msg) {
  if (n <= 0) return; if (n > 4000) { int ok = 1; for (long i = 0; i < n; i++) sx_assert(((const unsigned char *)got)[i] == ((const unsigned char *)exp)[i], msg); return; } long x = sx_range("at", 0, n - 1); const unsigned char *a = (const unsigned char *)got, *b = (const unsigned char *)exp; sx_assert(a[x] == b[x], msg);
}
static void *dup_bytes(const void *p, long n) { void *q = malloc(n > 0 ? n : 1); memcpy(q, p, n); return q; }
/* shapes: mode 0 = every shape in the small box, chosen by the solver; mode 1.. = elongated or larger fixed shapes */
static const int BIG[][3] = {{1, 1, 70}, {70, 1, 1}, {1, 70, 1}, {17, 5, 3}, {3, 17, 5}, {5, 3, 17}, {1, 9, 33}, {33, 1, 9}, {9, 33, 1}, {8, 8, 8}, {16, 4, 4}, {2, 2, 65}, {260, 2, 1}, {2, 260, 1}, {1, 2, 260}, {2, 1, 260}, {300, 300, 1}, {300, 1, 300}, {1, 300, 300}, {66000, 1, 1}, {1, 66000, 1}, {1, 1, 66000}, {41, 41, 41}, {19, 3, 1}, {3, 19, 1}, {6, 4, 2}, {4, 7, 2}};
static void pick_shape(int *s, int *l, int *b) {
  long m = sx_param("big", 0);
  if (!m) { long k = sx_param("box", 3); *s = (int)sx_choose("s", 1, k); *l = (int)sx_choose("l", 1, k); *b = (int)sx_choose("b", 1, k); }
  else { *s = BIG[m - 1][0]; *l = BIG[m - 1][1]; *b = BIG[m - 1][2]; }
}
/* large cases: all but a few spread elements take fixed values */
static void thin(void *d, int dt, long n) {
  long k = sx_param("keep", 0), step, skew = sx_param("skew", 0); unsigned s = 12345u; if (!k || k >= n) return; step = (n + k - 1) / k;
  for (long i = 0; i < n; i++) { s = s * 1103515245u + 12345u; unsigned q = s >> 8; if (i % step == step / 2) continue; switch (dt) { case 1: ((unsigned char *)d)[i] = (unsigned char)(skew && q % 16 ? skew : q / 16); break; case 2: case 12: ((unsigned short *)d)[i] = (unsigned short)q; break; case 4: ((float *)d)[i] = (float)(q % 4001) * 0.25f - 300; break; case 5: ((double *)d)[i] = (double)(q % 4001) * 0.25 - 300; break; case 3: case 13: ((unsigned *)d)[i] = q; break; default: ((unsigned long *)d)[i] = q * 77777777777ul; } }
}
/* an exact power of two by which a case scales its values */
static double pow2of(const char *nm) { long k = sx_param(nm, 0); double f = 1; for (; k > 0; k--) f *= 2; for (; k < 0; k++) f /= 2; return f; }
/* arguments outside the contract: the library must stop instead of continuing */
#define REJECTS(call, what) do { sx_exit_mode(1); call; sx_assert(0, what); } while (0)
static const int BADDT[] = {0, 6, 7, 8, 9, 10, 11, 16, -1, 100};
static inline double px(const void *d, int dt, long i) {
  switch (dt) { case 1: return ((const unsigned char *)d)[i]; case 2: return ((const short *)d)[i]; case 3: return ((const int *)d)[i]; case 4: return ((const float *)d)[i]; case 5: return ((const double *)d)[i]; case 12: return ((const unsigned short *)d)[i]; case 13: return ((const unsigned *)d)[i]; }
  return 0;
}
static void check_img(simple_mat m, int r, int c, int dt, int ch) {
  sx_assert(m != NULL, "an image is returned"); sx_assert(m->rows == r && m->cols == c, "image dimensions"); sx_assert(m->data_type == dt && m->channels == ch, "image type and channels"); sx_assert(m->elem_size == esz(dt), "image element size");
}
#endif
