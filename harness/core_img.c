#include "hm.h"
static void pick_rc(int *r, int *c) { long m = sx_param("big", 0); if (m) { int l, s, b; pick_shape(&s, &l, &b); *r = l * b; *c = s; } else { long k = sx_param("box", 3); *r = (int)sx_choose("r", 1, k); *c = (int)sx_choose("c", 1, k); } }
static void residue(void) { sx_heap_residue((int)sx_choose("residue", 0, 3) * 16); }
/* C03: creation without caller data */
void h_create(void) {
  int dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); if (sx_param("res", 1)) residue(); long by = (long)r * c * ch * esz(dt), h0 = sx_live_heap();
  simple_mat m = create_simple_mat(r, c, dt, ch); check_img(m, r, c, dt, ch); sx_assert(m->data != NULL && ((uintptr_t)m->data & 63) == 0, "pixels start on a 64-byte boundary"); sx_assert((char *)(m + 1) <= (char *)m->data || (char *)m->data + by <= (char *)m, "header and pixels do not overlap");
  void *z = calloc(by, 1); check_bytes(m->data, z, by, "a fresh image is all zero"); free(z); memset(m->data, 0x33, by); check_img(m, r, c, dt, ch);
  sx_observe("last", ((unsigned char *)m->data)[by - 1]); delete_simple_mat(m); sx_assert(sx_live_heap() == h0, "deletion releases everything"); delete_simple_mat(NULL);
}
/* around caller data: the image takes over the buffer, deleting it releases the buffer exactly once */
void h_adopt(void) {
  int dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); if (sx_param("res", 1)) residue(); long by = (long)r * c * ch * esz(dt), h0 = sx_live_heap();
  void *d = malloc(by); sx_make_symbolic(d, by, "px"); void *w = dup_bytes(d, by); simple_mat m = create_simple_mat_with_data(r, c, dt, ch, d); check_img(m, r, c, dt, ch);
  check_bytes(m->data, w, by, "pixels are the caller's"); sx_assert(m->data == d, "the caller's buffer itself is used"); free(w); delete_simple_mat(m); sx_assert(sx_live_heap() == h0, "deletion releases the image and its buffer");
}
void h_copy(void) {
  int dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), own = (int)sx_param("own", 0), r, c; pick_rc(&r, &c); if (sx_param("res", 1)) residue(); long by = (long)r * c * ch * esz(dt), h0 = sx_live_heap();
  simple_mat m; if (own) { m = create_simple_mat(r, c, dt, ch); sx_make_symbolic(m->data, by, "px"); } else { void *d = malloc(by); sx_make_symbolic(d, by, "px"); m = create_simple_mat_with_data(r, c, dt, ch, d); }
  void *w = dup_bytes(m->data, by); simple_mat t = simple_mat_copy(m); check_img(t, r, c, dt, ch); sx_assert(t != m && t->data != m->data, "separate storage"); check_bytes(t->data, w, by, "equal pixels"); sx_observe("last", ((unsigned char *)t->data)[by - 1]);
  memset(t->data, 0x11, by); check_bytes(m->data, w, by, "source pixels unaffected"); check_img(m, r, c, dt, ch); delete_simple_mat(t); check_bytes(m->data, w, by, "source survives deleting the copy");
  t = simple_mat_copy(m); delete_simple_mat(m); check_bytes(t->data, w, by, "the copy survives deleting the source"); delete_simple_mat(t); free(w); sx_assert(sx_live_heap() == h0, "deletion releases everything");
}
/* arguments outside the contract never yield an image */
void h_reject(void) {
  int which = (int)sx_param("which", 0), r = sx_int("r"), c = sx_int("c"), ch = sx_int("ch"), dt = 1; sx_assume(r <= 3 && c <= 3 && ch <= 3 && r >= -40000 && c >= -40000 && ch >= -40000);
  if (which < 3) { sx_assume(which == 0 ? r <= 0 : r > 0); sx_assume(which == 1 ? c <= 0 : c > 0); sx_assume(which == 2 ? ch <= 0 : ch > 0); dt = DTS[sx_param("dti", 0)]; } else { sx_assume(r > 0 && c > 0 && ch > 0); dt = BADDT[sx_choose("bad", 0, 9)]; }
  char *d = sx_param("data", 0) ? (char *)malloc(8) : NULL; sx_exit_mode(1); simple_mat m = d ? create_simple_mat_with_data(r, c, dt, ch, d) : create_simple_mat(r, c, dt, ch); sx_assert(m == NULL, "an invalid shape, type or channel count never yields an image");
}
/* ---- C08 statistics ---- */
static void put(void *d, int dt, long i, long v) { switch (dt) { case 1: ((unsigned char *)d)[i] = (unsigned char)v; break; case 2: ((short *)d)[i] = (short)v; break; case 3: ((int *)d)[i] = (int)v; break; case 4: ((float *)d)[i] = (float)v; break; case 5: ((double *)d)[i] = (double)v; break; case 12: ((unsigned short *)d)[i] = (unsigned short)v; break; case 13: ((unsigned *)d)[i] = (unsigned)v; break; } }
static long bitsof(int dt) { return dt == 1 ? 8 : dt == 2 || dt == 12 ? 16 : 18; }
static int is_unsigned(int dt) { return dt == 1 || dt == 12 || dt == 13; }
static int close_to(double a, double b, double tol) { double d = a - b; return (d <= tol) & (d >= -tol); }
/* every pixel symbolic (integer valued, small enough for an exact sum) */
void h_mean(void) {
  int dt = (int)sx_param("dt", 1), r, c; pick_rc(&r, &c); int n = r * c; simple_mat m = raw_img(r, c, dt, 1); long S = 0; long B = bitsof(dt); if (n > 64) B = B > 10 ? 10 : B;
  for (int i = 0; i < n; i++) { long v = (long)sx_bits("v", (int)B); if (!is_unsigned(dt)) v -= 1L << (B - 1); put(m->data, dt, i, v); S += (long)px(m->data, dt, i); }
  void *w = dup_bytes(m->data, (long)n * esz(dt)); long h0 = sx_live_heap(); float res = simple_mat_mean(m);
  float a = (float)S / r / c, b = (float)S / c / r, d = (float)S / (r * c), e = (float)((double)S / ((double)r * c)), f = (float)((double)S / r / c);
  sx_assert((res == a) | (res == b) | (res == d) | (res == e) | (res == f), "mean is the sum of the pixels over their number"); check_bytes(m->data, w, (long)n * esz(dt), "image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); check_img(m, r, c, dt, 1); sx_observe("mean", (long)(res * 64)); free_img(m);
}
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
/* a fixed image with one arbitrary pixel at an arbitrary position */
void h_var(void) {
  int dt = (int)sx_param("dt", 1), r, c; pick_rc(&r, &c); int n = r * c; simple_mat m = raw_img(r, c, dt, 1); unsigned seed = (unsigned)sx_param("seed", 1); long B = bitsof(dt); if (B > 16) B = 16; double *x = (double *)malloc(n * sizeof(double));
  long lo = is_unsigned(dt) ? 0 : -(1L << (B - 1)); int flat = (int)sx_param("flat", 0);
  for (int i = 0; i < n; i++) { long v = lo + (flat ? 37 : (long)(lcg(&seed) & ((1u << B) - 1))); put(m->data, dt, i, v); x[i] = (double)v; }
  int sp = (int)sx_param("spots", 0), at = sp ? (int)(sx_choose("pos", 0, sp - 1) * (n - 1) / (sp - 1)) : (int)sx_choose("pos", 0, n - 1); long u = (long)sx_bits("u", 8) * ((1L << B) / 256) + lo; put(m->data, dt, at, u); x[at] = (double)u;
  void *w = dup_bytes(m->data, (long)n * esz(dt)); long h0 = sx_live_heap(); float res = simple_mat_variance(m);
  double S = 0; for (int i = 0; i < n; i++) S += x[i]; double mean = S / n, v = 0, mx = (double)(1L << B); for (int i = 0; i < n; i++) v += (x[i] - mean) * (x[i] - mean); v /= n;
  sx_assert(close_to(res, v, v * 1e-4 + mx * 1e-5), "variance is the mean squared deviation from the mean"); check_bytes(m->data, w, (long)n * esz(dt), "image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m); free(x);
}
/* mean of fractional float / double pixels */
void h_meanf(void) {
  int dt = (int)sx_param("dt", 4), r, c; pick_rc(&r, &c); int n = r * c; simple_mat m = raw_img(r, c, dt, 1); unsigned seed = 7; double S = 0, A = 0;
  int at = (int)sx_choose("pos", 0, n - 1); double u = (double)((long)sx_bits("u", 8) - 100) * 0.37;
  for (int i = 0; i < n; i++) { double v = (double)(int)(lcg(&seed) % 20000) * 0.013 - 100; if (i == at) v = u; if (dt == 4) { ((float *)m->data)[i] = (float)v; v = (float)v; } else ((double *)m->data)[i] = v; S += v; A += v < 0 ? -v : v; }
  float res = simple_mat_mean(m); sx_assert(close_to(res, S / n, A / n * 1e-5), "mean of fractional pixels"); sx_observe("mean", 0); free_img(m);
}
void h_hist(void) {
  int ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); int n = r * c; simple_mat m = sym_img("px", r, c, 1, ch); thin(m->data, 1, (long)n * ch); void *w = dup_bytes(m->data, (long)n * ch); int h[258]; for (int i = 0; i < 258; i++) h[i] = -77;
  simple_mat g = m; if (ch == 3) g = sm_rgb2gray(m, 0); unsigned char *p = (unsigned char *)g->data; long h0 = sx_live_heap();
  simple_mat_grayscale_statistics(m, h + 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_assert(h[0] == -77 && h[257] == -77, "only the 256 counters are written");
  int v = (int)sx_uchar("level"), k = 0; for (int i = 0; i < n; i++) k += p[i] == v; sx_assert(h[1 + v] == k, "every level's count is the number of pixels at that level"); check_bytes(m->data, w, (long)n * ch, "image unchanged"); check_img(m, r, c, 1, ch); sx_observe("h", h[1 + v]);
}
void h_contrast(void) {
  int ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); int n = r * c; if (n < 2) return; simple_mat m = sym_img("px", r, c, 1, ch); thin(m->data, 1, (long)n * ch); void *w = dup_bytes(m->data, (long)n * ch); simple_mat g = m; if (ch == 3) g = sm_rgb2gray(m, 0); unsigned char *p = (unsigned char *)g->data; long h0 = sx_live_heap();
  float res = simple_mat_contrast_ratio(m); sx_assert(sx_live_heap() == h0, "nothing retained"); long S = 0, k = 0;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { if (i + 1 < r) { long d = (long)p[i * c + j] - p[(i + 1) * c + j]; S += 2 * d * d; k += 2; } if (j + 1 < c) { long d = (long)p[i * c + j] - p[i * c + j + 1]; S += 2 * d * d; k += 2; } }
  float a = (float)S / k, b = (float)((double)S / k), d = (float)(S / 2) / (k / 2); sx_assert((res == a) | (res == b) | (res == d) | ((S > 8000000) & close_to(res, (double)S / k, (double)S / k * 1e-4)), "contrast is the mean squared difference of neighbouring pixels"); check_bytes(m->data, w, (long)n * ch, "image unchanged"); sx_observe("c", (long)res);
}
/* entropy: pixels drawn from three arbitrary distinct levels, every assignment of levels to pixels */
void h_entropy(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), ch = (int)sx_param("ch", 1), n = r * c, kinds = (int)sx_param("kinds", 3); int lv[3] = {(int)sx_param("l0", 0), (int)sx_param("l1", 128), (int)sx_param("l2", 255)}; simple_mat m = raw_img(r, c, 1, ch); int cnt[3] = {0, 0, 0};
  for (int i = 0; i < n; i++) { int fx = (int)sx_param("fixed", 0), k = fx && i % (n / fx) ? i * i % 7 % 3 : (int)sx_choose("k", 0, kinds - 1); cnt[k]++; for (int j = 0; j < ch; j++) ((unsigned char *)m->data)[i * ch + j] = (unsigned char)lv[k]; }
  void *w = dup_bytes(m->data, (long)n * ch); long h0 = sx_live_heap(); float res = simple_mat_entropy(m); sx_assert(sx_live_heap() == h0, "nothing retained"); double e = 0; for (int k = 0; k < 3; k++) if (cnt[k]) { double p = (double)cnt[k] / n; e -= p * log(p) / log(2.0); }
  sx_assert(close_to(res, e, 1e-4), "entropy in bits of the grey-level distribution"); check_bytes(m->data, w, (long)n * ch, "image unchanged"); sx_observe("e", (long)(res * 1000));
}
