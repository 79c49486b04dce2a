#include "hm.h"
long int hypercv_factorial(int n); void shear_row(float *mat, int rows, int cols, int r1, int r2, float scalar); void set_identity_matrix_float(float *mat, int m); void swap_rows_float(float *data, int m, int n, int r1, int r2); void matrix_row_multi_scalar_float(float *mat, int rows, int cols, int r, float scalar); void invert_matrix_float(float *res, float *mat, int m); float matrix_norm_float(float *m, int size); void matrix_QR_float(float *a, float *q, float *r, int m); void cal_eigen_vector_float(float *a, float *v, float *w, int m, int n);
void correlation_matrix_uchar(unsigned char *res, unsigned char *mat1, unsigned char *mat2, int l, int n, int m); void correlation_matrix_char(char *res, char *mat1, char *mat2, int l, int n, int m); void correlation_matrix_short(short *res, short *mat1, short *mat2, int l, int n, int m); void correlation_matrix_ushort(unsigned short *res, unsigned short *mat1, unsigned short *mat2, int l, int n, int m); void correlation_matrix_int(int *res, int *mat1, int *mat2, int l, int n, int m); void correlation_matrix_uint(unsigned int *res, unsigned int *mat1, unsigned int *mat2, int l, int n, int m); void correlation_matrix_float(float *res, float *mat1, float *mat2, int l, int n, int m);
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
static int near(double a, double b, double tol) { double e = a - b; return (e <= tol) & (e >= -tol); }
/* kinds: 0 char 1 uchar 2 short 3 ushort 4 int 5 uint 6 float 7 double */
static const int SZ[] = {1, 1, 2, 2, 4, 4, 4, 8};
static long rd(const void *p, int k, long i) { switch (k) { case 0: return ((const signed char *)p)[i]; case 1: return ((const unsigned char *)p)[i]; case 2: return ((const short *)p)[i]; case 3: return ((const unsigned short *)p)[i]; case 4: return ((const int *)p)[i]; default: return ((const unsigned *)p)[i]; } }
static long wrap(long v, int k) { switch (k) { case 0: return (signed char)v; case 1: return (unsigned char)v; case 2: return (short)v; case 3: return (unsigned short)v; case 4: return (int)v; default: return (unsigned)v; } }
static void mul(int k, void *x, void *y, void *z, int m, int q, int n) { switch (k) { case 0: MulMatrix_char(x, y, z, m, q, n); break; case 1: MulMatrix_uchar(x, y, z, m, q, n); break; case 2: MulMatrix_short(x, y, z, m, q, n); break; case 3: MulMatrix_ushort(x, y, z, m, q, n); break; case 4: MulMatrix_int(x, y, z, m, q, n); break; case 5: MulMatrix_uint(x, y, z, m, q, n); break; case 6: MulMatrix_float(x, y, z, m, q, n); break; default: MulMatrix_double(x, y, z, m, q, n); } }
static void corr(int k, void *x, void *y, void *z, int m, int q, int n) { switch (k) { case 0: correlation_matrix_char(z, x, y, m, q, n); break; case 1: correlation_matrix_uchar(z, x, y, m, q, n); break; case 2: correlation_matrix_short(z, x, y, m, q, n); break; case 3: correlation_matrix_ushort(z, x, y, m, q, n); break; case 4: correlation_matrix_int(z, x, y, m, q, n); break; case 5: correlation_matrix_uint(z, x, y, m, q, n); break; default: correlation_matrix_float(z, x, y, m, q, n); } }
static void trans(int k, void *x, void *z, int m, int n) { switch (k) { case 0: TransMatrix_char(x, z, m, n); break; case 1: TransMatrix_uchar(x, z, m, n); break; case 2: TransMatrix_short(x, z, m, n); break; case 3: TransMatrix_ushort(x, z, m, n); break; case 4: TransMatrix_int(x, z, m, n); break; case 5: TransMatrix_uint(x, z, m, n); break; case 6: TransMatrix_float(x, z, m, n); break; default: TransMatrix_double(x, z, m, n); } }
static void *blk(const char *nm, long n) { void *p = malloc(n); sx_make_symbolic(p, n, nm); return p; }
static void dims(int *m, int *q, int *n) { int b = (int)sx_param("box", 3); *m = (int)sx_param("m", 0); *q = (int)sx_param("q", 0); *n = (int)sx_param("n", 0); if (!*m) *m = (int)sx_choose("m", 1, b); if (!*q) *q = (int)sx_choose("q", 1, b); if (!*n) *n = (int)sx_choose("n", 1, b); }
/* long factors: only a few entries stay arbitrary */
static void few(void *p, int k, long n) { long fw = sx_param("few", 0); if (!fw || fw >= n) return; long step = (n + fw - 1) / fw; for (long i = 0; i < n; i++) { long v = (i * 7919 + 3) % 23 - (k == 1 || k == 3 || k == 5 ? 0 : 11); if (i % step == step - 1 || (fw > 1 && i == n - 1)) continue; switch (k) { case 0: ((signed char *)p)[i] = (signed char)v; break; case 1: ((unsigned char *)p)[i] = (unsigned char)v; break; case 2: ((short *)p)[i] = (short)v; break; case 3: ((unsigned short *)p)[i] = (unsigned short)v; break; case 4: ((int *)p)[i] = (int)v; break; case 5: ((unsigned *)p)[i] = (unsigned)v; break; case 6: ((float *)p)[i] = (float)v; break; default: ((double *)p)[i] = (double)v; } } }
void h_mul(void) {
  int k = (int)sx_param("k", 0), co = (int)sx_param("corr", 0), m, q, n, sz = SZ[k]; dims(&m, &q, &n); void *x = blk("x", (long)m * q * sz), *y = blk("y", (long)q * n * sz), *z = blk("old", (long)m * n * sz);
  if (k > 5) { int lim = (int)sx_param("lim", 200), fw = (int)sx_param("few", 0); for (int i = 0; i < m * q; i++) { if (fw && i % ((m * q + fw - 1) / fw) != (m * q + fw - 1) / fw - 1 && i != m * q - 1) continue; int v = (int)sx_range("a", -lim, lim); if (k == 6) ((float *)x)[i] = (float)v; else ((double *)x)[i] = v; } for (int i = 0; i < q * n; i++) { if (fw && i % ((q * n + fw - 1) / fw) != (q * n + fw - 1) / fw - 1 && i != q * n - 1) continue; int v = (int)sx_range("b", -lim, lim); if (k == 6) ((float *)y)[i] = (float)v; else ((double *)y)[i] = v; } }
  few(x, k, (long)m * q); few(y, k, (long)q * n); void *dx = dup_bytes(x, (long)m * q * sz), *dy = dup_bytes(y, (long)q * n * sz); long h0 = sx_live_heap(); if (co) corr(k, x, y, z, m, q, n); else mul(k, x, y, z, m, q, n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (k < 6) { long s = 0; for (int t = 0; t < q; t++) s += rd(dx, k, i * q + t) * rd(dy, k, t * n + j); s = wrap(s, k); long w = co ? s / q : s, g = rd(z, k, i * n + j); sx_assert(g == w, co ? "the correlation of a row and a column" : "the product of a row and a column"); } else if (k == 6) { float s = 0; for (int t = 0; t < q; t++) s += ((float *)dx)[i * q + t] * ((float *)dy)[t * n + j]; float g = ((float *)z)[i * n + j]; sx_assert(g == (co ? s / q : s), co ? "the correlation of a row and a column" : "the product of a row and a column"); } else { double s = 0; for (int t = 0; t < q; t++) s += ((double *)dx)[i * q + t] * ((double *)dy)[t * n + j]; sx_assert(((double *)z)[i * n + j] == s, "the product of a row and a column"); } }
  check_bytes(x, dx, (long)m * q * sz, "first factor unchanged"); check_bytes(y, dy, (long)q * n * sz, "second factor unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("z", k < 6 ? rd(z, k, 0) : k == 6 ? (long)*(float *)z : (long)*(double *)z);
}
void h_trans(void) {
  int k = (int)sx_param("k", 0), m, q, n, sz = SZ[k]; dims(&m, &q, &n); void *x = blk("x", (long)m * n * sz), *z = blk("old", (long)m * n * sz), *d = dup_bytes(x, (long)m * n * sz); trans(k, x, z, m, n); const unsigned char *g = (const unsigned char *)z, *s = (const unsigned char *)d; int ok = 1; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int b = 0; b < sz; b++) ok &= g[(j * m + i) * sz + b] == s[(i * n + j) * sz + b]; sx_assert(ok, "rows become columns"); check_bytes(x, d, (long)m * n * sz, "source unchanged"); sx_observe("z", g[0]);
}
/* ---- rows of float matrices ---- */
void h_rows(void) {
  int f = (int)sx_param("f", 0), m = (int)sx_param("m", 0), n = (int)sx_param("n", 0), a, b; if (!m) m = (int)sx_choose("m", 2, 4); if (!n) n = (int)sx_choose("n", 1, 4); a = (int)sx_choose("r1", 0, m - 1); b = (int)sx_choose("r2", 0, m - 1); if (f == 0 || f == 2) sx_assume(a != b); float *x = (float *)blk("x", 4L * m * n), s = sx_float("scalar"); for (int i = 0; i < m * n; i++) sx_assume(x[i] == x[i]); sx_assume(s == s); float *d = (float *)dup_bytes(x, 4L * m * n); long h0 = sx_live_heap(); if (f == 0) swap_rows_float(x, m, n, a, b); else if (f == 1) matrix_row_multi_scalar_float(x, m, n, a, s); else shear_row(x, m, n, a, b, s);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { float g = x[i * n + j], o = d[i * n + j], p = d[b * n + j]; if (f == 0) sx_assert(((unsigned *)x)[i * n + j] == ((unsigned *)d)[(i == a ? b : i == b ? a : i) * n + j], "the two rows exchanged"); else if (i != a) sx_assert(((unsigned *)x)[i * n + j] == ((unsigned *)d)[i * n + j], "other rows unchanged"); else { float w = f == 1 ? o * s : o + s * p; sx_assert((g == w) | ((g != g) & (w != w)), f == 1 ? "the row times the factor" : "the row plus the factor times the other row"); } }
  sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("b", ((unsigned *)x)[0] != ((unsigned *)d)[0]);
}
void h_rows_bad(void) { int f = (int)sx_param("f", 0), w = (int)sx_param("which", 0), m = 3, n = 2, a = 0, b = 1; float x[6] = {0}; if (w == 0) { a = sx_int("r1"); sx_assume(a < 0 || a >= m); } if (w == 1) { b = sx_int("r2"); sx_assume(b < 0 || b >= m); } if (w == 2) b = a = (int)sx_choose("r", 0, 2); sx_exit_mode(1); if (f == 0) swap_rows_float(x, m, n, a, b); else if (f == 1) matrix_row_multi_scalar_float(x, m, n, a, 2); else shear_row(x, m, n, a, b, 2); sx_assert(0, "rows outside the matrix, or the same row twice, are refused"); }
void h_identity(void) { int m = (int)sx_choose("m", sx_param("lo", 1), sx_param("hi", 6)); float *x = (float *)blk("old", 4L * m * m); set_identity_matrix_float(x, m); int ok = 1; for (int i = 0; i < m * m; i++) ok &= x[i] == (i % (m + 1) ? 0 : 1); sx_assert(ok, "the identity matrix"); sx_observe("x", (long)x[m * m - 1]); }
void h_norm(void) { int n = (int)sx_choose("n", 1, sx_param("max", 4)), s = 0; float *x = (float *)malloc(4 * n); for (int i = 0; i < n; i++) { int v = (int)sx_range("v", -sx_param("lim", 200), sx_param("lim", 200)); s += v * v; x[i] = (float)(v * pow2of("scale2")); } float g = matrix_norm_float(x, n); double k2 = pow2of("scale2") * pow2of("scale2"), r = sqrt(s * k2); sx_assert((g == (float)r) | (g == sqrtf((float)(s * k2))), "the root of the sum of squares"); sx_observe("g", (long)g); }
/* ---- decompositions: small integer matrices with some entries arbitrary ---- */
static void entries(float *a, int m, int nsym, int lo, int hi, unsigned seed, int diag) { for (int i = 0; i < m * m; i++) { a[i] = (float)((int)(lcg(&seed) % 9) - 4); if (i % (m + 1) == 0) a[i] += diag; } for (int i = 0; i < nsym; i++) { int at = (int)(lcg(&seed) % (m * m)); long v = sx_range("e", lo, hi); a[at] = (float)(sx_param("split", 1) ? sx_concretize(v) : v); } }
static double det(const float *a, int m) { if (m == 1) return a[0]; if (m == 2) return (double)a[0] * a[3] - (double)a[1] * a[2]; double s = 0; float b[36]; for (int c = 0; c < m; c++) { int k = 0; for (int i = 1; i < m; i++) for (int j = 0; j < m; j++) if (j != c) b[k++] = a[i * m + j]; s += (c & 1 ? -1.0 : 1.0) * a[c] * det(b, m - 1); } return s; }
void h_invert(void) {
  int m = (int)sx_param("m", 3), ns = (int)sx_param("nsym", 3); float *a = (float *)malloc(4 * m * m), *r = (float *)blk("old", 4L * m * m); entries(a, m, ns, sx_param("lo", -1), sx_param("hi", 1), (unsigned)sx_param("seed", 1), (int)sx_param("diag", 0)); if (sx_param("z0", 0)) a[0] = 0; for (int i = 0; i < m * m; i++) a[i] *= (float)pow2of("scale2"); sx_assume(det(a, m) != 0); float *d = (float *)dup_bytes(a, 4L * m * m); long h0 = sx_live_heap(); invert_matrix_float(r, a, m);
  double dt = det(d, m); if (dt < 0) dt = -dt; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double s = 0, u = 0, ab = 0; for (int k = 0; k < m; k++) { s += (double)d[i * m + k] * r[k * m + j]; u += (double)r[i * m + k] * d[k * m + j]; } sx_assert(near(s, i == j, 2e-3) & near(u, i == j, 2e-3), "matrix times inverse is the identity"); } sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("r", (long)(r[0] * 1000));
}
void h_qr(void) {
  int m = (int)sx_param("m", 3), ns = (int)sx_param("nsym", 3); float *a = (float *)malloc(4 * m * m), *q = (float *)blk("oldq", 4L * m * m), *r = (float *)blk("oldr", 4L * m * m); entries(a, m, ns, sx_param("lo", -2), sx_param("hi", 2), (unsigned)sx_param("seed", 1), (int)sx_param("diag", 0)); double dt = det(a, m), k2 = pow2of("scale2"); sx_assume((dt >= 1) | (dt <= -1)); for (int i = 0; i < m * m; i++) a[i] *= (float)k2; float *d = (float *)dup_bytes(a, 4L * m * m); long h0 = sx_live_heap(); matrix_QR_float(a, q, r, m);
  for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { double s = 0, o = 0; for (int k = 0; k < m; k++) { s += (double)q[i * m + k] * r[k * m + j]; o += (double)q[k * m + i] * q[k * m + j]; } sx_assert(near(s, d[i * m + j], 1e-4 * k2), "Q times R is the matrix"); sx_assert(near(o, i == j, 5e-3), "Q is orthonormal"); if (i > j) sx_assert(r[i * m + j] == 0, "R is upper triangular"); } check_bytes(a, d, 4L * m * m, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("r", (long)(r[0] * 1000));
}
/* matrices built from known eigenvectors (columns of U, integer inverse V) */
static const int EU[][9] = {{1, 1, 1, 2}, {2, 1, 3, 2}, {1, 1, 1, 1, 2, 3, 1, 3, 6}, {2, 1, 1, 1, 2, 1, 1, 1, 1}}, EV[][9] = {{2, -1, -1, 1}, {2, -1, -3, 2}, {3, -3, 1, -3, 5, -2, 1, -2, 1}, {1, 0, -1, 0, 1, -1, -1, -1, 3}}, EM[] = {2, 2, 3, 3};
void h_eigen(void) {
  int e = (int)sx_param("e", 0), m = EM[e], w[3]; float a[9], v[9], l[3]; double c; for (int i = 0; i < m; i++) { w[i] = (int)sx_concretize(sx_range("value", sx_param("lo", -4), sx_param("hi", 4))); for (int j = 0; j < i; j++) sx_assume(w[i] != w[j]); l[i] = (float)w[i]; } for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { int s = 0; for (int k = 0; k < m; k++) s += EU[e][i * m + k] * w[k] * EV[e][k * m + j]; a[i * m + j] = (float)(s * pow2of("scale2")); } for (int i = 0; i < m; i++) l[i] *= (float)pow2of("scale2");
  for (int k = 0; k < m; k++) { double p0 = a[0] - l[k], p1 = p0 * (a[m + 1] - l[k]) - (double)a[1] * a[m]; sx_assume(p0 != 0 && (m < 3 || p1 != 0)); } sx_make_symbolic(v, sizeof v, "old"); float d[9]; memcpy(d, a, sizeof a); long h0 = sx_live_heap(); cal_eigen_vector_float(a, v, l, m, m);
  for (int k = 0; k < m; k++) { double n2 = 0; for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < m; j++) s += (double)a[i * m + j] * v[j * m + k]; sx_assert(near(s, l[k] * (double)v[i * m + k], 0.02 * pow2of("scale2")), "the matrix scales the vector by its eigenvalue"); n2 += (double)v[i * m + k] * v[i * m + k]; } sx_assert(near(n2, 1, 1e-4), "unit length"); } check_bytes(a, d, 4L * m * m, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", (long)(v[0] * 1000));
}
/* ---- P14 ---- */
static double mean_of(int k, void *p, int n) { switch (k) { case 0: return mean_char(p, n); case 1: return mean_uchar(p, n); case 2: return mean_short(p, n); case 3: return mean_ushort(p, n); case 4: return mean_int(p, n); case 5: return mean_uint(p, n); case 6: return mean_float(p, n); default: return mean_double(p, n); } }
void h_mean_vec(void) {
  int k = (int)sx_param("k", 0), n = (int)sx_choose("n", sx_param("lo", 1), sx_param("hi", 6)), frac = (int)sx_param("quarter", 0), sh = (int)sx_param("huge", 0); long s = 0; void *p = blk("v", (long)n * SZ[k]); for (int i = 0; i < n; i++) if (k < 4) s += rd(p, k, i); else { int B = sh ? 10 / n : 0; long v = sh ? ((long)sx_bits("x", B) - (k == 5 ? 0 : 1 << (B - 1))) * (1l << (32 - B)) : sx_range("x", k == 5 ? 0 : -1000000, 1000000); s += v; if (k == 4) ((int *)p)[i] = (int)v; else if (k == 5) ((unsigned *)p)[i] = (unsigned)v; else if (k == 6) ((float *)p)[i] = frac ? (float)v * 0.25f : (float)v; else ((double *)p)[i] = frac ? v * 0.25 : v; }
  void *d = dup_bytes(p, (long)n * SZ[k]); double g = mean_of(k, p, n), w = frac ? s * 0.25 : (double)s; if (k == 7) sx_assert(g == w / n, "the mean"); else sx_assert((g == (double)((float)w / n)) | (g == (double)(float)(w / n)), "the mean, rounded to float"); check_bytes(p, d, (long)n * SZ[k], "vector unchanged"); sx_observe("m", (long)(g * 16));
}
/* very long vectors: a few arbitrary small values among fixed ones */
void h_mean_long(void) { int k = (int)sx_param("k", 0), n = (int)sx_param("n", 70000), fw = 3; void *p = malloc((long)n * SZ[k]); long s = 0; for (int i = 0; i < n; i++) { long v = (i * 7919L + 3) % 101, u = k == 1 || k == 3 || k == 5; if (!u) v -= 50; if (i == 0 || i == n / 2 || i == n - 1) v = sx_range("x", u ? 0 : -100, 100); s += v; switch (k) { case 0: ((signed char *)p)[i] = (signed char)v; break; case 1: ((unsigned char *)p)[i] = (unsigned char)v; break; case 2: ((short *)p)[i] = (short)v; break; case 3: ((unsigned short *)p)[i] = (unsigned short)v; break; case 4: ((int *)p)[i] = (int)v; break; case 5: ((unsigned *)p)[i] = (unsigned)v; break; case 6: ((float *)p)[i] = (float)v; break; default: ((double *)p)[i] = (double)v; } } (void)fw; double g = mean_of(k, p, n), w = (double)s; if (k == 7) sx_assert(g == w / n, "the mean"); else sx_assert((g == (double)((float)w / n)) | (g == (double)(float)(w / n)), "the mean, rounded to float"); sx_observe("m", (long)(g * 16)); }
/* any value at all */
void h_mean_any(void) { int k = (int)sx_param("k", 4); void *p = blk("v", SZ[k]); double g = mean_of(k, p, 1); if (k == 6) { float v = *(float *)p; sx_assert((g == v) | (v != v), "the mean of one value"); } else if (k == 7) { double v = *(double *)p; sx_assert((g == v) | (v != v), "the mean of one value"); } else sx_assert(g == (double)(float)rd(p, k, 0), "the mean of one value"); sx_observe("m", g == 0); }
void h_sort(void) {
  int n = (int)sx_choose("n", 1, sx_param("max", 5)); float *a = (float *)blk("v", 4L * n), *d; for (int i = 0; i < n; i++) sx_assume(a[i] == a[i]); d = (float *)dup_bytes(a, 4L * n); long h0 = sx_live_heap(); sort_array_down_float(a, n); for (int i = 1; i < n; i++) sx_assert(a[i - 1] >= a[i], "in falling order"); for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) c += (((unsigned *)a)[j] == ((unsigned *)d)[i]) - (((unsigned *)d)[j] == ((unsigned *)d)[i]); sx_assert(c == 0, "the same values"); } sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("f", a[0] > 0);
}
/* a long array, some values arbitrary */
void h_sort_long(void) { int n = (int)sx_param("n", 20), fr = (int)sx_param("free", 2); unsigned sd = (unsigned)sx_param("seed", 1); float *a = (float *)malloc(4 * n); for (int i = 0; i < n; i++) a[i] = (float)((int)(lcg(&sd) % 61) - 30) * 0.5f; for (int i = 0; i < fr; i++) a[lcg(&sd) % n] = (float)sx_range("v", -20, 20); float *d = (float *)dup_bytes(a, 4 * n); long h0 = sx_live_heap(); sort_array_down_float(a, n); for (int i = 1; i < n; i++) sx_assert(a[i - 1] >= a[i], "in falling order"); for (int i = 0; i < n; i++) { int lo = 0, le = 0; for (int j = 0; j < n; j++) { lo += d[j] > a[i]; le += d[j] >= a[i]; } sx_assert((lo <= i) & (i < le), "the same values"); } sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("f", a[0] > 0); }
void h_fact(void) { long f = 1; int n = (int)sx_choose("n", -3, 20); long g = hypercv_factorial(n); for (int i = 2; i <= n; i++) f *= i; sx_assert(g == (n < 0 ? -1 : f), "the product of 1 to n"); sx_observe("g", g); }
void h_fact_neg(void) { int n = sx_int("n"); sx_assume(n < 0); sx_assert(hypercv_factorial(n) == -1, "negative numbers yield -1"); }
void h_log(void) {
  int r = (int)sx_param("r", 0), c = (int)sx_param("c", 0); if (!r) r = (int)sx_choose("r", 1, 3); if (!c) c = (int)sx_choose("c", 1, 3); int ch = (int)sx_choose("ch", 1, 3), own = (int)sx_choose("inplace", 0, 1); simple_mat m = sym_img("px", r, c, 4, ch), t = own ? m : sym_img("old", r, c, 4, ch); long n = (long)r * c * ch; float *x = (float *)m->data; for (long i = 0; i < n; i++) sx_assume(x[i] > 0); float *d = (float *)dup_bytes(x, 4 * n); long h0 = sx_live_heap(); simple_mat_log(m, t); float *g = (float *)t->data; for (long i = 0; i < n; i++) { float a = (float)log((double)d[i]), b = logf(d[i]); sx_assert((g[i] == a) | (g[i] == b) | (a != a) | (b != b), "the natural logarithm of every value"); } if (!own) check_bytes(x, d, 4 * n, "source unchanged"); check_img(t, r, c, 4, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("n", n);
}
void h_log_val(void) { static const float V[] = {1, 2.7182817f, 0.5f, 10, 1e-30f, 1e30f}, W[] = {0, 1, -0.6931472f, 2.3025851f, -69.077553f, 69.077553f}; int i = (int)sx_choose("i", 0, 5); simple_mat m = raw_img(1, 1, 4, 1), t = raw_img(1, 1, 4, 1); *(float *)m->data = V[i]; simple_mat_log(m, t); sx_assert(near(*(float *)t->data, W[i], 2e-5), "the natural logarithm"); sx_observe("g", (long)(*(float *)t->data * 1000)); }
void h_log_bad(void) { int w = (int)sx_param("which", 0), sd = 4, dd = 4, r = 2, c = 2, ch = 1; if (w == 0) { sd = DTS[sx_choose("dt", 0, 8)]; sx_assume(sd != 4); } if (w == 1) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 4); } if (w == 2) r = 3; if (w == 3) c = 1; if (w == 4) ch = 3; simple_mat m = sym_img("px", 2, 2, sd, 1), t = sym_img("old", r, c, dd, ch); REJECTS(simple_mat_log(m, t), "other types and shapes are refused"); }
