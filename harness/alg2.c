#include "hm.h"
float cal_edge_signal_energy(simple_mat mat);
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
static int near(double a, double b, double tol) { double e = a - b; return (e <= tol) & (e >= -tol); }
/* ---- A04: k-means; the starting places drawn by the code are arbitrary ---- */
static int rmax; int rand(void) { return (int)sx_choose("rand", 0, rmax); }
static void assign(const unsigned char *p, int r, int c, int k, const int *x, const int *y, int *mx, int *my) { long sx[8] = {0}, sy[8] = {0}, n[8] = {0}; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (p[i * c + j]) { int b = 0; long bd = 1L << 40; for (int q = 0; q < k; q++) { long d = (long)(x[q] - j) * (x[q] - j) + (long)(y[q] - i) * (y[q] - i); if (d < bd) bd = d, b = q; } sx[b] += j; sy[b] += i; n[b]++; } for (int q = 0; q < k; q++) { mx[q] = n[q] ? (int)(sx[q] / n[q]) : x[q]; my[q] = n[q] ? (int)(sy[q] / n[q]) : y[q]; } }
/* are the centres what the last pass made of centres at most th away? */
static int reachable(const unsigned char *p, int r, int c, int k, int th, const int *x, const int *y) { int px[8], py[8], mx[8], my[8], d[16]; for (int i = 0; i < 2 * k; i++) d[i] = -th; while (1) { int ok = 1; for (int q = 0; q < k; q++) px[q] = x[q] + d[2 * q], py[q] = y[q] + d[2 * q + 1]; assign(p, r, c, k, px, py, mx, my); for (int q = 0; q < k; q++) if (mx[q] != x[q] || my[q] != y[q]) ok = 0; if (ok) return 1; int i = 0; while (i < 2 * k && d[i] == th) d[i++] = -th; if (i == 2 * k) return 0; d[i]++; } }
void h_kmeans(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), k = (int)sx_param("kind", 2), th = (int)sx_param("th", 0), ch = (int)sx_param("ch", 1), fr = (int)sx_param("free", r * c); unsigned sd = (unsigned)sx_param("seed", 1); long n = (long)r * c; unsigned char on[600]; simple_mat m = raw_img(r, c, 1, ch); unsigned char *p = (unsigned char *)m->data; for (long i = 0; i < n; i++) on[i] = lcg(&sd) % 3 != 0; unsigned at = lcg(&sd); for (int i = 0; i < fr; i++) on[(at + i * (fr == n ? 1 : n / fr)) % n] = (unsigned char)sx_choose("on", 0, 1); if (sx_param("black", 0)) for (long i = 0; i < n; i++) on[i] = 0; if (sx_param("ends", 0)) { for (long i = 0; i < n; i++) on[i] = 0; on[0] = on[n - 1] = 1; on[n / 3] = (unsigned char)sx_choose("on", 0, 1); }
  for (long i = 0; i < n; i++) for (int q = 0; q < ch; q++) { if (!on[i]) p[i * ch + q] = 0; else { p[i * ch + q] = sx_uchar("px"); sx_assume(p[i * ch + q] >= (ch == 1 ? 1 : 30)); } } rmax = (r > c ? r : c) - 1; unsigned char *d = (unsigned char *)dup_bytes(p, n * ch); POINT *v = NULL; for (int q = 0; q < k; q++) { POINT o; o.x = 1000; o.y = -1000; vector_push_back(v, o); } long h0 = sx_live_heap(); hypercv_k_means(m, v, k, th); int x[8], y[8]; for (int q = 0; q < k; q++) { x[q] = v[q].x; y[q] = v[q].y; sx_assert(x[q] >= 0 && x[q] < c && y[q] >= 0 && y[q] < r, "centres lie inside the image"); }
  sx_assert(reachable(on, r, c, k, th, x, y), "every centre is the mean of the bright pixels nearest to it"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_assert(vector_size(v) == (size_t)k, "as many centres as asked for"); check_bytes(p, d, n * ch, "source unchanged"); check_img(m, r, c, 1, ch); sx_observe("x", x[0]);
}
void h_kmeans_bad(void) { int w = (int)sx_param("which", 0), k = 2; simple_mat m = sym_img("px", 2, 2, 1, 1); POINT *v = NULL, o = {0, 0}; rmax = 1; vector_push_back(v, o); vector_push_back(v, o); if (w == 1) { k = sx_int("kind"); sx_assume(k < 1); } if (w == 2) { k = sx_int("kind"); sx_assume(k >= 1 && k != 2); } REJECTS(hypercv_k_means(w == 0 ? NULL : m, v, k, 0), "a missing image and other numbers of centres are refused"); }
/* ---- A05: constrained energy minimisation ---- */
static int solve_ref(int b, const double *R, const double *d, double *w) { double a[8][9]; for (int i = 0; i < b; i++) { for (int j = 0; j < b; j++) a[i][j] = R[i * b + j]; a[i][b] = d[i]; } for (int i = 0; i < b; i++) { int p = i; for (int j = i + 1; j < b; j++) { double u = a[j][i] < 0 ? -a[j][i] : a[j][i], v = a[p][i] < 0 ? -a[p][i] : a[p][i]; p = u > v ? j : p; } p = (int)sx_concretize(p); for (int j = 0; j <= b; j++) { double t = a[i][j]; a[i][j] = a[p][j]; a[p][j] = t; } for (int j = 0; j < b; j++) if (j != i) { double f = a[j][i] / a[i][i]; for (int q = i; q <= b; q++) a[j][q] -= f * a[i][q]; } } for (int i = 0; i < b; i++) w[i] = a[i][b] / a[i][i]; return 1; }
static double det3(int b, const double *a) { if (b == 1) return a[0]; if (b == 2) return a[0] * a[3] - a[1] * a[2]; double s = 0, m[16]; for (int c = 0; c < b; c++) { int k = 0; for (int i = 1; i < b; i++) for (int j = 0; j < b; j++) if (j != c) m[k++] = a[i * b + j]; double t = a[c] * det3(b - 1, m); s = c % 2 ? s - t : s + t; } return s; }
void h_cem(void) {
  int s = (int)sx_param("s", 2), l = (int)sx_param("l", 2), b = (int)sx_param("b", 2), il = (int)sx_param("il", 0), hi = (int)sx_param("hi", 60), tgt = (int)sx_param("target", -1); unsigned sd = (unsigned)sx_param("seed", 1); hyper_mat m = raw_cube(s, l, b, 4, ILS[il]); long n = (long)s * l; float (*px)[8] = (float (*)[8])malloc(n * sizeof *px), *x = (float *)m->data, *d = (float *)malloc(4 * b); double R[25] = {0}, w[8], dd[8], q = 0; for (long i = 0; i < n; i++) for (int k = 0; k < b; k++) px[i][k] = (float)((lcg(&sd) % 50) + 1); px[lcg(&sd) % n][lcg(&sd) % b] = (float)sx_range("v", sx_param("lo", 0), hi);
  for (int k = 0; k < b; k++) d[k] = tgt >= 0 ? px[tgt][k] : (float)(lcg(&sd) % 40 + 5); if (sx_param("scale2", 0)) { for (long i = 0; i < n; i++) for (int k = 0; k < b; k++) px[i][k] *= (float)pow2of("scale2"); for (int k = 0; k < b; k++) d[k] *= (float)pow2of("scale2"); } for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) x[pos(ILS[il], s, l, b, i, j, k)] = px[i * s + j][k]; for (int k = 0; k < b; k++) m->wavelength[k] = (float)k; for (int i = 0; i < b; i++) { dd[i] = d[i]; for (int j = 0; j < b; j++) { for (long t = 0; t < n; t++) R[i * b + j] += (double)px[t][i] * px[t][j]; R[i * b + j] /= n; } } double sc = 1; for (int i = 0; i < b; i++) sc *= R[i * b + i]; double dt = det3(b, R); sx_assume(dt > (b > 3 ? 0.002 : 0.02) * sc); solve_ref(b, R, dd, w); for (int k = 0; k < b; k++) q += dd[k] * w[k];
  void *cd = dup_bytes(d, 4 * b); long h0 = sx_live_heap(); simple_mat t = hyper_mat_cem(m, d); check_img(t, l, s, 4, 1); float *g = (float *)t->data; for (long i = 0; i < n; i++) { double y = 0; for (int k = 0; k < b; k++) y += px[i][k] * w[k]; sx_assert(near(g[i], y / q, 2e-3), "the response of the constrained filter"); if (i == tgt) sx_assert(near(g[i], 1, 1e-3), "the target itself yields one"); } sx_observe("g", (long)(g[0] * 100)); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(d, cd, 4 * b, "spectrum unchanged"); sx_assert(m->samples == s && m->lines == l && m->bands == b && m->data_type == 4, "shape of the cube kept"); x = (float *)m->data; int now = il && m->interleave[0] == 'b' && m->interleave[1] == 's' ? 0 : il, ok = 1; for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) ok &= x[pos(ILS[now], s, l, b, i, j, k)] == px[i * s + j][k]; sx_assert(ok, "pixels of the cube kept");
}
void h_cem_bad(void) { int dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); hyper_mat m = sym_cube("px", 2, 2, 2, dt, ILS[sx_choose("il", 0, 2)]); float d[2] = {1, 2}; REJECTS(hyper_mat_cem(m, d), "other types are refused"); }
/* ---- A06: moments and shape similarity ---- */
static void hu_ref(const unsigned char *p, int r, int c, double *h) { double s = 0, sx = 0, sy = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double v = p[i * c + j]; s += v; sx += j * v; sy += i * v; } double cx = floor(sx / s + 0.5), cy = floor(sy / s + 0.5), m[4][4]; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { m[a][b] = 0; if (a + b < 2 || a + b > 3) continue; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double t = p[i * c + j]; for (int q = 0; q < a; q++) t *= j - cx; for (int q = 0; q < b; q++) t *= i - cy; m[a][b] += t; } m[a][b] /= a + b == 2 ? s * s : s * s * sqrt(s); } double A = m[3][0] + m[1][2], B = m[2][1] + m[0][3], C = m[3][0] - 3 * m[1][2], D = 3 * m[2][1] - m[0][3], E = m[2][0] - m[0][2]; h[0] = m[2][0] + m[0][2]; h[1] = E * E + 4 * m[1][1] * m[1][1]; h[2] = C * C + D * D; h[3] = A * A + B * B; h[4] = C * A * (A * A - 3 * B * B) + D * B * (3 * A * A - B * B); h[5] = E * (A * A - B * B) + 4 * m[1][1] * A * B; h[6] = D * A * (A * A - 3 * B * B) - C * B * (3 * A * A - B * B); }
static simple_mat shape(int r, int c, unsigned sd, int fr, int lo, int hi) { simple_mat m = raw_img(r, c, 1, 1); unsigned char *p = (unsigned char *)m->data; for (int i = 0; i < r * c; i++) { unsigned v = lcg(&sd); p[i] = v % 5 < 2 ? 0 : (unsigned char)(v >> 8); } unsigned at = lcg(&sd); for (int i = 0; i < fr; i++) p[(at + 3 * i) % (r * c)] = (unsigned char)sx_range("px", lo, hi); return m; }
static void sum_pos(const unsigned char *p, int n) { int s = 0; for (int i = 0; i < n; i++) s += p[i]; sx_assume(s > 0); }
static int close6(double a, double b) { double s = (a < 0 ? -a : a) * 1e-6 + 1e-18; return near(a, b, s); }
void h_hu(void) { int r = (int)sx_param("r", 3), c = (int)sx_param("c", 4); simple_mat m = shape(r, c, (unsigned)sx_param("seed", 1), (int)sx_param("free", 1), sx_param("lo", 0), sx_param("hi", 255)); sum_pos((unsigned char *)m->data, r * c); void *d = dup_bytes(m->data, r * c); double g[7], w[7]; long h0 = sx_live_heap(); calc_hu_moment(g, m); hu_ref((unsigned char *)d, r, c, w); double sc = 0; for (int i = 0; i < 7; i++) sc += w[i] < 0 ? -w[i] : w[i]; for (int i = 0; i < 7; i++) sx_assert(near(g[i], w[i], 1e-12 * sc + 1e-20) | close6(g[i], w[i]), "the invariant moment"); check_bytes(m->data, d, r * c, "image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)(g[0] * 1e6)); }
void h_shapes(void) {
  int r = (int)sx_param("r", 3), c = (int)sx_param("c", 3), r2 = (int)sx_param("r2", 2), c2 = (int)sx_param("c2", 4); simple_mat a = shape(r, c, (unsigned)sx_param("seed", 1), 1, sx_param("lo", 0), sx_param("hi", 255)), b = shape(r2, c2, (unsigned)sx_param("seed2", 2), (int)sx_param("free2", 0), 0, 7); sum_pos((unsigned char *)a->data, r * c); sum_pos((unsigned char *)b->data, r2 * c2); void *da = dup_bytes(a->data, r * c), *db = dup_bytes(b->data, r2 * c2); double u[7], v[7], p = 0, q = 0; hu_ref((unsigned char *)da, r, c, u); hu_ref((unsigned char *)db, r2, c2, v); for (int i = 0; i < 7; i++) { double x = u[i] - v[i], y = u[i] + v[i]; p += x < 0 ? -x : x; q += y < 0 ? -y : y; } sx_assume(q > 1e-6); long h0 = sx_live_heap(); double g = hypercv_match_shapes(a, b); sx_assert(near(g, 1 - p / q, 1e-7), "the similarity of the moments"); sx_assert(near(hypercv_match_shapes(b, a), g, 1e-9), "the same in either order"); check_bytes(a->data, da, r * c, "first image unchanged"); check_bytes(b->data, db, r2 * c2, "second image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)(g * 1000));
}
/* the same shape: identical, moved, or turned by a right angle about the centroid pixel */
void h_same(void) {
  int r = (int)sx_param("r", 3), c = (int)sx_param("c", 3), how = (int)sx_param("how", 0), R = r + 3, C = c + 4, oy = (int)sx_choose("oy", 0, 3), ox = (int)sx_choose("ox", 0, 4); simple_mat a = shape(r, c, (unsigned)sx_param("seed", 1), 1, 0, 255), b = raw_img(how == 2 ? c : R, how == 2 ? r : C, 1, 1); unsigned char *p = (unsigned char *)a->data, *q = (unsigned char *)b->data; sum_pos(p, r * c); if (how == 2) { for (int i = 0; i < c; i++) for (int j = 0; j < r; j++) q[i * r + j] = p[j * c + i]; } else { memset(q, 0, R * C); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) q[(i + oy) * C + j + ox] = p[i * c + j]; } double u[7], v[7], s = 0; calc_hu_moment(u, a); calc_hu_moment(v, b); for (int i = 0; i < 7; i++) s += u[i] < 0 ? -u[i] : u[i]; sx_assume(s > 1e-6); for (int i = 0; i < 7; i++) sx_assert(near(u[i], how == 2 && i == 6 ? -v[i] : v[i], 1e-9 * s), how == 2 ? "moments of the mirrored shape" : "moments of the moved shape"); if (how != 2) sx_assert(near(hypercv_match_shapes(a, b), 1, 1e-8), "a moved shape matches fully"); sx_assert(hypercv_match_shapes(a, a) == 1, "a shape matches itself fully"); sx_observe("u", (long)(u[0] * 1e6));
}
void h_shapes_bad(void) { int w = (int)sx_param("which", 0); simple_mat m = shape(2, 2, 1, 0, 0, 0); double h[7]; sx_exit_mode(1); if (w == 0) hypercv_match_shapes(NULL, m); else if (w == 1) hypercv_match_shapes(m, NULL); else calc_hu_moment(h, NULL); sx_assert(0, "missing images are refused"); }
/* ---- A07: edge signal energy ---- */
void h_energy(void) {
  int r = (int)sx_param("r", 3), c = (int)sx_param("c", 3), flat = (int)sx_param("flat", 0); unsigned sd = (unsigned)sx_param("seed", 1); simple_mat m = raw_img(r, c, 1, 1); unsigned char *p = (unsigned char *)m->data; int mod = (int)sx_param("mod", 256); for (int i = 0; i < r * c; i++) p[i] = (unsigned char)(lcg(&sd) % mod); if (flat) { int v = (int)sx_range("px", 0, 255); for (int i = 0; i < r * c; i++) p[i] = (unsigned char)v; } else { unsigned at = lcg(&sd); for (int i = 0; i < (int)sx_param("free", 1); i++) p[(at + i) % (r * c)] = (unsigned char)sx_range("px", sx_param("lo", 0), sx_param("hi", 255)); } unsigned char *d = (unsigned char *)dup_bytes(p, r * c); long h0 = sx_live_heap(); float g = cal_edge_signal_energy(m);
  static const int K[3][3] = {{0, -2, 0}, {-2, 8, -2}, {0, -2, 0}}; long e = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { long s = 0; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (K[a + 1][b + 1]) s += K[a + 1][b + 1] * d[hypercv_border_Interpolate(i + a, r, BORDER_CONSTANT) * c + hypercv_border_Interpolate(j + b, c, BORDER_CONSTANT)]; e += s * s; } double w = (double)e / 36 / r / c; sx_assert(near(g, w, (2e-5 + 6e-8 * r * c) * w + 1e-4), "the mean squared response of the two edge kernels"); if (flat) sx_assert(near(g, 0, 1e-4), "no energy without edges"); sx_assert(g >= 0, "never negative"); check_bytes(p, d, r * c, "image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)g);
}
void h_energy_bad(void) { int w = (int)sx_param("which", 0), dt = 1, ch = 1; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 1); } if (w == 1) ch = (int)sx_choose("ch", 2, 4); simple_mat m = sym_img("px", 2, 2, dt, ch); REJECTS(cal_edge_signal_energy(w == 2 ? NULL : m), "other types and channels and missing images are refused"); }
/* ---- A08: principal components ---- */
void h_pca(void) {
  int s = (int)sx_param("s", 3), l = (int)sx_param("l", 2), b = (int)sx_param("b", 2), it = (int)sx_param("it", 25), lo = (int)sx_param("lo", 0), hi = (int)sx_param("hi", 120); unsigned sd = (unsigned)sx_param("seed", 1); hyper_mat m = raw_cube(s, l, b, 4, "bip"), t = sym_cube("old", s, l, b, 4, "bip"); long n = (long)s * l; float *x = (float *)m->data, *g = (float *)t->data; double k2 = pow2of("scale2"), tot = 0, mean[4] = {0};
  /* well separated: band k varies over a range of about 100 / 3^k around different levels, slightly mixed */
  for (long i = 0; i < n; i++) { double u[4]; int R = 160; for (int k = 0; k < b; k++) { u[k] = (int)(lcg(&sd) % R) - R / 2; R = R > 30 ? R * 2 / 7 : 9; } for (int k = 0; k < b; k++) { double v = 40 * k + 7; for (int q = 0; q < b; q++) v += u[(q + sx_param("turn", 0)) % b] * (q == k ? 1 : q > k ? 0.25 : -0.25); x[i * b + k] = (float)v; } }
  x[lcg(&sd) % (n * b)] += (float)sx_range("v", lo, hi) * 0.25f; for (long i = 0; i < n * b; i++) x[i] = (float)((x[i] + sx_param("off", 0)) * k2); for (int k = 0; k < b; k++) m->wavelength[k] = (float)k; float *d = (float *)dup_bytes(x, 4 * n * b); void *w = dup_bytes(t->wavelength, 4 * b); for (int k = 0; k < b; k++) { for (long i = 0; i < n; i++) mean[k] += (double)d[i * b + k]; mean[k] /= n; for (long i = 0; i < n; i++) tot += (d[i * b + k] - mean[k]) * (d[i * b + k] - mean[k]); }
  long h0 = sx_live_heap(); hyper_mat_pca(m, t, it); double tol = 2e-3, var[4]; for (int j = 0; j < b; j++) { double a = 0; for (long i = 0; i < n; i++) a += (double)g[i * b + j]; sx_assert(near(a / n, 0, tol * sqrt(tot / n)), "every component has mean zero"); for (int k = 0; k <= j; k++) { double c = 0; for (long i = 0; i < n; i++) c += (double)g[i * b + j] * g[i * b + k]; if (k == j) var[j] = c; else sx_assert(near(c, 0, tol * tot), "different components are uncorrelated"); } if (j) sx_assert(var[j] <= var[j - 1] + tol * tot, "components in order of falling variance"); }
  for (long p = 0; p < n; p++) { long q = (p * 5 + 1) % n; double a = 0, c = 0, e = 0, f = 0; for (int k = 0; k < b; k++) { a += (d[p * b + k] - mean[k]) * (d[q * b + k] - mean[k]); e += (d[p * b + k] - mean[k]) * (d[p * b + k] - mean[k]); c += (double)g[p * b + k] * g[q * b + k]; f += (double)g[p * b + k] * g[p * b + k]; } sx_assert(near(c, a, tol * tot) & near(f, e, tol * tot), "lengths of and angles between centred pixels are kept"); }
  check_bytes(x, d, 4 * n * b, "source unchanged"); check_bytes(t->wavelength, w, 4 * b, "wavelengths of the result untouched"); sx_assert(m->data_type == 4 && t->data_type == 4, "types kept"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)g[0]);
}
void h_pca_bad(void) { int w = (int)sx_param("which", 0), dt = 4, dd = 4, il = 2, id = 2, s = 3, l = 2, b = 2; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); } if (w == 1) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 4); } if (w == 2) il = (int)sx_choose("il", 0, 1); if (w == 3) id = (int)sx_choose("il", 0, 1); if (w == 4) { s = (int)sx_choose("s", 1, 5); sx_assume(s != 3); } if (w == 5) { l = (int)sx_choose("l", 1, 4); sx_assume(l != 2); } if (w == 6) { b = (int)sx_choose("b", 1, 3); sx_assume(b != 2); } if (w == 7) { s = 2; l = 3; } hyper_mat m = sym_cube("px", 3, 2, 2, dt, ILS[il]), t = sym_cube("old", s, l, b, dd, ILS[id]); REJECTS(hyper_mat_pca(w == 8 ? NULL : m, w == 9 ? NULL : t, 3), "other types, layouts and shapes and missing cubes are refused"); }
