#include "hm.h"
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
static const int BT[] = {BORDER_REPLICATE, BORDER_REFLECT, BORDER_WRAP, BORDER_REFLECT_101, BORDER_CONSTANT};
/* the definition of the border types */
static int fdiv(int a, int b) { int q = a / b; return (a % b) < 0 ? q - 1 : q; }
static int ref_border(int p, int len, int t) {
  if (p >= 0 && p < len) return p;
  if (t == BORDER_REPLICATE) return p < 0 ? 0 : len - 1;
  if (t == BORDER_WRAP) return p - fdiv(p, len) * len;
  if (len == 1) return 0;
  int per = t == BORDER_REFLECT ? 2 * len : 2 * len - 2, q = p - fdiv(p, per) * per; return q < len ? q : t == BORDER_REFLECT ? per - 1 - q : per - q;
}
/* ---- P06 ---- */
void h_border(void) {
  int t = BT[sx_param("t", 0)], len = (int)sx_choose("len", sx_param("lo", 1), sx_param("hi", 8)), turns = (int)sx_param("turns", 3); int p = sx_int("p"); sx_assume(p >= -turns * len && p < (turns + 1) * len); int want = t == BORDER_CONSTANT ? 0 : ref_border(p, len, t), r = hypercv_border_Interpolate(p, len, t);
  sx_assert(r >= 0 && r < len, "an index inside the row"); if (p >= 0 && p < len) sx_assert(r == p, "inside positions stay"); else if (t != BORDER_CONSTANT) sx_assert(r == want, "the position named by the border type"); sx_observe("r", r);
}
/* any length at all, positions up to one length outside */
void h_border_any(void) {
  int t = BT[sx_param("t", 0)], len = sx_int("len"), p = sx_int("p"); sx_assume(len >= 1 && len <= sx_param("max", 1000000000)); sx_assume(p >= -len && p < 2 * (long)len); if (t == BORDER_REFLECT_101) sx_assume(p > -len && p <= 2 * (long)len - 2); int r = hypercv_border_Interpolate(p, len, t), in = p >= 0 && p < len, want;
  sx_assert(r >= 0 && r < len, "an index inside the row"); if (in) sx_assert(r == p, "inside positions stay"); else { switch (t) { case BORDER_REPLICATE: want = p < 0 ? 0 : len - 1; break; case BORDER_REFLECT: want = p < 0 ? -1 - p : 2 * len - 1 - p; break; case BORDER_WRAP: want = p < 0 ? p + len : p - len; break; case BORDER_REFLECT_101: want = p < 0 ? -p : 2 * len - 2 - p; break; default: want = r; } sx_assert(r == want, "the position named by the border type"); }
  sx_observe("r", r);
}
void h_border_bad(void) { int t = sx_int("t"), p = sx_int("p"), len = (int)sx_choose("len", 1, 3); sx_assume(t < 0 || t > 4); REJECTS(hypercv_border_Interpolate(p, len, t), "an unknown border type is refused"); }
static void check_made(simple_mat r, const unsigned char *d, int R, int C, int dt, int ch, int t, int b, int l, int rt, int bt, int v) {
  check_img(r, R + t + b, C + l + rt, dt, ch); int e = esz(dt) * ch, ok = 1; const unsigned char *g = (const unsigned char *)r->data; long k = 0;
  for (int i = -t; i < R + b; i++) for (int j = -l; j < C + rt; j++) { int in = i >= 0 && i < R && j >= 0 && j < C; for (int x = 0; x < e; x++, k++) ok &= g[k] == (!in && bt == BORDER_CONSTANT ? v : d[(ref_border(i, R, bt) * (long)C + ref_border(j, C, bt)) * e + x]); }
  sx_assert(ok, "every pixel of the bordered image");
}
void h_make_border(void) {
  int bi = (int)sx_param("bt", -1), bt = BT[bi < 0 ? sx_choose("bt", 0, 4) : bi], dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), k = (int)sx_param("max", 2), R = (int)sx_param("r", 0), C = (int)sx_param("c", 0), t = (int)sx_param("t", -1), b = (int)sx_param("b", -1), l = (int)sx_param("l", -1), r = (int)sx_param("rt", -1); if (!R) R = (int)sx_choose("r", 1, 3); if (!C) C = (int)sx_choose("c", 1, 3);
  if (t < 0) t = (int)sx_choose("top", 0, k); if (b < 0) b = (int)sx_choose("bottom", 0, k); if (l < 0) l = (int)sx_choose("left", 0, k); if (r < 0) r = (int)sx_choose("right", 0, k); simple_mat m = sym_img("px", R, C, dt, ch); long n = (long)R * C * ch * esz(dt); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); int v = sx_uchar("value"); long h0 = sx_live_heap();
  simple_mat q = hypercv_copy_make_border(m, t, b, l, r, bt, (unsigned char)v); check_made(q, d, R, C, dt, ch, t, b, l, r, bt, v); check_bytes(m->data, d, n, "source unchanged"); check_img(m, R, C, dt, ch); sx_assert(q != m && q->data != m->data, "an image of its own"); memset(m->data, 0, n); check_made(q, d, R, C, dt, ch, t, b, l, r, bt, v); sx_observe("p", ((unsigned char *)q->data)[0]); delete_simple_mat(q); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m);
}
void h_make_border_bad(void) { int w = (int)sx_param("which", 0), bt = 1, s[4] = {1, 0, 1, 0}; simple_mat m = sym_img("px", 2, 2, 1, 1); if (w < 4) { s[w] = sx_int("size"); sx_assume(s[w] < 0); bt = BT[sx_choose("bt", 0, 4)]; } else { bt = sx_int("bt"); sx_assume(bt < 0 || bt > 4); } REJECTS(hypercv_copy_make_border(m, s[0], s[1], s[2], s[3], bt, 7), "negative sizes and unknown border types are refused"); }
/* ---- P07 ---- */
static void free_px(unsigned char *p, long n, int nfree, unsigned seed) { if (!nfree || nfree >= n) return; long step = (n + nfree - 1) / nfree; int bright = (int)sx_param("bright", 0); for (long i = 0; i < n; i++) { unsigned q = lcg(&seed); if (i % step) p[i] = (unsigned char)(bright ? 255 - q % 4 : q); } }
static int at2(const unsigned char *p, int R, int C, int ch, int i, int j, int x, int bt) { return p[((long)ref_border(i, R, bt) * C + ref_border(j, C, bt)) * ch + x]; }
/* integer coefficients: the sums are exact in any order */
void h_filter2d(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), ch = (int)sx_param("ch", 1), kr = (int)sx_param("kr", 3), kc = (int)sx_param("kc", 3), bt = BT[sx_choose("bt", 0, 3)], sk = (int)sx_param("symk", 0); unsigned seed = (unsigned)sx_param("seed", 1); simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", R, C, 4, ch); long n = (long)R * C * ch; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 5); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); float *K = (float *)malloc(4 * kr * kc); int *ki = (int *)malloc(4 * kr * kc);
  for (int i = 0; i < kr * kc; i++) { ki[i] = sk ? (int)sx_range("k", -8, 7) : (int)(lcg(&seed) % 41) - 20; K[i] = (float)ki[i]; } void *kd = dup_bytes(K, 4 * kr * kc); int q = (int)sx_param("quarter", 0); if (q) for (int i = 0; i < kr * kc; i++) K[i] *= 0.25f; if (q) { free(kd); kd = dup_bytes(K, 4 * kr * kc); } long h0 = sx_live_heap();
  hypercv_filter2D(m, t, K, kr, kc, bt); float *g = (float *)t->data; int ok = 1; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { int s = 0; for (int a = 0; a < kr; a++) for (int b = 0; b < kc; b++) s += ki[a * kc + b] * at2(d, R, C, ch, i + a - kr / 2, j + b - kc / 2, x, bt); float w = q ? s * 0.25f : (float)s; ok &= g[((long)i * C + j) * ch + x] == w; }
  sx_assert(ok, "the sum of the kernel's coefficients times the neighbouring pixels"); check_img(t, R, C, 4, ch); check_bytes(m->data, d, n, "source unchanged"); check_bytes(K, kd, 4 * kr * kc, "kernel unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", (long)g[0]); free_img(m); free_img(t);
}
/* arbitrary real coefficients, one pixel arbitrary */
void h_filter2d_real(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 4), ch = (int)sx_param("ch", 1), kr = (int)sx_param("kr", 3), kc = (int)sx_param("kc", 3), bt = BT[sx_param("bt", 0)]; unsigned seed = (unsigned)sx_param("seed", 1); simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", R, C, 4, ch); long n = (long)R * C * ch; unsigned char *p = (unsigned char *)m->data; long at = sx_choose("at", 0, n - 1); for (long i = 0; i < n; i++) if (i != at) p[i] = (unsigned char)lcg(&seed); float *K = (float *)malloc(4 * kr * kc); for (int i = 0; i < kr * kc; i++) K[i] = (float)((int)(lcg(&seed) % 2001) - 1000) / 777.0f;
  hypercv_filter2D(m, t, K, kr, kc, bt); float *g = (float *)t->data; int ok = 1; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { double s = 0; for (int a = 0; a < kr; a++) for (int b = 0; b < kc; b++) s += (double)K[a * kc + b] * at2(p, R, C, ch, i + a - kr / 2, j + b - kc / 2, x, bt); double e = g[((long)i * C + j) * ch + x] - s; ok &= (e < 0.01) & (e > -0.01); } sx_assert(ok, "the sum of the kernel's coefficients times the neighbouring pixels"); sx_observe("v", (long)g[0]);
}
void h_median(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), z = (int)sx_param("size", 3), own = 0; simple_mat m = sym_img("px", R, C, 1, 1), t = sym_img("old", R, C, 1, 1); long n = (long)R * C; free_px((unsigned char *)m->data, n, (int)sx_param("free", 4), (unsigned)sx_param("seed", 1)); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); long h0 = sx_live_heap(); hypercv_medianblur(m, t, z); unsigned char *g = (unsigned char *)t->data; int h = z / 2, ok = 1, okc = 1;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int v = g[i * C + j]; if (i < h || j < h || i + h >= R || j + h >= C) { okc &= v == d[i * C + j]; continue; } int lt = 0, le = 0; for (int a = -h; a <= h; a++) for (int b = -h; b <= h; b++) { int q = d[(i + a) * C + j + b]; lt += q < v; le += q <= v; } ok &= (lt <= z * z / 2) & (le > z * z / 2); }
  sx_assert(ok, "the median of the window"); sx_assert(okc, "pixels whose window leaves the image are copied"); check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[n / 2]); free_img(m); free_img(t);
}
void h_mean(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), z = (int)sx_choose("size", sx_param("lo", 1), sx_param("hi", 4)); simple_mat m = sym_img("px", R, C, 1, 1), t = sym_img("old", R, C, 1, 1); long n = (long)R * C; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 3); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); long h0 = sx_live_heap(); hypercv_meanblur(m, t, z); unsigned char *g = (unsigned char *)t->data; int h = z / 2, ok = 1;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int s = 0, k = 0; for (int a = i - h; a < i - h + z; a++) for (int b = j - h; b < j - h + z; b++) if (a >= 0 && a < R && b >= 0 && b < C) { s += d[a * C + b]; k++; } int v = g[i * C + j]; ok &= (v * k <= s) & (s < v * k + k); if (n > 50) sx_assert(ok, "the whole part of the mean of the window inside the image"); }
  sx_assert(ok, "the whole part of the mean of the window inside the image"); check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]); free_img(m); free_img(t);
}
static const double SG[] = {0, -1, 0.3, 0.8, 1, 1.7, 2.5, 6, 40, -3};
static void ref_gauss(int n, double s, double *w) {
  static const int T[4][7] = {{1}, {1, 2, 1}, {1, 4, 6, 4, 1}, {2, 7, 14, 18, 14, 7, 2}}; static const int D[4] = {1, 4, 16, 64}; if (s <= 0 && n % 2 && n <= 7) { for (int i = 0; i < n; i++) w[i] = (double)T[n / 2][i] / D[n / 2]; return; }
  double g = s > 0 ? s : ((n - 1) * 0.5 - 1) * 0.3 + 0.8, t = 0; for (int i = 0; i < n; i++) { double x = i - (n - 1) * 0.5; w[i] = exp(-x * x / (2 * g * g)); t += w[i]; } for (int i = 0; i < n; i++) w[i] /= t;
}
void h_gkernel(void) {
  int n = (int)sx_choose("n", 1, sx_param("max", 15)), kt = 4 + (int)sx_choose("type", 0, 1); double s = SG[sx_choose("sigma", 0, 9)], w[64], sum = 0; ref_gauss(n, s, w); long h0 = sx_live_heap(); simple_mat k = gaussian_kernel(n, s, kt); check_img(k, 1, n, kt, 1); double tol = kt == 4 ? 2e-6 : 1e-12;
  for (int i = 0; i < n; i++) { double v = px(k->data, kt, i), u = px(k->data, kt, n - 1 - i), e = v - w[i]; sum += v; sx_assert(v >= 0, "weights are not negative"); sx_assert(v == u, "the kernel is symmetric"); sx_assert((e <= tol) & (e >= -tol), "the Gaussian's weights"); } sx_assert((sum - 1 <= n * tol) & (1 - sum <= n * tol), "the weights sum to one"); sx_observe("k0", (long)(px(k->data, kt, 0) * 1e6)); delete_simple_mat(k); sx_assert(sx_live_heap() == h0, "nothing retained");
}
void h_gkernel_bad(void) { int w = (int)sx_param("which", 0), n = 3, t = 4; if (w) { t = sx_int("type"); sx_assume(t != 4 && t != 5); } else { n = sx_int("n"); sx_assume(n <= 0); } REJECTS(gaussian_kernel(n, 1.0, t), "empty kernels and other types are refused"); }
/* default kernels: every weight is a multiple of 1/64, so the result is exact */
void h_gauss(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), ch = (int)sx_param("ch", 1), kw = (int)sx_param("kw", 3), kh = (int)sx_param("kh", 3), bt = BT[sx_choose("bt", 0, 3)], own = (int)sx_param("own", 0); static const int T[4][7] = {{1}, {1, 2, 1}, {1, 4, 6, 4, 1}, {2, 7, 14, 18, 14, 7, 2}}; static const int D[4] = {1, 4, 16, 64}; simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", R, C, 1, ch); long n = (long)R * C * ch; unsigned char *d = (unsigned char *)dup_bytes(m->data, n); free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 3); memcpy(d, m->data, n); if (own) { free_img(t); t = m; } long h0 = sx_live_heap();
  int den = D[kw / 2] * D[kh / 2], ok = 1; hypercv_gaussian_blur(m, t, kw, kh, own ? -1.0 : 0.0, 0, bt); unsigned char *g = (unsigned char *)t->data; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { int s = 0; for (int a = 0; a < kh; a++) for (int b = 0; b < kw; b++) s += T[kh / 2][a] * T[kw / 2][b] * at2(d, R, C, ch, i + a - kh / 2, j + b - kw / 2, x, bt); int v = g[((long)i * C + j) * ch + x]; ok = (v == (int)rint((double)s / den)) | (2 * v * den - 2 * s == den) | (2 * s - 2 * v * den == den); sx_assert(ok, "the Gaussian-weighted mean of the neighbourhood, to the nearest grey level"); }
  if (!own) check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]); free_img(m); if (!own) free_img(t);
}
/* any spread: one pixel arbitrary */
void h_gauss_sigma(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 4), ch = (int)sx_param("ch", 1), kw = (int)sx_param("kw", 3), kh = (int)sx_param("kh", 3), bt = BT[sx_param("bt", 0)]; double s1 = SG[sx_param("s1", 4)], s2 = SG[sx_param("s2", 5)], wx[64], wy[64]; unsigned seed = (unsigned)sx_param("seed", 1); simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", R, C, 1, ch); long n = (long)R * C * ch; unsigned char *p = (unsigned char *)m->data; long k = sx_param("spots", 4), at = sx_choose("at", 0, k - 1) * (n - 1) / (k - 1); int flat = (int)sx_param("flat", 0); for (long i = 0; i < n; i++) { if (flat) p[i] = p[i % ch]; else if (i != at) p[i] = (unsigned char)lcg(&seed); }
  ref_gauss(kw, s1, wx); ref_gauss(kh, s2 <= 0 ? s1 : s2, wy); unsigned char *d = (unsigned char *)dup_bytes(p, n); hypercv_gaussian_blur(m, t, kw, kh, s1, s2, bt); unsigned char *g = (unsigned char *)t->data; int ok = 1; if (flat) { for (long i = 0; i < n; i++) ok &= g[i] == d[i]; } else for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { double s = 0; for (int a = 0; a < kh; a++) for (int b = 0; b < kw; b++) s += wy[a] * wx[b] * at2(d, R, C, ch, i + a - kh / 2, j + b - kw / 2, x, bt); double e = g[((long)i * C + j) * ch + x] - s; ok &= (e <= 0.501) & (e >= -0.501); }
  sx_assert(ok, flat ? "a constant image stays as it is" : "the Gaussian-weighted mean of the neighbourhood, to the nearest grey level"); check_bytes(m->data, d, n, "source unchanged"); sx_observe("v", g[0]); free_img(m); free_img(t);
}
/* caller-supplied kernels, also with negative weights or even length: each pass is clamped to 0..255 */
void h_gauss_kernel(void) {
  static const int KX[][5] = {{1, 2, 1, 0, 0}, {-2, 8, -2, 0, 0}, {4, 0, 0, 0, 0}, {2, 2, 0, 0, 0}, {1, 1, 1, 1, 0}, {8, 0, 0, 0, 0}, {-1, 1, 4, 1, -1}}; static const int KL[] = {3, 3, 1, 2, 4, 1, 5}; int a = (int)sx_param("kx", 0), b = (int)sx_param("ky", 1), R = (int)sx_param("r", 2), C = (int)sx_param("c", 2), ch = (int)sx_param("ch", 1), bt = BT[sx_param("bt", 0)]; simple_mat kx = raw_img(1, KL[a], 4, 1), ky = raw_img(1, KL[b], 4, 1); for (int i = 0; i < KL[a]; i++) ((float *)kx->data)[i] = KX[a][i] * 0.25f; for (int i = 0; i < KL[b]; i++) ((float *)ky->data)[i] = KX[b][i] * 0.25f;
  simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", R, C, 1, ch); long n = (long)R * C * ch; free_px((unsigned char *)m->data, n, (int)sx_param("free", 4), 7); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); int *q = (int *)malloc(4 * n), ok = 1; sx_merge(1);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { int s = 0; for (int y = 0; y < KL[a]; y++) s += KX[a][y] * at2(d, R, C, ch, i, j + y - KL[a] / 2, x, bt); s = s < 0 ? 0 : s; s = s > 1020 ? 1020 : s; q[((long)i * C + j) * ch + x] = s; }
  long h0 = sx_live_heap(); hypercv_gaussian_blur_with_kernel(m, t, kx, ky, bt); unsigned char *g = (unsigned char *)t->data; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int x = 0; x < ch; x++) { int s = 0; for (int y = 0; y < KL[b]; y++) s += KX[b][y] * q[((long)ref_border(i + y - KL[b] / 2, R, bt) * C + j) * ch + x]; s = s < 0 ? 0 : s; s = s > 4080 ? 4080 : s; int v = g[((long)i * C + j) * ch + x]; ok = (v == (int)rint(s / 16.0)) | (32 * v - 2 * s == 16) | (2 * s - 32 * v == 16); sx_assert(ok, "the rows filtered with one kernel, then the columns with the other"); }
  check_bytes(m->data, d, n, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]); free_img(m); free_img(t); free_img(kx); free_img(ky);
}
void h_gauss_bad(void) {
  int w = (int)sx_param("which", 0), kw = 3, kh = 3, bt = 1, ch = 1; if (w == 0) { kw = sx_int("size"); sx_assume(kw <= 0 || kw % 2 == 0); } if (w == 1) { kh = sx_int("size"); sx_assume(kh <= 0 || kh % 2 == 0); } if (w == 2) { bt = sx_int("bt"); sx_assume(bt < 0 || bt > 4); } if (w == 3) ch = 2; if (w == 4) ch = 4; simple_mat m = sym_img("px", 2, 2, 1, ch), t = sym_img("old", 2, 2, 1, ch); REJECTS(hypercv_gaussian_blur(m, t, kw, kh, 1.0, 1.0, bt), "even or empty windows, unknown borders and other channel counts are refused");
}
void h_filter_bad(void) { int w = (int)sx_param("which", 0); simple_mat m = sym_img("px", 2, 2, 1, 1), t; float K[9] = {0}; sx_exit_mode(1); if (w == 0) { int dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); t = raw_img(2, 2, dt, 1); hypercv_filter2D(m, t, K, 3, 3, 1); } if (w == 1) { t = raw_img(2, 2, 4, 1); hypercv_filter2D(m, t, NULL, 3, 3, 1); } if (w == 2) { int z = sx_int("size"); sx_assume(z % 2 == 0); t = raw_img(2, 2, 1, 1); hypercv_medianblur(m, t, z); } if (w == 3) { int bt = sx_int("bt"); sx_assume(bt < 0 || bt > 4); t = raw_img(2, 2, 4, 1); hypercv_filter2D(m, t, K, 3, 3, bt); } sx_assert(0, "arguments outside the contract are refused"); }
void h_integral(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3); simple_mat m = sym_img("px", R, C, 1, 1), t = sym_img("old", R, C, 3, 1); long n = (long)R * C; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 5); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); long h0 = sx_live_heap(); hypercv_integral(m, t); int *g = (int *)t->data, ok = 1, bigi = (long)R * C > 400; for (int i = 0; i < (bigi ? 0 : R); i++) for (int j = 0; j < C; j++) { int s = 0; for (int a = 0; a <= i; a++) for (int b = 0; b <= j; b++) s += d[a * C + b]; ok &= g[i * C + j] == s; } if (bigi) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int e = g[i * C + j] - (i ? g[(i - 1) * C + j] : 0) - (j ? g[i * C + j - 1] : 0) + (i && j ? g[(i - 1) * C + j - 1] : 0); sx_assert(e == d[i * C + j], "the sum of all pixels above and to the left"); } sx_assert(ok, "the sum of all pixels above and to the left"); check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 3, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[n - 1]); free_img(m); free_img(t);
}
void h_integral_bad(void) { int w = (int)sx_param("which", 0), sd = 1, sc = 1, dd = 3, dc = 1; if (w == 0) { sd = DTS[sx_choose("dt", 0, 8)]; sx_assume(sd != 1); } if (w == 1) sc = (int)sx_choose("ch", 2, 4); if (w == 2) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 3); } if (w == 3) dc = (int)sx_choose("ch", 2, 4); simple_mat m = sym_img("px", 2, 2, sd, sc), t = sym_img("old", 2, 2, dd, dc); REJECTS(hypercv_integral(m, t), "other types and channel counts are refused"); }
/* ---- P08 ---- */
void h_lap(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), k = (int)sx_choose("ksize", 1, 3), bt = BT[sx_choose("bt", 0, 3)]; simple_mat m = sym_img("px", R, C, 1, 1), t = sym_img("old", R, C, 1, 1); long n = (long)R * C; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 5); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); int ok = 1; long h0 = sx_live_heap(); sx_merge(1); hypercv_laplacian(m, t, k, bt); unsigned char *g = (unsigned char *)t->data;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int s = at2(d, R, C, 1, i - 1, j, 0, bt) + at2(d, R, C, 1, i + 1, j, 0, bt) + at2(d, R, C, 1, i, j - 1, 0, bt) + at2(d, R, C, 1, i, j + 1, 0, bt) - 4 * d[i * C + j], v = g[i * C + j]; if (k == 2) s *= 2; ok &= ((s <= 0) & (v == 0)) | ((s >= 255) & (v == 255)) | (v == s); } sx_assert(ok, "the second differences, limited to 0..255"); check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]); free_img(m); free_img(t);
}
void h_sobel(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), bt = BT[sx_choose("bt", 0, 3)], th = sx_int("threshold"); simple_mat m = sym_img("px", R, C, 1, 1), t = sym_img("old", R, C, 1, 1); long n = (long)R * C; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 5); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); int ok = 1; long h0 = sx_live_heap(); sx_merge(1); hypercv_sobel(m, t, th, bt); unsigned char *g = (unsigned char *)t->data;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int q[3][3]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) q[a][b] = at2(d, R, C, 1, i + a - 1, j + b - 1, 0, bt); int x = q[0][2] + 2 * q[1][2] + q[2][2] - q[0][0] - 2 * q[1][0] - q[2][0], y = q[0][0] + 2 * q[0][1] + q[0][2] - q[2][0] - 2 * q[2][1] - q[2][2], e = (abs(x) > th) | (abs(y) > th), v = g[i * C + j]; ok = ((v == 255) & e) | ((v == 0) & !e); sx_assert(ok, "white exactly where a gradient exceeds the threshold"); } check_bytes(m->data, d, n, "source unchanged"); check_img(t, R, C, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]); free_img(m); free_img(t);
}
void h_grad_bad(void) { int w = (int)sx_param("which", 0), r = 2, c = 2, ch = 1, bt = 1, k = 1; if (w == 0) r = 3; if (w == 1) c = 3; if (w == 2) ch = (int)sx_choose("ch", 2, 4); if (w == 3 || w == 5) { bt = sx_int("bt"); sx_assume(bt < 0 || bt > 4); } if (w == 4) { k = sx_int("ksize"); sx_assume(k <= 0); } simple_mat m = sym_img("px", 2, 2, 1, ch), t = sym_img("old", r, c, 1, ch); sx_exit_mode(1); if (w < 4) hypercv_sobel(m, t, 10, bt); else hypercv_laplacian(m, t, k, bt); sx_assert(0, "other shapes, channels, borders and kernel sizes are refused"); }
/* ---- P16: image pyramid ---- */
static const int W5[5] = {1, 4, 6, 4, 1};
static int nearest(int v, int s, int den) { return (v == (int)rint((double)s / den)) | (2 * v * den - 2 * s == den) | (2 * s - 2 * v * den == den); }
void h_pyr_down(void) {
  int R = (int)sx_param("r", 3), C = (int)sx_param("c", 3), ch = (int)sx_param("ch", 1), r = (R + 1) / 2, c = (C + 1) / 2; simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", r, c, 1, ch); long n = (long)R * C * ch; free_px((unsigned char *)m->data, n, (int)sx_param("free", 0), 3); unsigned char *d = (unsigned char *)dup_bytes(m->data, n); long h0 = sx_live_heap(); hypercv_pyramid_down(m, t); unsigned char *g = (unsigned char *)t->data;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int x = 0; x < ch; x++) { int s = 0; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) s += W5[a] * W5[b] * at2(d, R, C, ch, 2 * i + a - 2, 2 * j + b - 2, x, BORDER_REPLICATE); sx_assert(nearest(g[((long)i * c + j) * ch + x], s, 256), "every second pixel of the smoothed image"); }
  check_bytes(m->data, d, n, "source unchanged"); check_img(m, R, C, 1, ch); check_img(t, r, c, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]);
}
/* samples of the doubled grid: even positions hold the source, odd ones zero; mirrored without repeating the edge */
static int mir(int p, int len) { return p < 0 ? -p : p >= len ? 2 * len - 2 - p : p; }
void h_pyr_up(void) {
  int R = (int)sx_param("r", 2), C = (int)sx_param("c", 2), ch = (int)sx_param("ch", 1), flat = (int)sx_param("flat", 0), r = 2 * R, c = 2 * C; simple_mat m = sym_img("px", R, C, 1, ch), t = sym_img("old", r, c, 1, ch); long n = (long)R * C * ch; unsigned char *p = (unsigned char *)m->data; free_px(p, n, (int)sx_param("free", 0), 3); if (flat) for (long i = ch; i < n; i++) p[i] = p[i % ch]; unsigned char *d = (unsigned char *)dup_bytes(p, n); long h0 = sx_live_heap(); hypercv_pyramid_up(m, t); unsigned char *g = (unsigned char *)t->data;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int x = 0; x < ch; x++) { int v = g[((long)i * c + j) * ch + x]; if (flat) { sx_assert(v == d[x], "an image of one colour keeps it"); continue; } int s = 0; for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) { int y = mir(i + a - 2, r), z = mir(j + b - 2, c); if (y % 2 == 0 && z % 2 == 0) s += W5[a] * W5[b] * d[((long)(y / 2) * C + z / 2) * ch + x]; } sx_assert(nearest(v, s, 64), "the interpolated pixel"); }
  check_bytes(p, d, n, "source unchanged"); check_img(m, R, C, 1, ch); check_img(t, r, c, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("v", g[0]);
}
void h_pyr_bad(void) {
  int up = (int)sx_param("up", 0), w = (int)sx_param("which", 0), R = 3, C = 4, ch = 1, dt = 1; if (w == 0) R = 1; if (w == 1) C = 1; int r = up ? 2 * R : (R + 1) / 2, c = up ? 2 * C : (C + 1) / 2, dc = 1, dd = 1; if (w == 2) { int k = (int)sx_choose("r", 1, 8); sx_assume(k != r); r = k; } if (w == 3) { int k = (int)sx_choose("c", 1, 9); sx_assume(k != c); c = k; } if (w == 4) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 1); } if (w == 5) { dt = dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 1); } if (w == 6) dc = 3; if (w == 7) ch = 3; if (w == 8) ch = dc = 2; simple_mat m = sym_img("px", R, C, dt, ch), t = sym_img("old", r, c, dd, dc); if (w == 9) m = NULL; if (w == 10) t = NULL; if (up) { REJECTS(hypercv_pyramid_up(m, t), "other sizes, types and channels and missing images are refused"); } REJECTS(hypercv_pyramid_down(m, t), "other sizes, types and channels and missing images are refused");
}
