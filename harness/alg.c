#include "hm.h"
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
static int near(double a, double b, double tol) { double e = a - b; return (e <= tol) & (e >= -tol); }
static unsigned fb(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
/* bytes from a seed, `free` of them (at places from the seed) arbitrary in lo..hi */
static void bytes(unsigned char *p, long n, unsigned seed, int free_, int lo, int hi) { unsigned at = seed * 7 + 3; int skew = (int)sx_param("skew", 0); for (long i = 0; i < n; i++) { unsigned q = lcg(&seed); p[i] = (unsigned char)(skew && q % 16 ? skew - (q >> 8) % 2 : q); } for (int i = 0; i < free_; i++) { p[at % n] = (unsigned char)sx_range("px", lo, hi); at += n > 2 ? n / 2 + 1 - (n % 4 == 0) : 1; } }
/* ---- A01: equalisation and stretching ---- */
void h_equalise(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), own = (int)sx_param("own", 0), fr = (int)sx_param("free", r * c), hi = (int)sx_param("hi", 255); simple_mat m = raw_img(r, c, 1, 1), t = own ? m : sym_img("old", r, c, 1, 1); long n = r * c; unsigned char *x = (unsigned char *)m->data; bytes(x, n, (unsigned)sx_param("seed", 1), fr, sx_param("lo", 0), hi); unsigned char *d = (unsigned char *)dup_bytes(x, n); sx_merge(1); long h0 = sx_live_heap(); HisEqualization(m, t);
  unsigned char *g = (unsigned char *)t->data; for (long i = 0; i < n; i += n > 1000 && i > 8 ? n / 40 : 1) { int k = 0; for (long j = 0; j < n; j++) k += d[j] <= d[i]; sx_assert(g[i] == (long)k * 255 / n, "255 times the share of pixels not brighter"); } if (!own) check_bytes(x, d, n, "source unchanged"); check_img(t, r, c, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", g[0]);
}
void h_equalise_bad(void) { int w = (int)sx_param("which", 0), r = 2, c = 3; if (w == 0) { r = (int)sx_choose("r", 1, 4); sx_assume(r != 2); } if (w == 1) { c = (int)sx_choose("c", 1, 4); sx_assume(c != 3); } if (w == 2) { r = 3; c = 2; } simple_mat m = sym_img("px", 2, 3, 1, 1), t = sym_img("old", r, c, 1, 1); REJECTS(HisEqualization(w == 3 ? NULL : m, w == 4 ? NULL : t), "other shapes and missing images are refused"); }
/* one arbitrary value per band between (or beyond) fixed ones */
static int stretched(double v, double lo, double hi, int g, double tol) { double q = (v - lo) * 255 / (hi > lo ? hi - lo : 1); int a = (int)floor(q - tol), b = (int)floor(q + tol), z = v == 0 ? 0 : 1; a = a <= 0 ? z : a >= 255 ? 255 : a; b = b <= 0 ? z : b >= 255 ? 255 : b; return (g == a) | (g == b); }
void h_stretch(void) {
  int s = (int)sx_param("s", 2), l = (int)sx_param("l", 2), b = (int)sx_param("b", 2), frac = (int)sx_param("frac", 0), lo = (int)sx_param("lo", 0), hi = (int)sx_param("hi", 2000), off = (int)sx_param("off", 0), spread = (int)sx_param("spread", 1000); unsigned sd = (unsigned)sx_param("seed", 1); hyper_mat m = raw_cube(s, l, b, 4, "bsq"), t = sym_cube("old", s, l, b, 1, "bsq"); float *x = (float *)m->data; long n = (long)s * l; for (long i = 0; i < n * b; i++) { int k = off + (int)(lcg(&sd) % spread); x[i] = frac ? k * 0.25f : (float)k; } for (int k = 0; k < b; k++) { long at = k * n + lcg(&sd) % n; long v = sx_range("v", lo, hi); x[at] = frac ? (float)v * 0.25f : (float)v; } for (long i = 0; i < n * b; i++) x[i] *= (float)pow2of("scale2"); for (int k = 0; k < b; k++) m->wavelength[k] = (float)k;
  float *d = (float *)dup_bytes(x, 4 * n * b); void *wv = dup_bytes(t->wavelength, 4 * b); long h0 = sx_live_heap(); hyper_mat_linear_tension(m, t); unsigned char *g = (unsigned char *)t->data; for (int k = 0; k < b; k++) { float mn = d[k * n], mx = mn; for (long i = 0; i < n; i++) { if (d[k * n + i] < mn) mn = d[k * n + i]; if (d[k * n + i] > mx) mx = d[k * n + i]; } for (long i = 0; i < n; i++) sx_assert(stretched(d[k * n + i], mn, mx, g[k * n + i], 1e-3), "the band's range stretched to 0..255"); }
  check_bytes(x, d, 4 * n * b, "source unchanged"); check_bytes(t->wavelength, wv, 4 * b, "wavelengths of the result untouched"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", g[0]);
}
void h_stretch_bad(void) { int w = (int)sx_param("which", 0), dt = 4, dd = 1, il = 0, s = 2, l = 3, b = 2; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); } if (w == 1) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 1); } if (w == 2) il = (int)sx_choose("il", 1, 2); if (w == 3) s = 3; if (w == 4) l = 2; if (w == 5) b = 1; if (w == 6) { s = 3; l = 2; } hyper_mat m = sym_cube("px", 2, 3, 2, dt, ILS[il]), t = sym_cube("old", s, l, b, dd, "bsq"); REJECTS(hyper_mat_linear_tension(m, t), "other types, layouts and shapes are refused"); }
/* ---- A02: normalisation ---- */
static const int NT[] = {NORM_L1, NORM_L2, NORM_INF, NORM_MINMAX}; static const float AL[] = {1, 255, 100, 3.5f, 1000, 0, 255, 10, 20}, BE[] = {0, 0, 0, 0, 0, 255, 20, 10, -5};
void h_norm8(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), ch = (int)sx_param("ch", 1), ty = NT[sx_param("type", 0)], k = (int)sx_param("k", 1), own = (int)sx_param("own", 0); long n = (long)r * c * ch; simple_mat m = raw_img(r, c, 1, ch), t = own ? m : sym_img("old", r, c, 1, ch); unsigned char *x = (unsigned char *)m->data; bytes(x, n, (unsigned)sx_param("seed", 1), (int)sx_param("free", 1), sx_param("lo", 0), sx_param("hi", 255)); if (sx_param("dim", 0)) for (long i = 0; i < n; i++) x[i] = x[i] % 16; unsigned char *d = (unsigned char *)dup_bytes(x, n); int mx = d[0], mn = d[0]; long s1 = 0, s2 = 0; sx_merge(1); for (long i = 0; i < n; i++) { mx = d[i] > mx ? d[i] : mx; mn = d[i] < mn ? d[i] : mn; s1 += d[i]; s2 += d[i] * d[i]; } sx_assume(ty == NORM_MINMAX ? mx > mn : s1 > 0);
  long h0 = sx_live_heap(); hypercv_normalize(m, t, AL[k], BE[k], ty); sx_merge(0); unsigned char *g = (unsigned char *)t->data; double a = AL[k] < BE[k] ? AL[k] : BE[k], b = AL[k] < BE[k] ? BE[k] : AL[k]; long st = sx_param("step", 1); for (long i = 0; i < n; i++) { if (i % st && i != n - 1) continue; double v = ty == NORM_L1 ? d[i] * (double)AL[k] / s1 : ty == NORM_L2 ? d[i] * (double)AL[k] / sqrt((double)s2) : ty == NORM_INF ? d[i] * (double)AL[k] / mx : (d[i] - mn) * (b - a) / (mx - mn) + a; v = v > 255 ? 255 : v < 0 ? 0 : v; sx_assert(near(g[i], v, 0.5001), "the normalised value, rounded and limited"); }
  if (!own) check_bytes(x, d, n, "source unchanged"); check_img(t, r, c, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", g[0]);
}
void h_normf(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), ch = (int)sx_param("ch", 1), ty = NT[sx_param("type", 0)], k = (int)sx_param("k", 1), own = (int)sx_param("own", 0), lo = (int)sx_param("lo", -1000), hi = (int)sx_param("hi", 1000); unsigned sd = (unsigned)sx_param("seed", 1); long n = (long)r * c * ch; simple_mat m = raw_img(r, c, 4, ch), t = own ? m : sym_img("old", r, c, 4, ch); float *x = (float *)m->data; for (long i = 0; i < n; i++) x[i] = (float)((int)(lcg(&sd) % 4000) - 2000) * 0.25f; if (sx_param("positive", 0)) for (long i = 0; i < n; i++) x[i] = x[i] < 0 ? -x[i] : x[i]; if (sx_param("negative", 0)) for (long i = 0; i < n; i++) x[i] = -500 - x[i]; x[lcg(&sd) % n] = (float)sx_range("v", lo, hi); for (long i = 0; i < n; i++) x[i] *= (float)pow2of("scale2"); float *d = (float *)dup_bytes(x, 4 * n);
  double mx = d[0], mn = d[0], s1 = 0, s2 = 0, si = 0; sx_merge(1); for (long i = 0; i < n; i++) { double v = d[i], w = v < 0 ? -v : v; mx = v > mx ? v : mx; mn = v < mn ? v : mn; s1 += w; s2 += v * v; si = w > si ? w : si; } sx_assume(ty == NORM_MINMAX ? mx > mn : s1 > 0); long h0 = sx_live_heap(); hypercv_normalize(m, t, AL[k], BE[k], ty); sx_merge(0); float *g = (float *)t->data; double a = AL[k] < BE[k] ? AL[k] : BE[k], b = AL[k] < BE[k] ? BE[k] : AL[k]; long st = sx_param("step", 1); for (long i = 0; i < n; i++) { if (i % st && i != n - 1) continue; double v = ty == NORM_L1 ? d[i] * (double)AL[k] / s1 : ty == NORM_L2 ? d[i] * (double)AL[k] / sqrt(s2) : ty == NORM_INF ? d[i] * (double)AL[k] / si : (d[i] - mn) * (b - a) / (mx - mn) + a; sx_assert(near(g[i], v, 1e-4 + 1e-5 * (AL[k] < 0 ? -AL[k] : AL[k])), "the normalised value"); }
  if (!own) check_bytes(x, d, 4 * n, "source unchanged"); check_img(t, r, c, 4, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)(g[0] * 1000));
}
void h_norm_bad(void) { int w = (int)sx_param("which", 0), f = (int)sx_param("f", 0), r = 2, c = 3, ch = 1, sd = f == 2 ? 4 : 1, dd = sd; if (w == 0) { r = (int)sx_choose("r", 1, 4); sx_assume(r != 2); } if (w == 1) { c = (int)sx_choose("c", 1, 4); sx_assume(c != 3); } if (w == 2) { ch = 3; } if (w == 3) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != sd); } if (w == 4) { r = 3; c = 2; } simple_mat m = sym_img("px", 2, 3, sd, 1), t = sym_img("old", r, c, dd, ch); if (w == 5) m = NULL; if (w == 6) t = NULL; sx_exit_mode(1); int ty = NT[sx_choose("ty", 0, 3)]; if (f == 0) hypercv_normalize(m, t, 1, 0, ty); else if (f == 1) hypercv_normalize_uchar(m, t, 1, 0, ty); else hypercv_normalize_float(m, t, 1, 0, ty); sx_assert(0, "other shapes, types and missing images are refused"); }
/* ---- A03: Fourier transform ---- */
static simple_mat pic(int r, int c, int dt) { simple_mat m = raw_img(r, c, dt, 1); unsigned sd = (unsigned)sx_param("seed", 1); long n = (long)r * c; int fr = (int)sx_param("free", 1); for (long i = 0; i < n; i++) { unsigned v = lcg(&sd); if (dt == 1) ((unsigned char *)m->data)[i] = (unsigned char)v; else ((unsigned short *)m->data)[i] = (unsigned short)v; } unsigned at = lcg(&sd); for (int i = 0; i < fr; i++, at++) { long v = sx_range("px", sx_param("lo", 0), sx_param("hi", 255)); if (dt == 1) ((unsigned char *)m->data)[at % n] = (unsigned char)v; else ((unsigned short *)m->data)[at % n] = (unsigned short)v; } return m; }
static double at(simple_mat m, const void *d, long i) { return m->data_type == 1 ? ((const unsigned char *)d)[i] : ((const unsigned short *)d)[i]; }
static void dft_at(simple_mat m, const void *d, int u, int v, double shift, double *re, double *im) { int R = m->rows, C = m->cols; double a = 0, b = 0; for (int x = 0; x < R; x++) for (int y = 0; y < C; y++) { double ph = 2 * M_PI * ((double)((u * x) % R) / R + (double)((v * y) % C) / C), w = at(m, d, x * C + y); if (shift != 0 && ((x + y) & 1)) w = -w; a += w * cos(ph); b -= w * sin(ph); } *re = a; *im = b; }
void h_dft(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 3), dt = (int)sx_param("dt", 1), how = (int)sx_param("how", 0); simple_mat m = pic(r, c, dt), re = sym_img("oldre", r, c, 4, 1), im = sym_img("oldim", r, c, 4, 1); void *d = dup_bytes(m->data, (long)r * c * esz(dt)); long h0 = sx_live_heap(); hypercv_dft(m, re, im); double tol = (dt == 1 ? 255.0 : 65535.0) * r * c * 3e-6; float *a = (float *)re->data, *b = (float *)im->data; for (int u = 0; u < r; u++) for (int v = 0; v < c; v++) { double x, y; dft_at(m, d, u, v, 0, &x, &y); sx_assert(near(a[u * c + v], x, tol), "the real part"); sx_assert(near(b[u * c + v], y, tol), "the imaginary part"); }
  if (how) { simple_mat t = sym_img("old", r, c, dt, 1); long h1 = sx_live_heap(); hypercv_idft(re, im, t); for (long i = 0; i < (long)r * c; i++) sx_assert(at(t, t->data, i) == at(m, d, i), "the inverse transform restores the image"); sx_assert(sx_live_heap() == h1, "nothing retained by the inverse"); }
  check_bytes(m->data, d, (long)r * c * esz(dt), "source unchanged"); check_img(re, r, c, 4, 1); check_img(im, r, c, 4, 1); if (!how) sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("a", (long)a[0]);
}
/* inverse of an arbitrary spectrum: limited to the element type */
void h_idft(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 3), dt = (int)sx_param("dt", 1), sc = (int)sx_param("scale", 100); unsigned sd = (unsigned)sx_param("seed", 1); simple_mat re = raw_img(r, c, 4, 1), im = raw_img(r, c, 4, 1), t = sym_img("old", r, c, dt, 1); long n = (long)r * c; float *a = (float *)re->data, *b = (float *)im->data; for (long i = 0; i < n; i++) { a[i] = (float)((int)(lcg(&sd) % 2000) - 1000) * 0.01f * sc; b[i] = (float)((int)(lcg(&sd) % 2000) - 1000) * 0.01f * sc; } if (sx_param("imag", 0)) b[lcg(&sd) % n] = (float)sx_range("v", -1000, 1000) * 0.75f * sc; else a[lcg(&sd) % n] = (float)sx_range("v", -1000, 1000) * 0.75f * sc; void *da = dup_bytes(a, 4 * n), *db = dup_bytes(b, 4 * n); float *oa = (float *)da, *ob = (float *)db; long h0 = sx_live_heap(); hypercv_idft(re, im, t); double top = dt == 1 ? 255 : 65535;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = 0; for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) { double ph = 2 * M_PI * ((double)((i * x) % r) / r + (double)((j * y) % c) / c); s += oa[x * c + y] * cos(ph) - ob[x * c + y] * sin(ph); } s /= n; s = s < 0 ? 0 : s > top ? top : s; sx_assert(near(at(t, t->data, i * c + j), s, 0.5 + 1e-5 * sc * n), "the inverse transform, rounded and limited"); } check_bytes(a, da, 4 * n, "real part unchanged"); check_bytes(b, db, 4 * n, "imaginary part unchanged"); check_img(t, r, c, dt, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("t", (long)at(t, t->data, 0));
}
void h_spectrum(void) { int r = (int)sx_param("r", 2), c = (int)sx_param("c", 3); simple_mat m = pic(r, c, 1), t = sym_img("old", r, c, 1, 1); void *d = dup_bytes(m->data, r * c); long h0 = sx_live_heap(); hypercv_dft_frespectrum(m, t); for (int u = 0; u < r; u++) for (int v = 0; v < c; v++) { double x, y; dft_at(m, d, u, v, 1, &x, &y); double w = sqrt(x * x + y * y) / sqrt((double)r * c); w = w > 255 ? 255 : w; sx_assert(near(((unsigned char *)t->data)[u * c + v], w, 0.501), "the centred magnitude, rounded and limited"); } check_bytes(m->data, d, r * c, "source unchanged"); check_img(t, r, c, 1, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("t", ((unsigned char *)t->data)[0]); }
void h_magnitude(void) { int r = (int)sx_param("r", 0), c = (int)sx_param("c", 0); if (!r) { r = (int)sx_choose("r", 1, 3); c = (int)sx_choose("c", 1, 3); } simple_mat a = sym_img("re", r, c, 4, 1), b = sym_img("im", r, c, 4, 1), t = sym_img("old", r, c, 4, 1); long n = r * c; thin(a->data, 4, n); thin(b->data, 4, n); float *x = (float *)dup_bytes(a->data, 4 * n), *y = (float *)dup_bytes(b->data, 4 * n); for (long i = 0; i < n; i++) sx_assume((x[i] == x[i]) & (y[i] == y[i])); long h0 = sx_live_heap(); hypercv_magnitude(a, b, t); float *g = (float *)t->data; for (long i = 0; i < n; i++) { double p = x[i], q = y[i]; sx_assert((fb(g[i]) == fb((float)sqrt(p * p + q * q))) | (fb(g[i]) == fb((float)hypot(p, q))) | (fb(g[i]) == fb((float)hypot(q, p))), "the root of the sum of squares"); } check_bytes(a->data, x, 4 * n, "real part unchanged"); check_bytes(b->data, y, 4 * n, "imaginary part unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("n", n); }
void h_magnitude_val(void) { simple_mat a = raw_img(1, 2, 4, 1), b = raw_img(1, 2, 4, 1), t = raw_img(1, 2, 4, 1); int p = (int)sx_range("re", -8, 7), q = (int)sx_range("im", -8, 7); ((float *)a->data)[0] = (float)p; ((float *)b->data)[0] = (float)q; ((float *)a->data)[1] = 3e20f; ((float *)b->data)[1] = 4e20f; hypercv_magnitude(a, b, t); float *g = (float *)t->data; sx_assert(near((double)g[0] * g[0], p * p + q * q, 1e-4), "the magnitude"); sx_assert(near(g[1] / 1e20f, 5, 1e-5), "the magnitude of large values"); sx_observe("g", (long)(g[0] * 1000)); }
void h_dft_bad(void) {
  int f = (int)sx_param("f", 0), w = (int)sx_param("which", 0), r[3] = {2, 2, 2}, c[3] = {3, 3, 3}, dt[3], ch[3] = {1, 1, 1}, k = w / 10, e = w % 10; dt[0] = f == 0 || f == 1 ? 1 : f == 2 ? 12 : 4; dt[1] = 4; dt[2] = f == 3 ? 1 : f == 4 ? 12 : 4; if (f < 3) { /* src, re, im */ } if (e == 0) r[k] = 3; if (e == 1) c[k] = 2; if (e == 2) { int n = (int)sx_choose("dt", 0, 8); sx_assume(DTS[n] != dt[k]); dt[k] = DTS[n]; } if (e == 3) ch[k] = 3; if (e == 4) { r[k] = 3; c[k] = 2; } simple_mat a = sym_img("a", r[0], c[0], dt[0], ch[0]), b = sym_img("b", r[1], c[1], dt[1], ch[1]), d = sym_img("d", r[2], c[2], dt[2], ch[2]); if (e == 5) { if (k == 0) a = NULL; if (k == 1) b = NULL; if (k == 2) d = NULL; }
  sx_exit_mode(1); if (f == 0) hypercv_dft(a, b, d); else if (f == 1) hypercv_dft_uchar(a, b, d); else if (f == 2) hypercv_dft_ushort(a, b, d); else if (f == 3) hypercv_idft_uchar(a, b, d); else if (f == 4) hypercv_idft_ushort(a, b, d); else if (f == 5) hypercv_magnitude(a, b, d); else hypercv_dft_frespectrum(a, b); sx_assert(0, "other shapes, types, channels and missing images are refused");
}
void h_optimal(void) {
  int n = sx_int("n"); long lo = sx_param("lo", 1), hi = sx_param("hi", 2125763999); sx_assume(n >= lo && n <= hi); sx_merge(0); int g = get_optimal_DFT_size(n); g = (int)sx_concretize(g); long v = g; while (v % 2 == 0 && v) v /= 2; while (v % 3 == 0 && v) v /= 3; while (v % 5 == 0 && v) v /= 5; sx_assert(v == 1, "a product of twos, threes and fives"); sx_assert(g >= n, "at least the size");
  long best = 0; for (long p5 = 1; p5 < g; p5 *= 5) for (long p3 = p5; p3 < g; p3 *= 3) { long p = p3; while (p * 2 < g) p *= 2; if (p < g && p > best) best = p; } if (hi < 14000000) sx_assert(n > best, "no smaller such product is enough"); else sx_assert(n > best - best / 20, "no much smaller such product is enough"); sx_observe("g", g);
}
void h_optimal_none(void) { int n = sx_int("n"); sx_assume(n < 0 || n > 2125764000); sx_assert(get_optimal_DFT_size(n) == -1, "no size for negative or huge lengths"); }
