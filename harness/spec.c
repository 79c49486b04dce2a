#include "hm.h"
float sp_average(float *x, int length); float sp_variance(float *x, int length); float sp_standard_deviation(float *x, int length);
static int near(double a, double b, double tol) { double e = a - b; return (e <= tol) & (e >= -tol); }
static unsigned fb(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static float *ints(const char *nm, int n, long lo, long hi, long *v) { float *x = (float *)malloc(4 * n); for (int i = 0; i < n; i++) { long t = n > 16 && nm[0] != 'x' ? (i * 7919L) % (hi - lo) + lo : n > 16 && i % 16 && sx_param("thin", 0) ? (i * 104729L) % (hi - lo) + lo : sx_range(nm, lo, hi); if (v) v[i] = t; x[i] = (float)t * (float)pow2of("scale2"); } return x; }
/* ---- statistics of a spectrum ---- */
void h_average(void) { int n = (int)sx_choose("n", sx_param("lo", 1), sx_param("hi", 8)); long v[64], s = 0; float *x = ints("x", n, -sx_param("lim", 100000), sx_param("lim", 100000), v), *d = (float *)dup_bytes(x, 4 * n); for (int i = 0; i < n; i++) s += v[i]; float g = sp_average(x, n), k = (float)pow2of("scale2"); sx_assert((g == (float)s / n * k) | (g == (float)((double)s / n * k)), "the sum divided by the length"); check_bytes(x, d, 4 * n, "spectrum unchanged"); sx_observe("g", (long)(g * 8)); }
void h_variance(void) {
  int n = (int)sx_param("n", 4), sd = (int)sx_param("sd", 0); long v[64], s = 0, q = 0, lim = sx_param("lim", 60); float *x = ints("x", n, -lim, lim, v), *d = (float *)dup_bytes(x, 4 * n); for (int i = 0; i < n; i++) { s += v[i]; }
  q = 0; for (int i = 0; i < n; i++) { long t = v[i] * n - s; q += t * t; } double w = (double)q / ((double)n * n * n) * pow2of("scale2") * pow2of("scale2"); float g = sd ? sp_standard_deviation(x, n) : sp_variance(x, n); if (sd) { float y = sp_variance(x, n); sx_assert(y == (float)w, "the mean squared deviation from the average"); sx_assert((fb(g) == fb((float)sqrt((double)y))) | (fb(g) == fb(sqrtf(y))) | (fb(g) == fb((float)sqrt(w))) | (g == (float)sqrt((double)(float)w)), "the root of the variance"); } else sx_assert(g == (float)w, "the mean squared deviation from the average"); check_bytes(x, d, 4 * n, "spectrum unchanged"); sx_observe("g", (long)(g * 8));
}
/* any length, few arbitrary entries: to float accuracy */
void h_variance_any(void) {
  int n = (int)sx_param("n", 5), sd = (int)sx_param("sd", 0), at = (int)sx_choose("at", 0, n - 1); float *x = (float *)malloc(4 * n); double s = 0, q = 0; long v = sx_range("x", -200, 200), off = sx_param("off", 0); double k = pow2of("scale2"); for (int i = 0; i < n; i++) { long t = (i == at ? v : (i * 37 + 11) % 90 - 30) + off; x[i] = (float)(t * k); s += x[i]; } s /= n; for (int i = 0; i < n; i++) q += (x[i] - s) * (x[i] - s); q /= n; float g = sd ? sp_standard_deviation(x, n) : sp_variance(x, n); double w = sd ? sqrt(q) : q; sx_assert(near(g, w, 1e-5 * w + 1e-5 * k * k + (off < 0 ? -off : off) * 4e-6 * k * k), sd ? "the standard deviation" : "the variance"); sx_observe("g", (long)(g * 8));
}
/* ---- distances and angles ---- */
void h_euclid(void) { int n = (int)sx_choose("n", sx_param("lo", 1), sx_param("hi", 6)); long a[64], b[64], s = 0; float fs = 0; long lim = sx_param("lim", 500); float *x = ints("x", n, -lim, lim, a), *y = ints("y", n, -lim, lim, b), *dx = (float *)dup_bytes(x, 4 * n), *dy = (float *)dup_bytes(y, 4 * n); for (int i = 0; i < n; i++) s += (a[i] - b[i]) * (a[i] - b[i]), fs += (x[i] - y[i]) * (x[i] - y[i]); double k2 = pow2of("scale2") * pow2of("scale2"); sx_assert(fs == (float)(s * k2), "exact sum"); float g = euclidean_distance(x, y, n); sx_assert((fb(g) == fb((float)sqrt((double)fs))) | (fb(g) == fb(sqrtf(fs))) | (fb(g) == fb((float)sqrt(s * k2))), "the root of the sum of squared differences"); check_bytes(x, dx, 4 * n, "first spectrum unchanged"); check_bytes(y, dy, 4 * n, "second spectrum unchanged"); sx_observe("g", (long)(g * 8)); }
void h_euclid_any(void) { float *x = (float *)malloc(4), *y = (float *)malloc(4); x[0] = sx_float("x"); y[0] = sx_float("y"); float d = x[0] - y[0], q = 0 + d * d, g = euclidean_distance(x, y, 1); sx_assert((g == sqrtf(q)) | (fb(g) == fb((float)sqrt((double)q))) | (g == (float)sqrt((double)(d * d))) | (q != q), "the distance of two single values"); sx_observe("z", g == 0); }
/* base spectrum from a seed, some entries arbitrary */
static void spectrum(float *x, int n, unsigned seed, int nsym, long lo, long hi) { for (int i = 0; i < n; i++) { seed = seed * 1103515245u + 12345u; x[i] = (float)((seed >> 16) % 40); } for (int i = 0; i < nsym; i++) x[(seed >> (8 + 3 * i)) % n] = (float)sx_range("e", lo, hi); }
static double ang(const float *x, const float *y, int n) { double a = 0, b = 0, c = 0; for (int i = 0; i < n; i++) { a += (double)x[i] * x[i]; b += (double)y[i] * y[i]; c += (double)x[i] * y[i]; } double q = c / sqrt(a * b); return acos(q > 1 ? 1 : q); }
void h_angle(void) {
  int n = (int)sx_param("n", 4), ns = (int)sx_param("nsym", 1), k = (int)sx_param("scale", 0); float *x = (float *)malloc(4 * n), *y = (float *)malloc(4 * n); spectrum(x, n, (unsigned)sx_param("seed", 1), ns, sx_param("lo", 0), sx_param("hi", 255)); spectrum(y, n, (unsigned)sx_param("seed2", 2), 0, 0, 0); if (k == 3) for (int i = 0; i < n; i++) y[i] = x[i]; if (k == 4) for (int i = 0; i < n; i++) y[i] = x[i] * 2.5f; if (k == 5) { for (int i = 0; i < n; i++) { if (i & 1) x[i] = 0; else y[i] = 0; } }
  for (int i = 0; i < n; i++) { x[i] *= (float)pow2of("scale2"); y[i] *= (float)pow2of("scaley"); } double nx = 0, ny = 0; for (int i = 0; i < n; i++) nx += (double)x[i], ny += (double)y[i]; sx_assume((nx > 0) & (ny > 0)); float *dx = (float *)dup_bytes(x, 4 * n), *dy = (float *)dup_bytes(y, 4 * n); float g = spectral_angle_mapper(x, y, n); double w = ang(dx, dy, n); sx_assert(near(g, w, 6e-4), "the angle between the spectra"); sx_assert((w < 0.1) | near(g, w, 1e-5), "the angle between the spectra, closely"); sx_assert(spectral_angle_mapper(y, x, n) == g, "the same in either order"); if (k == 3 || k == 4) sx_assert(near(g, 0, 6e-4), "proportional spectra enclose no angle"); if (k == 5) sx_assert(near(g, 1.57079632679, 1e-6), "spectra without common bands are orthogonal");
  check_bytes(x, dx, 4 * n, "first spectrum unchanged"); check_bytes(y, dy, 4 * n, "second spectrum unchanged"); sx_observe("g", (long)(g * 1000));
}
/* ---- matching ---- */
void h_sam(void) {
  int s = (int)sx_param("s", 2), l = (int)sx_param("l", 3), b = (int)sx_param("b", 3), ns = (int)sx_param("nsym", 1); hyper_mat m = raw_cube(s, l, b, 4, "bip"); float *x = (float *)m->data, *sp = (float *)malloc(4 * b); for (int p = 0; p < s * l; p++) { spectrum(x + p * b, b, p * 7 + (unsigned)sx_param("seed", 1), p % (int)sx_param("every", 1) ? 0 : ns, 1, sx_param("hi", 200)); if (p % (int)sx_param("every", 1)) x[p * b] += 1; double t = 0; for (int k = 0; k < b; k++) t += (double)x[p * b + k]; sx_assume(t > 0); } spectrum(sp, b, 99, 0, 0, 0); sp[0] = 7; float th = sx_param("fixth", 0) ? 0.4f : sx_float("threshold"); sx_assume(th == th); for (int k = 0; k < b; k++) m->wavelength[k] = (float)k;
  void *dm = dup_bytes(x, 4L * s * l * b), *dp = dup_bytes(sp, 4 * b); long h0 = sx_live_heap(); simple_mat r = spectrum_SAM_match(m, sp, th); check_img(r, l, s, 1, 1); unsigned char *g = (unsigned char *)r->data; float *ox = (float *)dm; for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) { float *px = ox + (i * s + j) * b; double w = ang(px, sp, b); int v = g[i * s + j]; sx_assert(v <= 1, "match or no match"); sx_assert((v == 1) | !(w + 6e-4 <= (double)th), "a spectrum within the angle matches"); sx_assert((v == 0) | !(w - 6e-4 > (double)th), "a spectrum beyond the angle does not match"); sx_assert(v == (spectral_angle_mapper(px, sp, b) <= th), "matches exactly where the angle is at most the threshold"); }
  sx_observe("g", g[0]); delete_simple_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(x, dm, 4L * s * l * b, "cube unchanged"); check_bytes(sp, dp, 4 * b, "spectrum unchanged");
}
void h_sam_bad(void) { int w = (int)sx_param("which", 0), dt = 4, il = 2; float sp[2] = {1, 2}; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); } if (w == 1) il = (int)sx_choose("il", 0, 1); hyper_mat m = sym_cube("px", 2, 2, 2, dt, ILS[il]); if (w == 3) { REJECTS(spectral_angle_mapper(sp, NULL, 2), "no spectrum is refused"); } if (w == 4) { REJECTS(spectral_angle_mapper(NULL, sp, 2), "no spectrum is refused"); } REJECTS(spectrum_SAM_match(w == 5 ? NULL : m, w == 2 ? NULL : sp, 0.5f), "other types and layouts and missing operands are refused"); }
void h_hmean(void) {
  int s = (int)sx_param("s", 0), l = (int)sx_param("l", 0), b = (int)sx_param("b", 0); if (!s) s = (int)sx_choose("s", 1, sx_param("box", 3)); if (!l) l = (int)sx_choose("l", 1, sx_param("box", 3)); if (!b) b = (int)sx_choose("b", 1, 4); hyper_mat m = raw_cube(s, l, b, 4, "bip"); float *x = (float *)m->data; long n = (long)s * l * b, *v = (long *)malloc(8 * n); for (long i = 0; i < n; i++) { v[i] = sx_range("x", -100000, 100000); x[i] = (float)v[i]; } simple_mat t = sym_img("old", l, s, 4, 1); void *d = dup_bytes(x, 4 * n); long h0 = sx_live_heap(); hyper_mat_mean(m, t); float *g = (float *)t->data; for (int i = 0; i < s * l; i++) { long q = 0; for (int k = 0; k < b; k++) q += v[i * b + k]; sx_assert((g[i] == (float)q / b) | (g[i] == (float)((double)q / b)), "the mean of the pixel's bands"); } check_bytes(x, d, 4 * n, "cube unchanged"); check_img(t, l, s, 4, 1); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", (long)g[0]);
}
void h_hmean_bad(void) { int w = (int)sx_param("which", 0), dt = 4, dd = 4, il = 2, r = 2, c = 3; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 4); } if (w == 1) il = (int)sx_choose("il", 0, 1); if (w == 2) { dd = DTS[sx_choose("dt", 0, 8)]; sx_assume(dd != 4); } if (w == 3) { r = (int)sx_choose("r", 1, 4); sx_assume(r != 2); } if (w == 4) { c = (int)sx_choose("c", 1, 4); sx_assume(c != 3); } if (w == 5) { r = 3; c = 2; } hyper_mat m = sym_cube("px", 3, 2, 2, dt, ILS[il]); simple_mat t = sym_img("old", r, c, dd, 1); REJECTS(hyper_mat_mean(w == 6 ? NULL : m, t), "other types, layouts and shapes are refused"); }
/* ---- spectrum files ---- */
static char tb[4000]; static int tl; static void tx(const char *s) { while (*s) tb[tl++] = *s++; }
static const char *SEP[] = {" ", "\n", "\t", "  \n ", "\r\n", "\n\n", " \t"};
void h_read(void) {
  int n = (int)sx_param("n", 3), have = (int)sx_param("have", 3), sep = (int)sx_choose("sep", 0, 6), form = (int)sx_param("form", 0), tail = (int)sx_param("tail", 0), lead = (int)sx_choose("lead", 0, 2); float w[64]; tl = 0; tx(lead == 1 ? "\n" : lead == 2 ? "  " : ""); for (int i = 0; i < have; i++) { int k = form == 6 ? 0 : (form == 5 ? i : form) % 5; if (i) tx(SEP[(sep + i) % 7]); int a = (int)sx_range("digit", 0, 9), b = (int)sx_range("digit", 0, 9); if (k == 1) tb[tl++] = '-'; if (k == 2) tb[tl++] = '+'; tb[tl++] = (char)('0' + a); tb[tl++] = (char)('0' + b); if (k == 3) tb[tl++] = '.'; if (k == 4) tx("e2"); if (form == 6) { tx(i % 3 == 0 ? ".5" : i % 3 == 1 ? ".0625" : "7.125"); w[i] = i % 3 == 2 ? (float)(100 * a + 10 * b + 7) + 0.125f : (float)(10 * a + b) + (i % 3 ? 0.0625f : 0.5f); } else if (k == 3) { tx("5"); w[i] = (float)(10 * a + b) + 0.5f; } else w[i] = (float)((10 * a + b) * (k == 1 ? -1 : k == 4 ? 100 : 1)); }
  if (tail == 1) tx("\n"); if (tail == 2) tx(" end 77"); if (tail == 3) tx(" \t \n"); sxf_put("sp.txt", tb, tl); long h0 = sx_live_heap(); float *g = read_spectrum_file("sp.txt", n); sx_assert(sx_addressable(g, 4 * n), "room for the spectrum"); for (int i = 0; i < n; i++) sx_assert(g[i] == (i < have ? w[i] : 0), i < have ? "the numbers in order" : "zero where the file ends"); sx_assert(sxf_open_handles() == 0, "file closed"); sx_observe("g", (long)g[0]); free(g); sx_assert(sx_live_heap() == h0, "nothing retained");
}
void h_read_missing(void) { REJECTS(read_spectrum_file("none.txt", 3), "a missing file is refused"); }
