#include "hm.h"
hyper_mat hyper_mat_float2uint(hyper_mat f_mat);
static void pick_rc(int *r, int *c) { long m = sx_param("big", 0); if (m) { int l, s, b; pick_shape(&s, &l, &b); *r = l * b; *c = s; } else { long k = sx_param("box", 3); *r = (int)sx_choose("r", 1, k); *c = (int)sx_choose("c", 1, k); } }
static int spot(long n) { long k = sx_param("spots", 0); if (!k || k >= n) return (int)sx_choose("at", 0, n - 1); return (int)(sx_choose("at", 0, k - 1) * (n - 1) / (k - 1)); }
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
/* ---- P05 type conversions ---- */
static hyper_mat widen(int f, hyper_mat m) { switch (f) { case 0: return hyper_mat_uchar2short(m); case 1: return hyper_mat_uchar2int(m); case 2: return hyper_mat_uchar2float(m); case 3: return hyper_mat_uchar2ushort(m); default: return hyper_mat_ushort2float(m); } }
void h_widen(void) {
  int f = (int)sx_param("f", 0), il = (int)sx_choose("il", 0, 2), s, l, b; static const int TO[] = {2, 3, 4, 12, 4}; int sdt = f == 4 ? 12 : 1, ddt = TO[f]; pick_shape(&s, &l, &b); hyper_mat m = sym_cube("px", s, l, b, sdt, ILS[il]); long n = (long)s * l * b; void *d = dup_bytes(m->data, n * esz(sdt)), *w = dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  hyper_mat r = widen(f, m); check_hdr(r, s, l, b, ddt, ILS[il]); check_bytes(r->wavelength, w, 4 * b, "wavelengths kept"); check_bytes(m->data, d, n * esz(sdt), "source unchanged"); check_bytes(m->wavelength, w, 4 * b, "source wavelengths unchanged"); check_hdr(m, s, l, b, sdt, ILS[il]);
  for (long i = 0; i < n; i++) { int v = sdt == 1 ? ((unsigned char *)d)[i] : ((unsigned short *)d)[i]; if (ddt == 4) sx_assert(((float *)r->data)[i] == (float)v, "same value"); else { int g = ddt == 2 ? ((short *)r->data)[i] : ddt == 3 ? ((int *)r->data)[i] : ((unsigned short *)r->data)[i]; sx_assert(g == v, "same value"); } }
  sx_observe("last", ((unsigned char *)r->data)[n * esz(ddt) - 1]); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m);
}
static hyper_mat narrow(int f, hyper_mat m) { switch (f) { case 0: return hyper_mat_float2char(m); case 1: return hyper_mat_float2uchar(m); case 2: return hyper_mat_float2short(m); case 3: return hyper_mat_float2ushort(m); case 4: return hyper_mat_float2int(m); default: return hyper_mat_float2uint(m); } }
static const double LO[] = {-128, 0, -32768, 0, -2147483648.0, 0}, HI[] = {127, 255, 32767, 65535, 2147483647.0, 4294967295.0}; static const int NDT[] = {1, 1, 2, 12, 3, 13};
static long got(int f, void *d, long i) { switch (f) { case 0: return ((signed char *)d)[i]; case 1: return ((unsigned char *)d)[i]; case 2: return ((short *)d)[i]; case 3: return ((unsigned short *)d)[i]; case 4: return ((int *)d)[i]; default: return ((unsigned *)d)[i]; } }
static void nearest(float x, long v, double lo, double hi) { double g = (double)v, d = (double)x - g; int sat = ((double)x >= hi & g == hi) | ((double)x <= lo & g == lo), near = (d <= 0.5) & (d >= -0.5), tie = (d == 0.5) | (d == -0.5); sx_assert(sat | near, "the nearest integer, or the nearest representable one"); sx_assert(sat | !tie | !(v & 1), "ties go to the even neighbour"); }
/* one arbitrary float anywhere in the cube, the others from a fixed list */
void h_narrow(void) {
  int f = (int)sx_param("f", 0), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); hyper_mat m = sym_cube("px", s, l, b, 4, ILS[il]); long n = (long)s * l * b; float *x = (float *)m->data; static const float FIX[] = {0, 1, -1, 0.5f, 1.5f, -0.5f, 254.49f, 255.5f, 1e10f, -1e10f, 32767.6f, -3.7f, 300, -200.2f, 2147483648.0f, 65535.4f}; int at = spot(n); for (long i = 0; i < n; i++) if (i != at) x[i] = FIX[(i * 5 + at) % 16]; sx_assume(x[at] == x[at]);
  void *d = dup_bytes(x, n * 4), *w = dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap(); hyper_mat r = narrow(f, m); check_hdr(r, s, l, b, NDT[f], ILS[il]); check_bytes(r->wavelength, w, 4 * b, "wavelengths kept"); check_bytes(m->data, d, n * 4, "source unchanged"); for (long i = 0; i < n; i++) nearest(x[i], got(f, r->data, i), LO[f], HI[f]);
  sx_observe("v", got(f, r->data, at)); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m);
}
void h_narrow_img(void) {
  int ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); simple_mat m = sym_img("px", r, c, 4, ch); long n = (long)r * c * ch; float *x = (float *)m->data; int at = spot(n); unsigned seed = 5; for (long i = 0; i < n; i++) if (i != at) x[i] = (float)(lcg(&seed) % 40000) * 0.0125f - 100; sx_assume(x[at] == x[at]);
  void *d = dup_bytes(x, n * 4); long h0 = sx_live_heap(); simple_mat t = simple_mat_float2uchar(m); check_img(t, r, c, 1, ch); check_bytes(m->data, d, n * 4, "source unchanged"); for (long i = 0; i < n; i++) nearest(x[i], ((unsigned char *)t->data)[i], 0, 255); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m);
}
void h_type_bad(void) { int f = (int)sx_param("f", 0), dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != (f < 4 ? 1 : f == 4 ? 12 : 4)); sx_exit_mode(1); if (f == 11) { simple_mat t = sym_img("px", 2, 2, dt, 1); simple_mat_float2uchar(t); } else { hyper_mat m = sym_cube("px", 2, 2, 1, dt, "bsq"); if (f < 5) widen(f, m); else narrow(f - 5, m); } sx_assert(0, "a source of another type is refused"); }
/* decimal text to float */
void h_atof(void) {
  char t[40]; int k = 0, pat = (int)sx_param("pat", 0), nd = (int)sx_param("ni", 3), nf = (int)sx_param("nf", 2), sp = (int)sx_choose("spaces", 0, 1), sg = (int)sx_choose("sign", 0, 2), fr = (int)sx_param("dot", 1), ex = (int)sx_param("exp", 0), es = ex ? (int)sx_choose("esign", 0, 2) : 0, tail = (int)sx_choose("tail", 0, 3); unsigned seed = pat + 1; int tot = nd + (fr ? nf : 0), at = (int)sx_choose("at", 0, tot - 1); int dv = (int)sx_bits("digit", 4); sx_assume(dv < 10);
  if (sp) { t[k++] = ' '; t[k++] = ' '; } if (sg) t[k++] = sg == 1 ? '-' : '+'; double M = 0, scale = 1, ds = 0; for (int i = 0; i < tot; i++) { if (fr && i == nd) t[k++] = '.'; int g = (int)(lcg(&seed) % 10); M = M * 10 + (i == at ? 0 : g); ds = i == at ? 1 : ds * 10; if (i >= nd) scale *= 10; t[k++] = i == at ? '0' + dv : '0' + g; } if (fr && tot == nd) t[k++] = '.';
  double E = 1; if (ex) { t[k++] = pat & 1 ? 'e' : 'E'; if (es) t[k++] = es == 1 ? '-' : '+'; int ev = ex; if (ev >= 10) { t[k++] = '0' + ev / 10; } t[k++] = '0' + ev % 10; for (int i = 0; i < ev; i++) E *= 10; if (es == 1) E = 1 / E; }
  if (tail == 1) { t[k++] = ','; t[k++] = '7'; } if (tail == 2) { t[k++] = ' '; } if (tail == 3) t[k++] = '\n'; t[k] = 0;
  float v = hypercv_atof(t); double want = (M + ds * dv) / scale * E; if (sg == 1) want = -want; double err = (double)v - want, tol = (want < 0 ? -want : want) * 4e-6 + 1e-30; sx_assert((err <= tol) & (err >= -tol), "the number written in the text"); sx_observe("v", (long)(v * 8));
}
/* ---- P12 radiometric correction ---- */
void h_radio(void) {
  int f = (int)sx_param("f", 0), s, l, b; pick_shape(&s, &l, &b); int sdt = f ? 4 : 12; hyper_mat m = sym_cube("px", s, l, b, sdt, "bip"); long n = (long)s * l * b, nc = f ? b : (long)s * b; float *c = (float *)malloc(4 * nc); sx_make_symbolic(c, 4 * nc, "coef"); thin(c, 4, nc); if (sx_param("fixc", 0)) for (long i = 0; i < nc; i++) c[i] = 0.75f + (float)(i % 7); thin(m->data, sdt, n); void *cd = dup_bytes(c, 4 * nc), *d = dup_bytes(m->data, n * esz(sdt)), *w = dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  hyper_mat r = f ? absolute_radiometric_correction(m, c) : relative_radiometric_correction(m, c); check_hdr(r, s, l, b, 4, "bip"); check_bytes(r->wavelength, w, 4 * b, "wavelengths kept"); check_bytes(m->data, d, n * esz(sdt), "source unchanged"); check_bytes(c, cd, 4 * nc, "coefficients unchanged");
  for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) { long p = pos("bip", s, l, b, i, j, k); float x = f ? ((float *)d)[p] : (float)((unsigned short *)d)[p], q = c[f ? k : k * s + j], a = x * q, bb = q * x, g = ((float *)r->data)[p]; sx_assert((g == a) | (g == bb) | ((g != g) & (a != a)), "pixel times the coefficient of its band (and detector)"); }
  delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m); free(c);
}
void h_radio_bad(void) { int f = (int)sx_param("f", 0), which = (int)sx_param("which", 0), dt = f ? 4 : 12, il = 2; if (which) il = (int)sx_choose("il", 0, 1); else { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != (f ? 4 : 12)); } hyper_mat m = sym_cube("px", 2, 2, 2, dt, ILS[il]); float c[8] = {1, 1, 1, 1, 1, 1, 1, 1}; sx_exit_mode(1); if (f) absolute_radiometric_correction(m, c); else relative_radiometric_correction(m, c); sx_assert(0, "another type or layout is refused"); }
/* ---- P11 colour ---- */
void h_expand(void) {
  int f = (int)sx_param("f", 0), r, c; pick_rc(&r, &c); simple_mat m = sym_img("px", r, c, 1, 1); long n = (long)r * c; unsigned char *d = (unsigned char *)dup_bytes(m->data, n); long h0 = sx_live_heap(); simple_mat t = f ? sm_binary2rgb(m) : sm_gray2rgb(m); check_img(t, r, c, 1, 3); unsigned char *w = (unsigned char *)malloc(3 * n); for (long i = 0; i < n; i++) for (int k = 0; k < 3; k++) w[3 * i + k] = f ? (d[i] ? 255 : 0) : d[i]; check_bytes(t->data, w, 3 * n, "all three channels take the grey value (white for any set pixel of a binary image)"); check_bytes(m->data, d, n, "source unchanged"); check_img(m, r, c, 1, 1); free(w); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m);
}
void h_bgr(void) { int r, c; pick_rc(&r, &c); simple_mat m = sym_img("px", r, c, 1, 3), t = sym_img("old", r, c, 1, 3), u = raw_img(r, c, 1, 3); long n = (long)r * c; unsigned char *d = (unsigned char *)dup_bytes(m->data, 3 * n), *w = (unsigned char *)malloc(3 * n); for (long i = 0; i < 3 * n; i++) w[i] = d[i / 3 * 3 + 2 - i % 3]; long h0 = sx_live_heap(); sm_bgr2rgb(m, t); check_bytes(t->data, w, 3 * n, "first and third channel exchanged"); check_bytes(m->data, d, 3 * n, "source unchanged"); check_img(t, r, c, 1, 3); sm_bgr2rgb(t, u); check_bytes(u->data, d, 3 * n, "swapping twice restores the image"); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m); free_img(t); free_img(u); }
static void gray_ok(int method, int R, int G, int B, int g) {
  if (method == 1) { int mx = R > G ? R : G; mx = mx > B ? mx : B; sx_assert(g == mx, "the largest channel"); }
  else if (method == 2) { int X = 299 * R + 587 * G + 114 * B; sx_assert((1000 * g <= X) & (X <= 1000 * g + 1000), "the weighted sum 0.299 R + 0.587 G + 0.114 B"); }
  else { int S = R + G + B; sx_assert((6 * g <= 2 * S + 3) & (2 * S + 3 <= 6 * g + 6) & (3 * g - S <= 1) & (S - 3 * g <= 1), "the rounded average"); }
}
/* every pixel: one channel arbitrary, the other two from a list */
void h_gray(void) {
  int method = (int)sx_param("method", 0), r, c; pick_rc(&r, &c); long n = (long)r * c; simple_mat m = sym_img("px", r, c, 1, 3); unsigned char *p = (unsigned char *)m->data; static const unsigned char L[] = {0, 1, 77, 128, 254, 255, 13}; int full = (int)sx_param("full", 0), v = full ? (int)sx_choose("v", 0, 48) : 0, ch = full ? (int)sx_choose("ch", 0, 2) : 0; if (method == 0 && sx_param("big", 0)) { int at = spot(n); unsigned seed = 9; for (long i = 0; i < 3 * n; i++) if (i / 3 != at) p[i] = lcg(&seed); }
  if (method == 2) for (long i = 0; i < n; i++) { int a = full ? ch : (int)(i % 3), q = full ? v : (int)(i * 11 + 5) % 49; for (int k = 0, y = 0; k < 3; k++) if (k != a) p[3 * i + k] = L[y++ ? q / 7 : q % 7]; }
  unsigned char *d = (unsigned char *)dup_bytes(p, 3 * n); long h0 = sx_live_heap(); simple_mat t = sm_rgb2gray(m, method); check_img(t, r, c, 1, 1); for (long i = 0; i < n; i++) gray_ok(method, d[3 * i], d[3 * i + 1], d[3 * i + 2], ((unsigned char *)t->data)[i]); check_bytes(p, d, 3 * n, "source unchanged"); check_img(m, r, c, 1, 3); sx_observe("g", ((unsigned char *)t->data)[n - 1]); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m);
}
void h_color_bad(void) { int f = (int)sx_param("f", 0), ch = (int)sx_choose("ch", 1, 4), dt = 1, r = 2, c = 2, ch2 = ch; int w = (int)sx_param("which", 0); if (f < 2) sx_assume(ch != 1); else if (w == 0) sx_assume(ch != 3); else { sx_assume(ch == 3); if (w == 1) r = 3; if (w == 2) c = 3; if (w == 3) ch2 = 1; if (w == 4) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 1); } }
  simple_mat m = sym_img("px", 2, 2, dt, ch); sx_exit_mode(1); if (f == 0) sm_gray2rgb(m); else if (f == 1) sm_binary2rgb(m); else if (f == 2) sm_rgb2gray(m, (int)sx_choose("method", 0, 2)); else { simple_mat t = raw_img(r, c, dt, ch2); sm_bgr2rgb(m, t); } sx_assert(0, "an image with other channels (or another shape or type) is refused"); }
/* ---- P10 thresholds ---- */
static int thr(int type, int p, int t, int mx) { switch (type) { case 0: return p > t ? mx : 0; case 1: return p > t ? 0 : mx; case 2: return p > t ? t : p; case 3: return p > t ? p : 0; default: return p > t ? 0 : p; } }
void h_thresh(void) {
  int type = (int)sx_param("type", 0), r, c; pick_rc(&r, &c); simple_mat m = sym_img("px", r, c, 1, 1), u = sym_img("old", r, c, 1, 1), t = u; long n = (long)r * c; thin(m->data, 1, n); unsigned char *d = (unsigned char *)dup_bytes(m->data, n), *w = (unsigned char *)malloc(n); int th = type == 2 ? (int)sx_uchar("thresh") : sx_int("thresh"), mx = (int)sx_uchar("max"); if (sx_param("keep", 0)) th = (int)sx_choose("level", 0, 2) * 100; int own = (int)sx_choose("inplace", 0, 1); if (own) t = m; for (long i = 0; i < n; i++) w[i] = (unsigned char)thr(type, d[i], th, mx); long h0 = sx_live_heap();
  hypercv_threshold(m, t, th, mx, type); check_bytes(t->data, w, n, "the thresholded image"); if (!own) check_bytes(m->data, d, n, "source unchanged"); check_img(t, r, c, 1, 1); sx_observe("p", ((unsigned char *)t->data)[0]);
  memcpy(m->data, d, n); switch (type) { case 0: hypercv_threshold_binary(m, u, th, mx); break; case 1: hypercv_threshold_binary_inv(m, u, th, mx); break; case 2: hypercv_threshold_trunc(m, u, th, mx); break; case 3: hypercv_threshold_tozero(m, u, th, mx); break; default: hypercv_threshold_tozero_inv(m, u, th, mx); } check_bytes(u->data, w, n, "the named functions agree with the dispatcher"); sx_assert(sx_live_heap() == h0, "nothing retained"); free_img(m); free_img(u);
}
static int otsu_ok(const long *h, int t) { /* integer between-class variance, maximal at t */
  long N = 0, S = 0; for (int i = 0; i < 256; i++) { N += h[i]; S += i * h[i]; } double best = -1, at = -1; long n0 = 0, s0 = 0; for (int i = 0; i < 256; i++) { n0 += h[i]; s0 += i * h[i]; int no = (n0 == 0) | (n0 == N); double d = (double)(s0 * (N - n0) - (S - s0) * n0), q = (double)(n0 * (N - n0)), g = no ? -1 : d * d / (no ? 1 : q); best = g > best ? g : best; at = i == t ? g : at; } return (best < 0) | (at >= best * (1 - 1e-9) - 1e-9); }
/* pixels drawn from a few levels in every combination, or a fixed image with a pixel running over all levels */
void h_otsu(void) {
  int r = (int)sx_param("r", 2), c = (int)sx_param("c", 2), kinds = (int)sx_param("kinds", 3), n = r * c, scan = (int)sx_param("scan", 0); int lv[4] = {(int)sx_param("l0", 10), (int)sx_param("l1", 128), (int)sx_param("l2", 250), (int)sx_param("l3", 0)}; simple_mat m = raw_img(r, c, 1, 1), t = raw_img(r, c, 1, 1); unsigned char *p = (unsigned char *)m->data; long h[256] = {0}; unsigned seed = (unsigned)sx_param("seed", 1); int skew = (int)sx_param("skew", 0); int at = scan ? (int)sx_choose("at", 0, 2) * (n - 1) / 2 : -1;
  for (int i = 0; i < n; i++) { int v = scan ? (i == at ? (scan == 2 ? (int)sx_bits("px", (int)sx_param("bits", 8)) + (int)sx_param("lo", 0) : (int)sx_choose("level", 0, sx_param("levels", 255)) * 255 / (int)sx_param("levels", 255)) : (skew && lcg(&seed) % 16 ? 40 * skew + (int)(lcg(&seed) & (skew > 1)) : (int)(lcg(&seed) & 255))) : lv[sx_choose("k", 0, kinds - 1)]; p[i] = (unsigned char)v; h[v]++; }
  void *d = dup_bytes(p, n); long h0 = sx_live_heap(); int th = otsuThreshold(m); sx_assert(th >= 0 && th <= 255, "a grey level"); sx_assert(otsu_ok(h, th), "the threshold maximises the between-class variance"); hypercv_threshold(m, t, 0, 0, 8); for (int i = 0; i < n; i++) sx_assert(((unsigned char *)t->data)[i] == (p[i] > th ? 255 : 0), "pixels above the threshold turn white, the others black"); check_bytes(p, d, n, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("t", th); free_img(m); free_img(t);
}
void h_thresh_bad(void) { int w = (int)sx_param("which", 0), type = (int)sx_choose("type", 0, 8), r = 2, c = 2, ch = 1, dt = 1; sx_assume(type < 5 || type == 8); if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 1); } if (w == 1) ch = 3; if (w == 2) r = 3; if (w == 3) c = 3; if (w == 4) { type = sx_int("badtype"); sx_assume((type < 0 || type > 4) && type != 7 && type != 8 && type != 16); } simple_mat m = sym_img("px", 2, 2, dt, ch), t = sym_img("old", r, c, dt, ch); REJECTS(hypercv_threshold(m, t, 5, 200, type), "another type, shape or channel count and unknown kinds are refused"); }
/* ---- P09 morphology ---- */
static void erode(const unsigned char *p, unsigned char *o, int r, int c, const unsigned char *k, int kh, int kw, int dil) {
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int in = i >= kh / 2 && i + kh / 2 < r && j >= kw / 2 && j + kw / 2 < c, v = p[i * c + j], hit = 0; if (in) for (int a = 0; a < kh; a++) for (int b = 0; b < kw; b++) { int q = p[(i - kh / 2 + a) * c + j - kw / 2 + b]; hit |= (k[a * kw + b] == 1) & (dil ? q != 0 : q == 0); } o[i * c + j] = (unsigned char)(dil ? (v ? v : hit) : (hit ? 0 : v)); }
}
void h_morph(void) {
  int op = (int)sx_param("op", 0), r = (int)sx_param("r", 3), c = (int)sx_param("c", 3), kw = (int)sx_param("kw", 3), kh = (int)sx_param("kh", 3), sk = (int)sx_param("symk", 0), free_ = (int)sx_param("free", 9), it = (int)sx_param("it", 1); unsigned seed = (unsigned)sx_param("seed", 1); simple_mat m = sym_img("px", r, c, 1, 1), t = sym_img("old", r, c, 1, 1); unsigned char *p = (unsigned char *)m->data; int n = r * c;
  int step = free_ ? (n + free_ - 1) / free_ : 0; for (int i = 0; i < n; i++) if (!step || i % step) { unsigned q = lcg(&seed); p[i] = q % 3 ? (unsigned char)(q / 3) : 0; }
  unsigned char *kd = (unsigned char *)malloc(kw * kh); if (sk) { for (int i = 0; i < kw * kh; i++) kd[i] = (unsigned char)sx_bits("k", 1); } else for (int i = 0; i < kw * kh; i++) kd[i] = sx_param("ones", 1) ? 1 : (unsigned char)(i != kw * kh / 2 && (lcg(&seed) & 1)); S_2D s = create_2D_struct_with_data(kw, kh, kd); unsigned char *d = (unsigned char *)dup_bytes(p, n), *w = (unsigned char *)dup_bytes(p, n), *x = (unsigned char *)malloc(n); long h0 = sx_live_heap();
  if (op < 2) { erode(d, w, r, c, kd, kh, kw, op); if (op) hypercv_expend(m, t, s); else hypercv_corrosion(m, t, s); }
  else { for (int q = 0; q < it; q++) { erode(w, x, r, c, kd, kh, kw, op == 3); erode(x, w, r, c, kd, kh, kw, op == 2); } if (op == 2) hypercv_open(m, t, s, it); else hypercv_close(m, t, s, it); }
  check_bytes(t->data, w, n, op == 0 ? "eroded image" : op == 1 ? "dilated image" : op == 2 ? "opened image" : "closed image"); check_bytes(m->data, d, n, "source unchanged"); check_img(t, r, c, 1, 1); check_bytes(s->data, kd, kw * kh, "element unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[n / 2]); delete_S_2D(s); free_img(m); free_img(t);
}
void h_morph_small(void) { int op = (int)sx_param("op", 0), kw = (int)sx_param("kw", 3), kh = (int)sx_param("kh", 3); simple_mat m = sym_img("px", 2, 2, 1, 1), t = sym_img("old", 2, 2, 1, 1); S_2D s = create_2D_struct(kw, kh); void *d = dup_bytes(m->data, 4), *o = dup_bytes(t->data, 4); if (op == 0) hypercv_corrosion(m, t, s); else if (op == 1) hypercv_expend(m, t, s); else if (op == 2) hypercv_open(m, t, s, 1); else hypercv_close(m, t, s, 1); check_bytes(m->data, d, 4, "source unchanged"); check_bytes(t->data, op < 2 ? o : d, 4, "an element larger than the image changes nothing"); delete_S_2D(s); free_img(m); free_img(t); }
