#include "hm.h"
/* ---- P02: range of interest ---- */
static void pick_iv(const char *a, const char *b, int n, int *s, int *e) { *s = (int)sx_choose(a, 0, n - 1); *e = (int)sx_choose(b, *s + 1, n); }
static void range_check(hyper_mat m, int dt, int il, int s, int l, int b, int r0, int r1, int c0, int c1, int b0, int b1) {
  int e = esz(dt); long by = (long)s * l * b * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, by), *w = (unsigned char *)dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  hyper_mat r = hyper_mat_get_range(m, r0, c0, b0, r1, c1, b1); int S = c1 - c0, L = r1 - r0, B = b1 - b0; check_hdr(r, S, L, B, dt, ILS[il]);
  long n = (long)S * L * B * e; unsigned char *want = (unsigned char *)malloc(n);
  for (int i = 0; i < L; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) memcpy(want + pos(ILS[il], S, L, B, i, j, k) * e, d + pos(ILS[il], s, l, b, i + r0, j + c0, k + b0) * e, e);
  check_bytes(r->data, want, n, "every element of the range, shifted by its start"); check_bytes(r->wavelength, w + 4 * b0, 4 * B, "wavelengths of the selected bands"); check_bytes(m->data, d, by, "source pixels unchanged"); check_bytes(m->wavelength, w, 4 * b, "source wavelengths unchanged"); check_hdr(m, s, l, b, dt, ILS[il]);
  sx_observe("last", ((unsigned char *)r->data)[n - 1]); memset(r->data, 9, n); memset(r->wavelength, 9, 4 * B); check_bytes(m->data, d, by, "the range is independent of its source"); free(want); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained");
}
void h_range(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); hyper_mat m = sym_cube("px", s, l, b, dt, ILS[il]); int r0, r1, c0, c1, b0, b1;
  if (!sx_param("big", 0)) { pick_iv("r0", "r1", l, &r0, &r1); pick_iv("c0", "c1", s, &c0, &c1); pick_iv("b0", "b1", b, &b0, &b1); }
  else { int v = (int)sx_choose("variant", 0, 4); r0 = c0 = b0 = 0; r1 = l; c1 = s; b1 = b; if (v == 1) { r0 = l / 3; c0 = s / 3; b0 = b / 3; } if (v == 2) { r1 = (l + 1) / 2; c1 = (s + 1) / 2; b1 = (b + 1) / 2; } if (v == 3) { r0 = l - 1; c0 = s - 1; b0 = b - 1; } if (v == 4) { r1 = 1; c1 = 1; b1 = 1; } }
  range_check(m, dt, il, s, l, b, r0, r1, c0, c1, b0, b1); free_cube(m);
}
void h_range_bad(void) {
  int il = (int)sx_param("il", 0), wide = (int)sx_param("wide", 0), which = (int)sx_param("which", 0); hyper_mat m = sym_cube("px", 3, 2, 4, 2, ILS[il]); int r0 = sx_int("r0"), r1 = sx_int("r1"), c0 = sx_int("c0"), c1 = sx_int("c1"), b0 = sx_int("b0"), b1 = sx_int("b1");
  if (!wide) sx_assume(r0 >= -3 && r0 <= 7 && r1 >= -3 && r1 <= 7 && c0 >= -3 && c0 <= 7 && c1 >= -3 && c1 <= 7 && b0 >= -3 && b0 <= 7 && b1 >= -3 && b1 <= 7);
  int okr = r0 >= 0 && r0 < r1 && r1 <= 2, okc = c0 >= 0 && c0 < c1 && c1 <= 3, okb = b0 >= 0 && b0 < b1 && b1 <= 4; sx_assume(which == 0 ? !okr && okc && okb : which == 1 ? okr && !okc && okb : okr && okc && !okb);
  REJECTS(hyper_mat_get_range(m, r0, c0, b0, r1, c1, b1), "a range outside the cube is refused");
}
/* ---- P03 ---- */
/* any band; of very many, a few telling ones */
static int a_band(int b) { if (b <= 40) return (int)sx_choose("band", 1, b); int Q[8] = {1, 2, 128, 129, 256, 257, 32769, b}; int k = (int)sx_choose("band", 0, 7); sx_assume(Q[k] <= b); return Q[k]; }
void h_band_get(void) {
  int dt = (int)sx_param("dt", 1), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt), band = a_band(b); hyper_mat m = sym_cube("px", s, l, b, dt, "bsq"); long by = (long)s * l * b * e, bb = (long)s * l * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, by);
  int how = (int)sx_choose("how", 0, 3); simple_mat t = how == 0 ? raw_img(l, s, dt, 1) : how == 1 ? raw_img(s, l, dt, 3) : how == 2 ? raw_img(l + 1, s + 2, dt, 1) : raw_img(l, s, 5, 1); long tb = (long)t->rows * t->cols * t->channels * t->elem_size; memset(t->data, 0x5a, tb); long h0 = sx_live_heap();
  hyper_mat_2_simple_mat(m, t, band); check_img(t, l, s, dt, 1); check_bytes(t->data, d + bb * (band - 1), bb, "the image holds the band"); for (long i = bb; i < tb; i++) sx_assert(((unsigned char *)t->data)[i] == 0x5a, "nothing beyond the band is written");
  check_bytes(m->data, d, by, "cube unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[bb - 1]); free_cube(m); free_img(t);
}
void h_band_get_bad(void) {
  int which = (int)sx_param("which", 0), band = sx_int("band"), il = 0, l = 2; if (which == 0) sx_assume(band < 1 || band > 3); else sx_assume(band >= 1 && band <= 3); if (which == 1) il = (int)sx_choose("il", 1, 2); if (which == 2) l = 1;
  hyper_mat m = sym_cube("px", 2, 2, 3, 2, ILS[il]); simple_mat t = raw_img(l, 2, 2, 1); REJECTS(hyper_mat_2_simple_mat(m, t, band), "a band outside the cube, another layout or an image too small for a band is refused");
}
void h_band_put(void) {
  int dt = (int)sx_param("dt", 1), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt), band = a_band(b); hyper_mat m = sym_cube("px", s, l, b, dt, "bsq"); long by = (long)s * l * b * e, bb = (long)s * l * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, by), *w = (unsigned char *)dup_bytes(m->wavelength, 4 * b); simple_mat t = sym_img("img", l, s, dt, 1); void *td = dup_bytes(t->data, bb); long h0 = sx_live_heap();
  simple_mat_2_hyper_mat(m, t, band); memcpy(d + bb * (band - 1), td, bb); check_bytes(m->data, d, by, "exactly the band is replaced"); check_bytes(m->wavelength, w, 4 * b, "wavelengths unchanged"); check_hdr(m, s, l, b, dt, "bsq"); check_bytes(t->data, td, bb, "image unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained");
  simple_mat u = raw_img(l, s, dt, 1); hyper_mat_2_simple_mat(m, u, band); check_bytes(u->data, td, bb, "reading the band back gives the image"); sx_observe("p", ((unsigned char *)u->data)[0]); free_cube(m); free_img(t); free_img(u);
}
void h_band_put_bad(void) {
  int which = (int)sx_param("which", 0), band = sx_int("band"), il = 0, r = 2, c = 3, dt = 2, ch = 1; if (which == 0) sx_assume(band < 1 || band > 3); else sx_assume(band >= 1 && band <= 3); if (which == 1) il = (int)sx_choose("il", 1, 2); if (which == 2) { r = (int)sx_choose("r", 1, 3); sx_assume(r != 2); } if (which == 3) { c = (int)sx_choose("c", 1, 4); sx_assume(c != 3); } if (which == 4) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 2); } if (which == 5) ch = 3;
  hyper_mat m = sym_cube("px", 3, 2, 3, 2, ILS[il]); simple_mat t = sym_img("img", r, c, dt, ch); REJECTS(simple_mat_2_hyper_mat(m, t, band), "a mismatching band or image is refused");
}
void h_reshape(void) {
  int dt = (int)sx_param("dt", 1), s, l, b; pick_shape(&s, &l, &b); int n = s * l * b, r = 1; if (n < 5000) { r = (int)sx_choose("r", 1, n); sx_assume(n % r == 0); } else { static const int Q[] = {1, 2, 3, 300}; r = Q[sx_choose("r", 0, 3)]; if (sx_choose("tall", 0, 1)) r = n / r; sx_assume(n % r == 0); } hyper_mat m = sym_cube("px", s, l, b, dt, "bsq"); long by = (long)n * esz(dt); void *d = dup_bytes(m->data, by); long h0 = sx_live_heap();
  simple_mat t = reshape_hypermat_2_simplemat(m, r, n / r); check_img(t, r, n / r, dt, 1); check_bytes(t->data, d, by, "the elements in order"); memset(t->data, 1, by); check_bytes(m->data, d, by, "cube unchanged and independent"); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m);
}
void h_reshape_bad(void) { hyper_mat m = sym_cube("px", 3, 2, 2, 1, "bsq"); int r = (int)sx_choose("r", 1, 13), c = (int)sx_choose("c", 1, 13); sx_assume(r * c != 12); REJECTS(reshape_hypermat_2_simplemat(m, r, c), "a reshape that changes the number of elements is refused"); }
void h_add(void) {
  int f = (int)sx_param("f", 0), k = (int)sx_param("box", 2), ch = (int)sx_param("ch", 1), dt = f ? 4 : 1; int r1 = (int)sx_param("r1", 0), c1 = (int)sx_param("c1", 0), r2 = (int)sx_param("r2", 0), c2 = (int)sx_param("c2", 0); if (!r1) { r1 = (int)sx_choose("r1", 1, k); c1 = (int)sx_choose("c1", 1, k); r2 = (int)sx_choose("r2", 1, k); c2 = (int)sx_choose("c2", 1, k); } int R = r1 < r2 ? r1 : r2, C = c1 < c2 ? c1 : c2; int r3 = R + (int)sx_choose("er", 0, 1), c3 = C + (int)sx_choose("ec", 0, 1), e = esz(dt);
  simple_mat a = sym_img("a", r1, c1, dt, ch), b = sym_img("b", r2, c2, dt, ch), t = raw_img(r3, c3, dt, ch); long n3 = (long)r3 * c3 * ch; thin(a->data, dt, (long)r1 * c1 * ch); thin(b->data, dt, (long)r2 * c2 * ch); memset(t->data, 0x5a, n3 * e); void *ad = dup_bytes(a->data, (long)r1 * c1 * ch * e), *bd = dup_bytes(b->data, (long)r2 * c2 * ch * e), *td = dup_bytes(t->data, n3 * e); long h0 = sx_live_heap();
  if (f) { for (int i = 0; i < r1 * c1 * ch; i++) sx_assume(((float *)a->data)[i] == ((float *)a->data)[i]); for (int i = 0; i < r2 * c2 * ch; i++) sx_assume(((float *)b->data)[i] == ((float *)b->data)[i]); simple_mat_addition_float(a, b, t); } else simple_mat_addition_uchar(a, b, t);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int q = 0; q < ch; q++) { long x = (i * c1 + j) * ch + q, y = (i * c2 + j) * ch + q, z = (i * c3 + j) * ch + q; if (f) { float v = ((float *)ad)[x] + ((float *)bd)[y]; float g = ((float *)t->data)[z]; sx_assert((g == v) | ((g != g) & (v != v)), "sum of the two pixels"); ((float *)td)[z] = g; } else ((unsigned char *)td)[z] = (unsigned char)(((unsigned char *)ad)[x] + ((unsigned char *)bd)[y]); }
  if (f) { for (long i = 0; i < n3; i++) { int in = i / ch % c3 < C && i / ch / c3 < R; if (!in) sx_assert(((unsigned *)t->data)[i] == 0x5a5a5a5au, "nothing outside the overlap is written"); } } else check_bytes(t->data, td, n3, "sum in the overlap, nothing else written");
  check_bytes(a->data, ad, (long)r1 * c1 * ch * e, "first image unchanged"); check_bytes(b->data, bd, (long)r2 * c2 * ch * e, "second image unchanged"); check_img(t, r3, c3, dt, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[0] & (f ? 0 : 255)); free_img(a); free_img(b); free_img(t);
}
void h_add_bad(void) { int f = (int)sx_param("f", 0), w = (int)sx_param("which", 0), dt = f ? 4 : 1; simple_mat a = sym_img("a", 3, 3, dt, 1), b = sym_img("b", 3, 3, dt, w == 2 ? 3 : 1), t = raw_img(w == 0 ? 2 : 3, w == 1 ? 2 : 3, dt, w == 3 ? 3 : 1); sx_exit_mode(1); if (f) simple_mat_addition_float(a, b, t); else simple_mat_addition_uchar(a, b, t); sx_assert(0, "mismatching channels or a destination smaller than the overlap are refused"); }
void h_splice(void) {
  int dt = (int)sx_param("dt", 1), s, l, b, k = (int)sx_param("pbox", 2); pick_shape(&s, &l, &b); int s2 = (int)sx_choose("s2", 1, k), l2 = (int)sx_choose("l2", 1, k), b2 = (int)sx_choose("b2", 1, k); int n = s * l * b, p = s2 * l2 * b2, e = esz(dt); sx_assume(p <= n); int at = (int)sx_choose("at", 0, n - p);
  hyper_mat m = sym_cube("px", s, l, b, dt, "bsq"), q = sym_cube("part", s2, l2, b2, dt, "bsq"); unsigned char *d = (unsigned char *)dup_bytes(m->data, (long)n * e); void *pd = dup_bytes(q->data, (long)p * e), *w = dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  hyper_mat_splicing(m, q, at); memcpy(d + at * e, pd, p * e); check_bytes(m->data, d, (long)n * e, "exactly the elements from the start index on are replaced"); check_bytes(q->data, pd, (long)p * e, "part unchanged"); check_bytes(m->wavelength, w, 4 * b, "wavelengths unchanged"); check_hdr(m, s, l, b, dt, "bsq"); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m); free_cube(q);
}
void h_splice_bad(void) { int w = (int)sx_param("which", 0), at = sx_int("at"); hyper_mat m = sym_cube("px", 3, 2, 2, 2, "bsq"), q = sym_cube("part", 2, w == 2 ? 7 : 1, 1, w == 1 ? 4 : 2, "bsq"); if (w == 0) sx_assume(at < 0 || at > 10); else sx_assume(at >= 0 && at <= 6); REJECTS(hyper_mat_splicing(m, q, at), "a part that does not fit is refused"); }
/* ---- P04 ---- */
static void pick_rc(int *r, int *c) { long m = sx_param("big", 0); if (m) { int l, s, b; pick_shape(&s, &l, &b); *r = l * b; *c = s; } else { long k = sx_param("box", 3); *r = (int)sx_choose("r", 1, k); *c = (int)sx_choose("c", 1, k); } }
void h_transport_img(void) {
  int dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), r, c; pick_rc(&r, &c); int e = esz(dt) * ch; simple_mat m = sym_img("px", r, c, dt, ch), t = raw_img(c, r, dt, ch); long n = (long)r * c * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, n), *w = (unsigned char *)malloc(n); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) memcpy(w + ((long)j * r + i) * e, d + ((long)i * c + j) * e, e); long h0 = sx_live_heap();
  simple_mat_transport(t, m); check_bytes(t->data, w, n, "pixel (i, j) goes to (j, i)"); check_img(t, c, r, dt, ch); check_bytes(m->data, d, n, "source unchanged"); check_img(m, r, c, dt, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[n - 1]);
  simple_mat u = raw_img(r, c, dt, ch); simple_mat_transport(u, t); check_bytes(u->data, d, n, "transposing twice restores the image"); free_img(m); free_img(t); free_img(u);
}
void h_transport_cube(void) {
  int dt = (int)sx_param("dt", 1), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt); hyper_mat m = sym_cube("px", s, l, b, dt, "bsq"), t = sym_cube("old", l, s, b, dt, "bsq"); long n = (long)s * l * b * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, n), *w = (unsigned char *)malloc(n); for (int k = 0; k < b; k++) for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) memcpy(w + pos("bsq", l, s, b, j, i, k) * e, d + pos("bsq", s, l, b, i, j, k) * e, e); long h0 = sx_live_heap();
  hyper_mat_transport(t, m); check_bytes(t->data, w, n, "sample and line exchanged in every band"); check_hdr(t, l, s, b, dt, "bsq"); check_bytes(m->data, d, n, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[n - 1]);
  hyper_mat u = sym_cube("old2", s, l, b, dt, "bsq"); hyper_mat_transport(u, t); check_bytes(u->data, d, n, "transposing twice restores the cube"); free_cube(m); free_cube(t); free_cube(u);
}
void h_flip(void) {
  int dt = (int)sx_param("dt", 1), ch = (int)sx_param("ch", 1), code = (int)sx_choose("code", -1, 1), r, c; pick_rc(&r, &c); int e = esz(dt) * ch; simple_mat m = sym_img("px", r, c, dt, ch), t = raw_img(r, c, dt, ch); long n = (long)r * c * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, n), *w = (unsigned char *)malloc(n);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int a = code == 1 ? i : r - 1 - i, b = code == 0 ? j : c - 1 - j; memcpy(w + ((long)i * c + j) * e, d + ((long)a * c + b) * e, e); } long h0 = sx_live_heap();
  simple_mat_flip(m, t, code); check_bytes(t->data, w, n, "mirrored in the requested directions"); check_img(t, r, c, dt, ch); check_bytes(m->data, d, n, "source unchanged"); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("p", ((unsigned char *)t->data)[n - 1]);
  simple_mat u = raw_img(r, c, dt, ch); simple_mat_flip(t, u, code); check_bytes(u->data, d, n, "flipping twice restores the image");
  if (code >= 0) { memset(u->data, 0x3c, n); if (code) simple_mat_flip_horizontal(m, u); else simple_mat_flip_vertical(m, u); check_bytes(u->data, w, n, "the single-direction flips agree"); } free_img(m); free_img(t); free_img(u);
}
/* destinations of another shape or type are refused */
void h_geom_bad(void) {
  int f = (int)sx_param("f", 0), which = (int)sx_param("which", 0), r = 2, c = 3, dt = 2, ch = 1; simple_mat m = sym_img("px", 2, 3, 2, 1); if (f == 0) { r = 3; c = 2; } int v = (int)sx_choose("v", 1, 4);
  if (which == 0) { sx_assume(v != r); r = v; } if (which == 1) { sx_assume(v != c); c = v; } if (which == 2) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 2); } if (which == 3) { ch = v; sx_assume(v != 1); }
  simple_mat t = raw_img(r, c, dt, ch); sx_exit_mode(1); if (f == 0) simple_mat_transport(t, m); else simple_mat_flip(m, t, f - 2); sx_assert(0, "a destination of another shape or type is refused");
}
void h_cube_bad(void) { int which = (int)sx_param("which", 0), s = 2, l = 3, b = 2, dt = 2, il = 0, v = (int)sx_choose("v", 1, 4); if (which == 0) { sx_assume(v != s); s = v; } if (which == 1) { sx_assume(v != l); l = v; } if (which == 2) { sx_assume(v != b); b = v; } if (which == 3) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 2); } if (which == 4) il = (int)sx_choose("il", 1, 2);
  hyper_mat m = sym_cube("px", 3, 2, 2, 2, ILS[il]), t = sym_cube("old", s, l, b, dt, "bsq"); REJECTS(hyper_mat_transport(t, m), "a destination of another shape or type is refused"); }
/* rotation about the centre; the direction turns the first line into the last column */
void h_rotate(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 2), tenth = (int)sx_param("deg10", 900), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt); hyper_mat m = sym_cube("px", s, l, b, dt, ILS[il]); long n = (long)s * l * b * e; unsigned char *d = (unsigned char *)dup_bytes(m->data, n), *wv = (unsigned char *)dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  double ang = tenth / 10.0, th = ang * 3.14159265358979323846 / 180, C = cos(th), S = sin(th); hyper_mat r = hyper_mat_rotate(m, ang); sx_assert(r != NULL, "a cube is returned"); sx_assert(r->bands == b && r->data_type == dt && same_il(r->interleave, "bip"), "bands, type and by-pixel layout"); check_bytes(r->wavelength, wv, 4 * b, "wavelengths kept");
  int w2 = (s + 1) / 2 * 2, h2 = (l + 1) / 2 * 2; double W = w2 * fabs(C) + h2 * fabs(S), H = h2 * fabs(C) + w2 * fabs(S); sx_assert(r->samples <= W + 0.01 && r->samples >= W - 1.01 && r->lines <= H + 0.01 && r->lines >= H - 1.01, "the bounding box of the turned cube"); int right = tenth % 900 == 0; if (right) sx_assert(r->samples == (int)(W + 0.5) && r->lines == (int)(H + 0.5), "right angles keep the size");
  unsigned char *o = (unsigned char *)r->data; int got = 0;
  for (int x = 0; x < r->lines; x++) for (int y = 0; y < r->samples; y++) {
    int hit = 0; int ok[64], k = 0, cand[64];
    for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) { double X = (i - (l - 1) / 2.0) * C + (j - (s - 1) / 2.0) * S + (r->lines - 1) / 2.0, Y = (j - (s - 1) / 2.0) * C - (i - (l - 1) / 2.0) * S + (r->samples - 1) / 2.0; double dx = fabs(X - x), dy = fabs(Y - y); if (dx < 0.501 && dy < 0.501 && k < 64) { cand[k++] = i * s + j; if (dx < 0.499 && dy < 0.499) hit = 1; } }
    int any = 0; unsigned char *p = o + ((long)x * r->samples + y) * b * e; int z = 1; for (int q = 0; q < b * e; q++) z &= p[q] == 0; if (!hit) any = z;
    for (int a = 0; a < k; a++) { int eq = 1; for (int bb = 0; bb < b; bb++) for (int q = 0; q < e; q++) eq &= p[bb * e + q] == d[pos(ILS[il], s, l, b, cand[a] / s, cand[a] % s, bb) * e + q]; any |= eq; }
    sx_assert(any, "every pixel is zero or the spectrum of the source pixel turned onto it"); got += hit;
    (void)ok;
  }
  if (right && s % 2 == 0 && l % 2 == 0) sx_assert(got == s * l, "right angles keep every pixel of an even-sized cube");
  sx_observe("n", r->samples * 1000 + r->lines); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(m->wavelength, wv, 4 * b, "input wavelengths kept"); convert2bsq(m); for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) for (int q = 0; q < e; q++) sx_assert(((unsigned char *)m->data)[pos("bsq", s, l, b, i, j, k) * e + q] == d[pos(ILS[il], s, l, b, i, j, k) * e + q], "the input keeps its values"); free_cube(m);
}
