#include "hm.h"
static void residue(void) { sx_heap_residue((int)sx_choose("residue", 0, 3) * 16); }
/* creation, with and without caller data / wavelengths */
void h_create(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), mode = (int)sx_param("mode", 0); if (sx_param("res", 1)) residue();
  int s, l, b; pick_shape(&s, &l, &b); long n = (long)s * l * b, e = esz(dt), by = n * e; void *d = NULL; float *w = NULL;
  if (mode & 1) { d = malloc(by); sx_make_symbolic(d, by, "px"); } if (mode & 2) { w = (float *)malloc(4 * b); sx_make_symbolic(w, 4 * b, "wave"); }
  void *dc = d ? dup_bytes(d, by) : NULL, *wc = w ? dup_bytes(w, 4 * b) : NULL; char name[4] = {ILS[il][0], ILS[il][1], ILS[il][2], 0};
  long h0 = sx_live_heap();
  hyper_mat m = mode == 0 ? create_hyper_mat(s, l, b, dt, name) : create_hyper_mat_with_data(s, l, b, dt, name, d, w);
  check_hdr(m, s, l, b, dt, ILS[il]); sx_assert(m->data != NULL && m->wavelength != NULL, "pixel and wavelength storage present");
  sx_assert(((uintptr_t)m->data & 63) == 0, "pixels start on a 64-byte boundary"); sx_assert(((uintptr_t)m->wavelength & 63) == 0, "wavelengths start on a 64-byte boundary");
  sx_assert(!hyper_mat_empty(m), "a created cube is not empty");
  char *p = (char *)m->data, *q = (char *)m->wavelength; sx_assert(p + by <= q || q + 4 * b <= p, "pixels and wavelengths do not overlap"); sx_assert((char *)(m + 1) <= p || p + by <= (char *)m, "header and pixels do not overlap");
  if (!d) { dc = calloc(by, 1); } if (!w) wc = calloc(b, 4);
  check_bytes(m->data, dc, by, "pixels are a copy of the caller's data, or zero"); check_bytes(m->wavelength, wc, 4 * b, "wavelengths are a copy of the caller's, or zero");
  if (d) { sx_assert(m->data != d, "pixels are a separate copy"); memset(d, 0x5a, by); check_bytes(m->data, dc, by, "pixels independent of the caller's buffer"); }
  if (w) { memset(w, 0x5a, 4 * b); check_bytes(m->wavelength, wc, 4 * b, "wavelengths independent of the caller's buffer"); }
  sx_observe("p0", ((unsigned char *)m->data)[by - 1]);
  memset(m->data, 0x33, by); memset(m->wavelength, 0x44, 4 * b);   /* the whole extent is writable and the header survives */
  check_hdr(m, s, l, b, dt, ILS[il]); memset(q, 0x44, 4 * b); for (long i = 0; i < by; i += by > 64 ? by / 64 : 1) sx_assert(((unsigned char *)m->data)[i] == 0x33, "pixels survive a wavelength write");
  delete_hyper_mat(m); sx_assert(sx_live_heap() == h0 + (d ? 0 : 1) + (w ? 0 : 1), "deletion releases everything"); sx_assert(hyper_mat_empty(NULL) == 1, "NULL is empty"); delete_hyper_mat(NULL);
}
/* arguments outside the contract never yield a cube */
void h_reject(void) {
  int which = (int)sx_param("which", 0), s = sx_int("s"), l = sx_int("l"), b = sx_int("b"); int dt = 1;
  sx_assume(s <= 3 && l <= 3 && b <= 3 && s >= -40000 && l >= -40000 && b >= -40000);
  if (which < 3) { sx_assume(which == 0 ? s <= 0 : s > 0); sx_assume(which == 1 ? l <= 0 : l > 0); sx_assume(which == 2 ? b <= 0 : b > 0); dt = DTS[sx_param("dti", 0)]; }
  else { sx_assume(s > 0 && l > 0 && b > 0); dt = BADDT[sx_choose("bad", 0, 9)]; }
  sx_exit_mode(1); hyper_mat m = sx_param("data", 0) ? create_hyper_mat_with_data(s, l, b, dt, "bsq", NULL, NULL) : create_hyper_mat(s, l, b, dt, "bsq");
  sx_assert(m == NULL, "an invalid shape or type never yields a cube");
}
/* every element-size code, including the invalid ones */
void h_elemsize(void) {
  int dt = sx_int("dt"); int g = get_elemsize(dt);
  int ok = dt == 1 || dt == 2 || dt == 3 || dt == 4 || dt == 5 || dt == 12 || dt == 13 || dt == 14 || dt == 15;
  sx_assert(ok ? g == (dt == 1 ? 1 : dt == 2 || dt == 12 ? 2 : dt == 3 || dt == 4 || dt == 13 ? 4 : 8) : g <= 0, "element size of every type code");
}
/* C02: copies */
void h_copy(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0); int s, l, b; pick_shape(&s, &l, &b); long by = (long)s * l * b * esz(dt);
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[il]); void *d = dup_bytes(m->data, by), *w = dup_bytes(m->wavelength, 4 * b); long h0 = sx_live_heap();
  hyper_mat c = hyper_mat_copy(m); check_hdr(c, s, l, b, dt, ILS[il]); sx_assert(c != m && c->data != m->data && c->wavelength != m->wavelength, "separate storage");
  check_bytes(c->data, d, by, "equal pixels"); check_bytes(c->wavelength, w, 4 * b, "equal wavelengths"); sx_observe("last", ((unsigned char *)c->data)[by - 1]);
  memset(c->data, 0x11, by); memset(c->wavelength, 0x22, 4 * b); c->samples = 99; check_bytes(m->data, d, by, "source pixels unaffected by the copy"); check_bytes(m->wavelength, w, 4 * b, "source wavelengths unaffected by the copy"); check_hdr(m, s, l, b, dt, ILS[il]);
  delete_hyper_mat(c); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(m->data, d, by, "source pixels survive deleting the copy");
  c = hyper_mat_copy(m); free_cube(m); check_bytes(c->data, d, by, "the copy survives deleting the source"); check_bytes(c->wavelength, w, 4 * b, "the copy's wavelengths survive deleting the source"); delete_hyper_mat(c);
  sx_assert(hyper_mat_copy(NULL) == NULL, "copy of nothing is nothing");
}
void h_copy_to(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), il2 = (int)sx_param("il2", 1); int s, l, b; pick_shape(&s, &l, &b); long by = (long)s * l * b * esz(dt);
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[il]), t = sym_cube("old", s, l, b, dt, ILS[il2]); void *d = dup_bytes(m->data, by), *w = dup_bytes(m->wavelength, 4 * b), *td = t->data; float *tw = t->wavelength; long h0 = sx_live_heap();
  hyper_mat_copy_to(m, t); check_hdr(t, s, l, b, dt, ILS[il]); sx_assert(t->data == td && t->wavelength == tw, "destination keeps its own storage"); check_bytes(t->data, d, by, "equal pixels"); check_bytes(t->wavelength, w, 4 * b, "equal wavelengths");
  check_bytes(m->data, d, by, "source pixels unchanged"); check_bytes(m->wavelength, w, 4 * b, "source wavelengths unchanged"); check_hdr(m, s, l, b, dt, ILS[il]);
  memset(t->data, 0x11, by); check_bytes(m->data, d, by, "independent storage"); sx_assert(sx_live_heap() == h0, "nothing retained"); free_cube(m); free_cube(t);
}
void h_copy_wave(void) {
  int s, l, b; pick_shape(&s, &l, &b); int dt = DTS[sx_choose("dt", 0, 8)], dt2 = DTS[sx_choose("dt2", 0, 8)]; long by = (long)s * b * esz(dt), by2 = (long)l * b * esz(dt2);
  hyper_mat m = sym_cube("px", s, 1, b, dt, ILS[0]), t = sym_cube("old", 1, l, b, dt2, ILS[2]); void *d = dup_bytes(m->data, by), *w = dup_bytes(m->wavelength, 4 * b), *d2 = dup_bytes(t->data, by2);
  hyper_mat_copy_wavelength(m, t); check_bytes(t->wavelength, w, 4 * b, "wavelengths copied"); check_bytes(m->wavelength, w, 4 * b, "source wavelengths unchanged"); check_bytes(m->data, d, by, "source pixels unchanged"); check_bytes(t->data, d2, by2, "destination pixels unchanged");
  check_hdr(t, 1, l, b, dt2, ILS[2]); check_hdr(m, s, 1, b, dt, ILS[0]);
  void *old = dup_bytes(t->wavelength, 4 * b); free(m->wavelength); m->wavelength = NULL; hyper_mat_copy_wavelength(m, t); check_bytes(t->wavelength, old, 4 * b, "a source without wavelengths leaves the destination's alone");
  m->wavelength = (float *)malloc(4); free_cube(m); free_cube(t);
}
/* mismatching destinations are refused and nothing is written through them */
void h_copy_to_bad(void) {
  int which = (int)sx_param("which", 0); int s = 2, l = 2, b = 2, s2 = 2, l2 = 2, b2 = 2, dt = DTS[sx_choose("dt", 0, 8)], dt2 = dt; int k = (int)sx_choose("k", 1, 3); if (which < 3) sx_assume(k != 2);
  if (which == 0) s2 = k; if (which == 1) l2 = k; if (which == 2) b2 = k; if (which == 3) { dt2 = DTS[sx_choose("dt2", 0, 8)]; sx_assume(dt2 != dt); }
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[0]), t = sym_cube("old", s2, l2, b2, dt2, ILS[0]); sx_exit_mode(1);
  if (which == 4) { t->bands = 3; hyper_mat_copy_wavelength(m, t); } else hyper_mat_copy_to(m, t); sx_assert(0, "a mismatching destination is refused");
}
