#include "hm.h"
typedef hyper_mat (*conv)(hyper_mat); typedef void (*inpl)(hyper_mat);
static hyper_mat convert(int from, int to, hyper_mat m) {
  if (from == 0) return to == 1 ? bsq2bil(m) : bsq2bip(m);
  if (from == 1) return to == 0 ? bil2bsq(m) : bil2bip(m);
  return to == 0 ? bip2bsq(m) : bip2bil(m);
}
static void inplace(int to, hyper_mat m) { if (to == 0) convert2bsq(m); else if (to == 1) convert2bil(m); else convert2bip(m); }
static void expect(const hyper_mat got, const char *toil, const unsigned char *src, const char *fromil, int s, int l, int b, int dt) {
  int e = esz(dt); long n = (long)s * l * b * e; unsigned char *want = (unsigned char *)malloc(n);
  for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) memcpy(want + pos(toil, s, l, b, i, j, k) * e, src + pos(fromil, s, l, b, i, j, k) * e, e);
  check_bytes(got->data, want, n, "every (line, sample, band) keeps its value"); free(want);
}
/* from/to: interleave pair, out of place */
void h_conv(void) {
  int s, l, b; pick_shape(&s, &l, &b); int dt = (int)sx_param("dt", 1), from = (int)sx_param("from", 0), to = (int)sx_param("to", 1);
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[from]); long n = (long)s * l * b * esz(dt); void *src = dup_bytes(m->data, n), *wv = dup_bytes(m->wavelength, 4 * b);
  hyper_mat r = convert(from, to, m); check_hdr(r, s, l, b, dt, ILS[to]); expect(r, ILS[to], src, ILS[from], s, l, b, dt);
  check_bytes(r->wavelength, wv, 4 * b, "wavelengths carried over"); check_bytes(m->data, src, n, "input pixels unchanged"); check_bytes(m->wavelength, wv, 4 * b, "input wavelengths unchanged"); check_hdr(m, s, l, b, dt, ILS[from]);
  sx_observe("first", ((unsigned char *)r->data)[0]); sx_observe("last", ((unsigned char *)r->data)[n - 1]);
  /* round trip */
  hyper_mat t = convert(to, from, r); check_hdr(t, s, l, b, dt, ILS[from]); check_bytes(t->data, src, n, "round trip restores the pixels"); check_bytes(t->wavelength, wv, 4 * b, "round trip restores the wavelengths");
  delete_hyper_mat(t); delete_hyper_mat(r); free_cube(m);
}
/* already in the target interleave: an equal, independent copy */
void h_same(void) {
  int s, l, b; pick_shape(&s, &l, &b); int dt = (int)sx_param("dt", 1), from = (int)sx_param("from", 0), to = (int)sx_param("to", 1);
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[to]); long n = (long)s * l * b * esz(dt); void *src = dup_bytes(m->data, n), *wv = dup_bytes(m->wavelength, 4 * b);
  hyper_mat r = convert(from, to, m); check_hdr(r, s, l, b, dt, ILS[to]); sx_assert(r->data != m->data, "independent pixels"); check_bytes(r->data, src, n, "equal pixels"); check_bytes(r->wavelength, wv, 4 * b, "equal wavelengths");
  memset(r->data, 0, n); check_bytes(m->data, src, n, "input untouched"); delete_hyper_mat(r); free_cube(m);
}
void h_inplace(void) {
  int s, l, b; pick_shape(&s, &l, &b); int dt = (int)sx_param("dt", 1), from = (int)sx_param("from", 0), to = (int)sx_param("to", 1);
  hyper_mat m = sym_cube("px", s, l, b, dt, ILS[from]); long n = (long)s * l * b * esz(dt); void *src = dup_bytes(m->data, n), *wv = dup_bytes(m->wavelength, 4 * b); void *p = m->data;
  long h0 = sx_live_heap(); inplace(to, m); sx_assert(sx_live_heap() == h0, "no memory retained"); check_hdr(m, s, l, b, dt, ILS[to]); sx_assert(m->data == p, "converted in place");
  expect(m, ILS[to], src, ILS[from], s, l, b, dt); check_bytes(m->wavelength, wv, 4 * b, "wavelengths kept"); sx_observe("last", ((unsigned char *)m->data)[n - 1]);
  inplace(from, m); check_hdr(m, s, l, b, dt, ILS[from]); check_bytes(m->data, src, n, "round trip in place restores the pixels"); free_cube(m);
}
