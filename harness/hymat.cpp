#include "cxx_src/precomp.hpp"
#include "hm.h"
using namespace hypercv;
#ifdef SX_ENGINE
void *operator new(size_t n) { return malloc(n); } void *operator new[](size_t n) { return malloc(n); } void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
namespace std { void __throw_length_error(const char *) { exit(9); } void __throw_logic_error(const char *) { exit(9); } void __throw_bad_alloc() { exit(9); } void __throw_out_of_range_fmt(const char *, ...) { exit(9); } void __throw_bad_array_new_length() { exit(9); } }
#endif
static const int FMT[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
static void chk(HyMat &m, int s, int l, int b, int dt, int il) { sx_assert(m.samples == s && m.lines == l && m.bands == b, "dimensions"); sx_assert(m.dataType == dt && m.format == FMT[il] && same_il(m.interleave, ILS[il]), "type and layout"); sx_assert(m.elemSize == esz(dt) && m.dataSize == (long)s * l * b * esz(dt), "element and data size"); sx_assert(m.data != NULL && m.wavelength != NULL && (void *)m.wavelength != m.data, "pixel and wavelength storage"); sx_assert(m.empty() == 0, "not empty"); }
static void fill(HyMat &m) { sx_make_symbolic(m.data, m.dataSize, "px"); sx_make_symbolic(m.wavelength, 4 * m.bands, "wave"); }
extern "C" {
void x_create(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); long n = (long)s * l * b * esz(dt), h0 = sx_live_heap(); HyMat e; sx_assert(e.empty() == 1 && e.data == NULL && e.wavelength == NULL, "a default cube is empty"); sx_assert(sx_live_heap() == h0, "and holds nothing"); int how = (int)sx_param("how", 0); HyMat m;
  if (how == 0) m = HyMat(s, l, b, dt, FMT[il]); else if (how == 1) m.create(s, l, b, dt, FMT[il]); else if (how == 2) { void *d = malloc(n); sx_make_symbolic(d, n, "px"); void *w = dup_bytes(d, n); m = HyMat(s, l, b, dt, FMT[il], d); sx_assert(m.data == d, "the caller's pixels are used in place"); check_bytes(m.data, w, n, "and keep their values"); free(w); }
  else if (how == 3) { void *d = malloc(n), *v = malloc(4 * b); sx_make_symbolic(d, n, "px"); sx_make_symbolic(v, 4 * b, "wave"); void *w = dup_bytes(d, n), *u = dup_bytes(v, 4 * b); m = HyMat(s, l, b, dt, FMT[il], d, (float *)v); sx_assert(m.data == d && (void *)m.wavelength == v, "the caller's pixels and wavelengths are used in place"); check_bytes(m.data, w, n, "and keep their values"); check_bytes(m.wavelength, u, 4 * b, "and keep their values"); free(w); free(u); }
  else { m = HyMat(2, 3, 1, 2, HYPERCV_BIP); long one = sx_live_heap(); m.create(s, l, b, dt, FMT[il]); sx_assert(sx_live_heap() == one, "creating again releases the old storage"); }
  chk(m, s, l, b, dt, il); if (how < 2 || how == 4) { void *z = calloc(n, 1); check_bytes(m.data, z, n, "pixels start at zero"); free(z); } if (how != 3) for (int i = 0; i < b; i++) sx_assert(m.wavelength[i] == 0, "wavelengths start at zero"); if (how < 2) { m.release(); m.samples = s; m.lines = l; m.bands = b; m.dataType = dt; m.format = FMT[il]; m.create(); chk(m, s, l, b, dt, il); }
  m.release(); sx_assert(m.data == NULL && m.wavelength == NULL && m.empty() == 1 && m.samples == 0 && m.lines == 0 && m.bands == 0, "releasing empties the cube"); sx_assert(sx_live_heap() == h0, "and frees everything"); m.release(); sx_assert(sx_live_heap() == h0, "releasing again does nothing"); sx_observe("ok", n);
}
void x_create_bad(void) { int a[5] = {2, 2, 2, 1, 0}, w = (int)sx_param("which", 0), f = (int)sx_param("f", 0); if (w < 3) { a[w] = sx_int("v"); sx_assume(a[w] <= 0); } else if (w == 3) { a[3] = sx_int("dt"); for (int i = 0; i < 9; i++) sx_assume(a[3] != DTS[i]); } else { a[4] = sx_int("fmt"); sx_assume(a[4] < 0 || a[4] > 2); } sxf_put("r.raw", "abcdefghijklmnop", 16); HyMat m(1, 1, 1, 1, HYPERCV_BSQ); sx_exit_mode(1); if (f == 0) HyMat q(a[0], a[1], a[2], a[3], a[4]); else if (f == 1) m.create(a[0], a[1], a[2], a[3], a[4]); else if (f == 2) m.open("r.raw", a[0], a[1], a[2], a[3], a[4]); else hmread("r.raw", a[0], a[1], a[2], a[3], a[4]); sx_assert(0, "sizes, types and layouts outside the contract are refused"); }
void x_copy(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); long h00 = sx_live_heap(); HyMat e, ec = e.copy(); sx_assert(ec.empty() == 1 && sx_live_heap() == h00, "copying an empty cube gives an empty one"); HyMat m(s, l, b, dt, FMT[il]); fill(m); long n = m.dataSize; void *d = dup_bytes(m.data, n), *w = dup_bytes(m.wavelength, 4 * b); long h0 = sx_live_heap();
  HyMat c = m.copy(); chk(c, s, l, b, dt, il); check_bytes(c.data, d, n, "pixels copied"); check_bytes(c.wavelength, w, 4 * b, "wavelengths copied"); memset(c.data, 7, n); memset(c.wavelength, 7, 4 * b); check_bytes(m.data, d, n, "the copy is independent"); check_bytes(m.wavelength, w, 4 * b, "in its wavelengths too"); chk(m, s, l, b, dt, il); c.CopyData(d, n); check_bytes(c.data, d, n, "CopyData stores the given bytes"); memset(c.data, 9, n); c.CopyData(d); check_bytes(c.data, d, n, "of the whole cube by default"); c.CopyData(NULL); check_bytes(c.data, d, n, "and nothing for no data"); c.CopyWaveLength((float *)w); check_bytes(c.wavelength, w, 4 * b, "CopyWaveLength stores all wavelengths"); c.CopyWaveLength(NULL); check_bytes(c.wavelength, w, 4 * b, "and nothing for none"); void *p1 = malloc(n), *p2 = malloc(4 * b); memcpy(p1, c.data, n); memset(p2, 0x55, 4 * b); if (b > 1) { c.CopyWaveLength((float *)p2, 1); sx_assert(c.wavelength[0] == ((float *)p2)[0], "a prefix when a number is given"); check_bytes(c.wavelength + 1, (float *)w + 1, 4 * (b - 1), "and nothing else"); } free(p1); free(p2);
  c.release(); sx_assert(sx_live_heap() == h0, "releasing the copy frees it"); check_bytes(m.data, d, n, "and leaves the source"); sx_observe("p", ((unsigned char *)m.data)[n - 1]); m.release();
}
void x_convert(void) {
  int dt = (int)sx_param("dt", 1), f = (int)sx_param("from", 0), t = (int)sx_param("to", 1), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt); HyMat m(s, l, b, dt, FMT[f]); fill(m); long n = m.dataSize; unsigned char *d = (unsigned char *)dup_bytes(m.data, n), *w = (unsigned char *)malloc(n); void *wv = dup_bytes(m.wavelength, 4 * b); for (int i = 0; i < l; i++) for (int j = 0; j < s; j++) for (int k = 0; k < b; k++) memcpy(w + pos(ILS[t], s, l, b, i, j, k) * e, d + pos(ILS[f], s, l, b, i, j, k) * e, e); long h0 = sx_live_heap();
  if (f != t) { HyMat c = f == 0 ? (t == 1 ? bsq2bil(m) : bsq2bip(m)) : f == 1 ? (t == 0 ? bil2bsq(m) : bil2bip(m)) : (t == 0 ? bip2bsq(m) : bip2bil(m)); chk(c, s, l, b, dt, t); check_bytes(c.data, w, n, "every element at its place in the new layout"); check_bytes(c.wavelength, wv, 4 * b, "wavelengths kept"); check_bytes(m.data, d, n, "source unchanged"); check_bytes(m.wavelength, wv, 4 * b, "source wavelengths unchanged"); memset(c.data, 3, n); memset(c.wavelength, 3, 4 * b); check_bytes(m.data, d, n, "the result is independent"); check_bytes(m.wavelength, wv, 4 * b, "the result's wavelengths are independent"); chk(m, s, l, b, dt, f); c.release(); sx_assert(sx_live_heap() == h0, "nothing retained"); }
  m.convertTo(FMT[t]); chk(m, s, l, b, dt, t); check_bytes(m.data, w, n, "in-place conversion places every element"); check_bytes(m.wavelength, wv, 4 * b, "wavelengths kept in place"); sx_assert(sx_live_heap() == h0, "in-place conversion retains nothing"); m.convertTo(FMT[f]); chk(m, s, l, b, dt, f); check_bytes(m.data, d, n, "converting back restores every byte"); sx_observe("p", ((unsigned char *)m.data)[n - 1]);
}
void x_convert_same(void) { int f = (int)sx_param("f", 0), s, l, b; pick_shape(&s, &l, &b); static const int T[4] = {1, 2, 0, 1}; int t = f < 4 ? T[f] : 0; HyMat m(s, l, b, 2, FMT[t]); fill(m); void *d = dup_bytes(m.data, m.dataSize), *w = dup_bytes(m.wavelength, 4 * b); HyMat c = f == 0 ? bsq2bil(m) : f == 1 ? bsq2bip(m) : f == 2 ? bip2bsq(m) : bip2bil(m); chk(c, s, l, b, 2, t); sx_assert(c.data != m.data && c.wavelength != m.wavelength, "an independent copy"); check_bytes(c.data, d, m.dataSize, "equal to the source"); check_bytes(c.wavelength, w, 4 * b, "with its wavelengths"); }
void x_convert_bad(void) { int f = (int)sx_param("f", 0); static const int B[6] = {2, 1, 1, 0, 0, 0}; HyMat m(2, 2, 2, 1, FMT[f < 4 ? B[f] : (int)sx_choose("il", 0, 1) * 2]); sx_exit_mode(1); if (f == 0) bsq2bil(m); else if (f == 1) bsq2bip(m); else if (f == 2) bip2bsq(m); else if (f == 3) bip2bil(m); else if (f == 4) bil2bsq(m); else if (f == 5) bil2bip(m); else { int v = sx_int("fmt"); sx_assume(v < 0 || v > 2); m.convertTo(v); } sx_assert(0, "another source layout or an unknown target is refused"); }
static void iv(const char *a, const char *c, int n, int *s, int *e) { *s = (int)sx_choose(a, 0, n - 1); *e = (int)sx_choose(c, *s + 1, n); }
void x_range(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); int e = esz(dt); HyMat m(s, l, b, dt, FMT[il]); fill(m); int r0, r1, c0, c1, b0, b1; if (!sx_param("big", 0)) { iv("r0", "r1", l, &r0, &r1); iv("c0", "c1", s, &c0, &c1); iv("b0", "b1", b, &b0, &b1); } else { int v = (int)sx_choose("variant", 0, 3); r0 = c0 = b0 = 0; r1 = l; c1 = s; b1 = b; if (v == 1) { r0 = l / 3; c0 = s / 3; b0 = b / 3; } if (v == 2) { r1 = (l + 1) / 2; c1 = (s + 1) / 2; b1 = (b + 1) / 2; } if (v == 3) { r0 = l - 1; c0 = s - 1; b0 = b - 1; } }
  unsigned char *d = (unsigned char *)dup_bytes(m.data, m.dataSize); float *w = (float *)dup_bytes(m.wavelength, 4 * b); long h0 = sx_live_heap(); HyMat r = m.range(r0, c0, b0, r1, c1, b1); int S = c1 - c0, L = r1 - r0, B = b1 - b0; chk(r, S, L, B, dt, il); long n = r.dataSize; unsigned char *x = (unsigned char *)malloc(n); for (int i = 0; i < L; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) memcpy(x + pos(ILS[il], S, L, B, i, j, k) * e, d + pos(ILS[il], s, l, b, i + r0, j + c0, k + b0) * e, e); check_bytes(r.data, x, n, "the elements of the range"); check_bytes(r.wavelength, w + b0, 4 * B, "the wavelengths of its bands"); check_bytes(m.data, d, m.dataSize, "source unchanged"); check_bytes(m.wavelength, w, 4 * b, "source wavelengths unchanged"); memset(r.data, 1, n); check_bytes(m.data, d, m.dataSize, "the range is independent"); sx_observe("p", x[n - 1]); free(x); r.release(); sx_assert(sx_live_heap() == h0, "nothing retained");
}
void x_range_bad(void) { int il = (int)sx_param("il", 0), which = (int)sx_param("which", 0); HyMat m(3, 2, 4, 2, FMT[il]); int r0 = sx_int("r0"), r1 = sx_int("r1"), c0 = sx_int("c0"), c1 = sx_int("c1"), b0 = sx_int("b0"), b1 = sx_int("b1"); sx_assume(r0 >= -3 && r0 <= 7 && r1 >= -3 && r1 <= 7 && c0 >= -3 && c0 <= 7 && c1 >= -3 && c1 <= 7 && b0 >= -3 && b0 <= 7 && b1 >= -3 && b1 <= 7); int okr = r0 >= 0 && r0 < r1 && r1 <= 2, okc = c0 >= 0 && c0 < c1 && c1 <= 3, okb = b0 >= 0 && b0 < b1 && b1 <= 4; sx_assume(which == 0 ? !okr && okc && okb : which == 1 ? okr && !okc && okb : okr && okc && !okb); sx_exit_mode(1); m.range(r0, c0, b0, r1, c1, b1); sx_assert(0, "a range outside the cube is refused"); }
static const float WX[] = {400.5f, 0, 2500.125f, 1.0f, 123456.789f, 999.9999f, 31.4159265f, 0.1f};
static int near_w(float g, float w) { double d = (double)g - w, a = w < 0 ? -w : w, tol = 5.1e-7 + a * 1.2e-7; return (d <= tol) & (d >= -tol); }
void x_save(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); HyMat m(s, l, b, dt, FMT[il]); fill(m); for (int i = 0; i < b; i++) m.wavelength[i] = WX[(i + dt) % 8]; long n = m.dataSize; void *d = dup_bytes(m.data, n); float *w = (float *)dup_bytes(m.wavelength, 4 * b); if (sx_in_engine() || 1) { HyMat q(1, 1, 1, 1, HYPERCV_BSQ); q.save("warm.img"); q.release(); } long h0 = sx_live_heap(); int o0 = sxf_open_handles(); m.save("cube.img"); sx_assert(sxf_open_handles() == o0, "every file is closed"); sx_assert(!sx_in_engine() || sx_live_heap() == h0, "nothing retained"); check_bytes(m.data, d, n, "saving does not change the cube"); chk(m, s, l, b, dt, il);
  char *f = (char *)malloc(n + 8); long fl = sxf_get("cube.img", f, n + 8); sx_assert(fl == n, "the image file holds exactly the pixels"); check_bytes(f, d, n, "in order"); free(f); HyMat r = hmread("cube.img", "cube.img.hdr"); chk(r, s, l, b, dt, il); check_bytes(r.data, d, n, "reading back gives the pixels"); for (int i = 0; i < b; i++) sx_assert(near_w(r.wavelength[i], w[i]), "and the wavelengths to printed precision"); HyMat t(1, 1, 1, 2, HYPERCV_BIL); t.open("cube.img", "cube.img.hdr"); chk(t, s, l, b, dt, il); check_bytes(t.data, d, n, "opening into an existing cube replaces it"); t.release();
  hyper_mat c = hmread_with_hdr("cube.img", "cube.img.hdr"); check_hdr(c, s, l, b, dt, ILS[il]); check_bytes(c->data, d, n, "the C reader gives the same cube"); for (int i = 0; i < b; i++) sx_assert(near_w(c->wavelength[i], w[i]), "with its wavelengths"); hmsave("c2.img", c); HyMat u = hmread("c2.img", "c2.img.hdr"); chk(u, s, l, b, dt, il); check_bytes(u.data, d, n, "and reads what the C writer wrote"); delete_hyper_mat(c); r.release(); u.release(); sx_assert(sxf_open_handles() == o0, "every file is closed after reading"); sx_observe("n", n);
}
static const char *far_(const char *nm) { static char t[4][1024]; static int w; int rep = (int)sx_param("path", 0); char *d = t[w++ & 3]; d[0] = 0; for (int i = 0; i < rep; i++) { d[2 * i] = '.'; d[2 * i + 1] = '/'; d[2 * i + 2] = 0; } strcat(d, nm); return d; }
void x_raw(void) { int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); long n = (long)s * l * b * esz(dt); int more = (int)sx_choose("more", 0, 1) * 3; unsigned char *d = (unsigned char *)malloc(n + 3); sx_make_symbolic(d, n + 3, "file"); sxf_put(far_("r.raw"), d, n + more); long h0 = sx_live_heap(); int o0 = sxf_open_handles(); HyMat m = hmread(far_("r.raw"), s, l, b, dt, FMT[il]); chk(m, s, l, b, dt, il); check_bytes(m.data, d, n, "the pixels in file order"); for (int i = 0; i < b; i++) sx_assert(m.wavelength[i] == 0, "no wavelengths"); m.open(far_("r.raw"), s, l, b, dt, FMT[il]); check_bytes(m.data, d, n, "again when opened into the cube"); sx_assert(sxf_open_handles() == o0, "the file is closed"); sx_observe("p", d[n - 1]); m.release(); sx_assert(sx_live_heap() == h0, "nothing retained"); HyMat z = hmread("none.raw", s, l, b, dt, FMT[il]); chk(z, s, l, b, dt, il); for (long i = 0; i < n && i < 300; i++) sx_assert(((unsigned char *)z.data)[i] == 0, "a missing file leaves the cube zero"); z.release(); HyMat y = hmread(NULL, "x"); sx_assert(y.empty() == 1, "no path, no cube"); HyMat y2 = hmread("x", (const char *)NULL); sx_assert(y2.empty() == 1, "no header path, no cube"); sx_assert(sx_live_heap() == h0, "nothing retained"); }
/* header in foreign formatting */
static char tb[20000]; static int tn; static void tx(const char *s) { while (*s) tb[tn++] = *s++; } static void tnum(int v) { char t[16]; int k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) tb[tn++] = t[--k]; }
static const char *EX[] = {"description = {\n  A file. }\n", "header offset = 0\n", "file type = ENVI Standard\n", "sensor type = Unknown\n", "byte order = 0\n", "wavelength units = Nanometers\n", "band names = {\n Band 1,\n Band 2 }\n", "data ignore value = 0\n", "\n", "map info = {UTM, 1.000, 1.000, 303600.00000000000000000000000, 4900000.000}\n", "default bands = {2,1,1}\n"};
void x_header(void) {
  int rot = (int)sx_param("rot", 0), ex = (int)sx_param("extra", -1), wl = (int)sx_param("wl", 1), il = (int)sx_param("il", 0), dt = (int)sx_param("dt", 1), eq = (int)sx_param("eq", 0), crlf = (int)sx_param("crlf", 0), wv = (int)sx_param("wvar", 0), S = (int)sx_param("s", 2), L = (int)sx_param("l", 1), B = (int)sx_param("b", 3); static const char *EQ[] = {" = ", "=", "   =   "}; double sl[300]; int nw = wv == 1 ? B - 1 : wv == 2 ? B + 1 : B; tn = 0; tx("ENVI\n");
  for (int q = 0; q < 6; q++) { if (ex >= 0 && q == (ex + rot) % 6) tx(EX[ex]); int k = (q + rot) % 5; if (q == 5) k = 5; if (k == 0) { tx("samples"); tx(EQ[eq]); tnum(S); tx("\n"); } if (k == 1) { tx("lines"); tx(EQ[eq]); tnum(L); tx("\n"); } if (k == 2) { tx("bands"); tx(EQ[eq]); tnum(B); tx("\n"); } if (k == 3) { tx("data type"); tx(EQ[eq]); tnum(dt); tx("\n"); } if (k == 4) { tx("interleave"); tx(EQ[eq]); tx(ILS[il]); tx("\n"); }
    if (k == 5 && wl) { tx("wavelength = {"); if (wl > 1) tx("\n"); for (int i = 0; i < nw; i++) { int a = i < 5 ? (int)sx_bits("digit", 4) : i % 10; sx_assume(a < 10); if (wl == 3) tx("  "); int fr = (i + rot) % 3; if (fr == 2) tx("4"); tb[tn++] = (char)('0' + a); if (fr) tx(".25"); if (i + 1 < nw) tx(","); else if (wl != 4) tx("}"); if (wl == 3 || (wl == 2 && i % 2)) tx("\n"); if (i < B) sl[i] = (fr == 2 ? 40 : 0) + a + (fr ? .25 : 0); } if (wl == 4) tx("\n}"); tx("\n"); } }
  if (crlf) { static char t2[20000]; int k = 0; for (int i = 0; i < tn; i++) { if (tb[i] == '\n') t2[k++] = '\r'; t2[k++] = tb[i]; } sxf_put(far_("c.hdr"), t2, k); } else sxf_put(far_("c.hdr"), tb, tn);
  long n = (long)S * L * B * esz(dt); unsigned char *d = (unsigned char *)malloc(n); if (n > 20000) { for (long i = 0; i < n; i++) d[i] = (unsigned char)(i * 7 % 251); sx_make_symbolic(d, 1, "first"); sx_make_symbolic(d + n - 1, 1, "last"); } else sx_make_symbolic(d, n, "px"); sxf_put(far_("c.img"), d, n); int o0 = sxf_open_handles(); long h0 = sx_live_heap(); HyMat m = hmread(far_("c.img"), far_("c.hdr")); chk(m, S, L, B, dt, il); check_bytes(m.data, d, n, "the pixels in file order"); for (int i = 0; i < B; i++) { double v = wl && i < nw ? sl[i] : 0, e = (double)m.wavelength[i] - v; sx_assert((e < 1e-5) & (e > -1e-5), "wavelength of each band from the list, zero for unlisted ones"); } sx_assert(sxf_open_handles() == o0, "every file is closed"); m.release(); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("n", n); int a1 = 3, a2 = 3, a3 = 3, a4 = 3, a5 = 3; readHdr(NULL, a1, a2, a3, a4, a5, NULL); readHdr("nothing.hdr", a1, a2, a3, a4, a5, NULL); sx_assert(a1 == 3 && a2 == 3 && a3 == 3 && a4 == 3 && a5 == 3, "no header, no change");
}
}
