#include "hm.h"
static char buf_[60000];
static int tlen; static void tx(const char *s) { while (*s) buf_[tlen++] = *s++; }
static void tnum(int v) { char t[16]; int k = 0; if (v < 0) { buf_[tlen++] = '-'; v = -v; } do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) buf_[tlen++] = t[--k]; }
static const float WL[] = {400.5f, 0, 2500.125f, 1.0f, -3.25f, 0.000001f, 123456.789f, 999.9999f, 31.4159265f, 16777216.0f, 0.1f, 7.654321e-5f, 1e9f};
/* ---- C04: saving a cube and reading it back ---- */
/* value of "key = value" in header text; -1 when there is no such line */
static int hdr_find(const char *t, int n, const char *key) { for (int i = 0; i < n;) { int j = i, k = 0; while (key[k] && j < n && t[j] == key[k]) { j++; k++; } if (!key[k]) { while (j < n && t[j] == ' ') j++; if (j < n && t[j] == '=') { j++; while (j < n && t[j] == ' ') j++; return j; } } while (i < n && t[i] != '\n') i++; i++; } return -1; }
static long hdr_int(const char *t, int n, const char *key) { int j = hdr_find(t, n, key); if (j < 0) return -999; long v = 0; int any = 0; while (j < n && t[j] >= '0' && t[j] <= '9') { v = v * 10 + t[j++] - '0'; any = 1; } return any ? v : -998; }
static int near_wl(float g, float w) { double d = (double)g - w, a = w < 0 ? -w : w, tol = 5.1e-7 + a * 1.2e-7; return (d <= tol) & (d >= -tol); }
static const char *NAMES[] = {"a", "cube.img", "a_rather_long_name.of.a.cube_file_with_dots.bsq.img"};
/* the same file by a long name: "./" many times over */
static const char *far_(const char *nm, int k) { static char t[4][1024]; static int w; int rep = (int)sx_param("path", 0); char *d = t[w++ & 3]; (void)k; d[0] = 0; for (int i = 0; i < rep; i++) { d[2 * i] = '.'; d[2 * i + 1] = '/'; d[2 * i + 2] = 0; } strcat(d, nm); return d; }
void h_save(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), nw = (int)sx_param("nowave", 0), s, l, b; pick_shape(&s, &l, &b); hyper_mat m = sym_cube("px", s, l, b, dt, ILS[il]); long n = (long)s * l * b * esz(dt); int w0 = (int)sx_param("w0", 0); for (int i = 0; i < b; i++) m->wavelength[i] = WL[(i + w0) % 13]; if (nw) { free(m->wavelength); m->wavelength = NULL; }
  void *d = dup_bytes(m->data, n); float *w = nw ? NULL : (float *)dup_bytes(m->wavelength, 4 * b); const char *nm = far_(NAMES[sx_choose("name", 0, 2)], 0); char hn[1100]; strcpy(hn, nm); strcat(hn, ".hdr");
  if (sx_choose("exists", 0, 1)) { for (int i = 0; i < 200; i++) buf_[i] = (char)('A' + i % 26); sxf_put(nm, buf_, 200); sxf_put(hn, buf_, 200); }
  int o0 = sxf_open_handles(); long h0 = sx_live_heap(); hmsave(nm, m); sx_assert(sxf_open_handles() == o0, "every file is closed"); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(m->data, d, n, "saving does not change the cube"); if (!nw) check_bytes(m->wavelength, w, 4 * b, "saving does not change the wavelengths"); check_hdr(m, s, l, b, dt, ILS[il]);
  char *f = (char *)malloc(n + 8); long fl = sxf_get(nm, f, n + 8); sx_assert(fl == n, "the image file holds exactly the pixels"); check_bytes(f, d, n, "the image file holds the pixels in order"); free(f);
  int hl = (int)sxf_get(hn, buf_, 50000); sx_assert(hl > 0 && hl < 50000, "a header is written beside the image"); sx_assert(buf_[0] == 'E' && buf_[1] == 'N' && buf_[2] == 'V' && buf_[3] == 'I' && (buf_[4] == '\n' || buf_[4] == '\r'), "ENVI magic line"); sx_assert(hdr_int(buf_, hl, "samples") == s, "samples in the header"); sx_assert(hdr_int(buf_, hl, "lines") == l, "lines in the header"); sx_assert(hdr_int(buf_, hl, "bands") == b, "bands in the header"); sx_assert(hdr_int(buf_, hl, "data type") == dt, "data type in the header"); int q = hdr_find(buf_, hl, "interleave"); sx_assert(q > 0 && q + 3 <= hl && buf_[q] == ILS[il][0] && buf_[q + 1] == ILS[il][1] && buf_[q + 2] == ILS[il][2], "interleave in the header");
  h0 = sx_live_heap(); hyper_mat r = hmread_with_hdr(nm, hn); check_hdr(r, s, l, b, dt, ILS[il]); check_bytes(r->data, d, n, "reading the file back gives the same pixels"); for (int i = 0; i < b; i++) sx_assert(near_wl(r->wavelength[i], nw ? 0 : w[i]), "wavelengths survive to the printed precision"); sx_assert(sxf_open_handles() == o0, "every file is closed after reading");
  sx_observe("p", ((unsigned char *)r->data)[n - 1]); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "reading retains nothing but the cube"); free(m->data); if (!nw) free(m->wavelength); free(m);
}
/* header writing alone, any positive sizes */
void h_writehdr(void) {
  static const int SZ[] = {1, 7, 10, 99, 100, 4096, 12345, 999999, 2147483647}; int s = SZ[sx_choose("s", 0, 8)], l = SZ[sx_choose("l", 0, 8)], b = (int)sx_choose("b", 1, 3), dt = DTS[sx_choose("dt", 0, 8)], il = (int)sx_choose("il", 0, 2); float w[3] = {WL[5], WL[6], WL[8]}; int o0 = sxf_open_handles(); long h0 = sx_live_heap(); writehdr("x.img", s, l, b, dt, ILS[il], w); sx_assert(sxf_open_handles() == o0 && sx_live_heap() == h0, "the header file is closed and nothing retained"); int hl = (int)sxf_get("x.img.hdr", buf_, 50000); sx_assert(hl > 0, "header written"); sx_assert(hdr_int(buf_, hl, "samples") == s, "samples in the header"); sx_assert(hdr_int(buf_, hl, "lines") == l, "lines in the header"); sx_assert(hdr_int(buf_, hl, "bands") == b, "bands in the header"); sx_assert(hdr_int(buf_, hl, "data type") == dt, "data type in the header");
}
/* ---- C05: headers as other programs write them ---- */
static const char *EXTRA[] = {"description = {\n  A file. }\n", "header offset = 0\n", "file type = ENVI Standard\n", "sensor type = Unknown\n", "byte order = 0\n", "wavelength units = Nanometers\n", "default bands = {2,1,1}\n", "band names = {\n Band 1,\n Band 2,\n Band 3 }\n", "map info = {UTM, 1.000, 1.000}\n", "; a comment\n", "\n", "data ignore value = 0\n", "x start = 1\ny start = 1\n", "z plot range = {0.00, 1.00}\n", "reflectance scale factor = 1000\n", "wavelength = unknown\n", "fwhm = {1, 2, 3}\n", "wavelengths = x\n"};
static const char *EQ[] = {" = ", "=", "   =   ", " =", "= "};
static void kv(const char *k, int eq, int sp) { tx(k); tx(EQ[eq]); if (sp) tx(" "); }
static int dat(int seed, int i) { return (seed * 31 + i * 7 + 3) & 255; }
void h_header(void) {
  int eq = (int)sx_param("eq", 0), rot = (int)sx_param("rot", 0), ex = (int)sx_param("extra", -1), exat = (int)sx_param("exat", 0), crlf = (int)sx_param("crlf", 0), wl = (int)sx_param("wl", 1), il = (int)sx_param("il", 0), dt = (int)sx_param("dt", 1), wvar = (int)sx_param("wvar", 0);
  int S = (int)sx_param("s", 0), L = (int)sx_param("l", 0), B = (int)sx_param("b", 0); if (!S) { S = (int)sx_choose("s", 1, 3); L = (int)sx_choose("l", 1, 3); B = (int)sx_choose("b", 1, 3); } int nw = wvar == 1 ? B - 1 : wvar == 2 ? B + 1 : B, pad = (int)sx_param("pad", 0);
  tlen = 0; tx("ENVI\n"); float *want = (float *)malloc((B + 2) * sizeof(float)); double *sl = (double *)malloc((B + 2) * sizeof(double)); int dg[8];
  for (int q = 0; q < 6; q++) { if (ex >= 0 && q == exat) tx(EXTRA[ex]); int k = (q + rot) % 6;
    if (k == 0) { kv("samples", eq, pad); if (pad) tx("0"); tnum(S); tx(pad ? "  \n" : "\n"); } if (k == 1) { kv(pad ? "lines  " : "lines", eq, pad); tnum(L); tx("\n"); } if (k == 2) { kv("bands", eq, pad); tnum(B); tx("\n"); } if (k == 3) { kv("data type", eq, pad); tnum(dt); tx("\n"); } if (k == 4) { kv("interleave", eq, pad); tx(ILS[il]); tx("\n"); }
    if (k == 5 && wl) { tx("wavelength = {"); if (wl == 2 || wl == 3) tx("\n"); if (wl == 4) tx(" "); for (int i = 0; i < nw; i++) { int a = i < 8 ? (int)sx_bits("digit", 4) : i % 10; sx_assume(a < 10); if (i < 8) dg[i] = a; if (wl == 3 || wl == 4) tx(" "); int fr = (i + rot) % 3; if (fr == 2) tx("4"); buf_[tlen++] = (char)('0' + a); if (fr) { tx(".25"); } if (i + 1 < nw) tx(","); else if (wl != 5) tx("}"); if (wl == 3 || (wl == 2 && i % 2 == 1)) tx("\n"); if (i < B) { sl[i] = (fr == 2 ? 40 : 0) + a + (fr ? .25 : 0); } } if (wl == 5) tx("\n}"); tx("\n"); }
  }
  if (ex >= 0 && exat == 6) tx(EXTRA[ex]);
  if (crlf) { static char t2[60000]; int k = 0; for (int i = 0; i < tlen; i++) { if (buf_[i] == '\n') t2[k++] = '\r'; t2[k++] = buf_[i]; } sxf_put(far_("c.hdr", 0), t2, k); } else sxf_put(far_("c.hdr", 0), buf_, tlen);
  long n = (long)S * L * B * esz(dt); unsigned char *d = (unsigned char *)malloc(n + 5); if (n > 20000) { for (long i = 0; i < n + 5; i++) d[i] = (unsigned char)(i * 7 % 251); sx_make_symbolic(d, 1, "first"); sx_make_symbolic(d + n - 1, 1, "last"); } else sx_make_symbolic(d, n + 5, "px"); sxf_put(far_("c.img", 0), d, n + (wvar == 3 ? 5 : 0));
  int o0 = sxf_open_handles(); long h0 = sx_live_heap(); hyper_mat r = hmread_with_hdr(far_("c.img", 0), far_("c.hdr", 1)); check_hdr(r, S, L, B, dt, ILS[il]); check_bytes(r->data, d, n, "the pixels in file order"); for (int i = 0; i < B; i++) { double v = wl && i < nw ? sl[i] : 0, e = (double)r->wavelength[i] - v; sx_assert((e < 1e-5) & (e > -1e-5), wl && i < nw ? "wavelength of each band from the list" : "bands without a listed wavelength have wavelength zero"); }
  sx_assert(sxf_open_handles() == o0, "every file is closed"); sx_observe("s", r->samples * 100 + r->lines * 10 + r->bands); delete_hyper_mat(r); sx_assert(sx_live_heap() == h0, "nothing retained"); free(want); free(sl); free(d);
}
/* a header that lacks a size, type or has an impossible one is refused */
void h_header_bad(void) {
  int miss = (int)sx_param("miss", 0), how = (int)sx_param("how", 0); tlen = 0; tx("ENVI\n"); static const char *K[] = {"samples", "lines", "bands", "data type", "interleave"}; for (int k = 0; k < 5; k++) { if (k == miss && how == 0) continue; tx(K[k]); tx(" = "); if (k == 4) tx("bsq"); else if (k == miss) { if (how == 1) tx("0"); else if (how == 2) tx("-2"); else if (how == 3) tx("x"); else tnum(BADDT[sx_choose("t", 0, 9)]); } else tnum(k == 3 ? 1 : 2); tx("\n"); } sxf_put("c.hdr", buf_, tlen); sxf_put("c.img", "abcdefghijk", 8); REJECTS(hmread_with_hdr("c.img", "c.hdr"), "an incomplete header is refused");
}
void h_missing(void) { int w = (int)sx_choose("which", 0, 3); tlen = 0; tx("ENVI\nsamples = 1\nlines = 1\nbands = 1\ndata type = 1\ninterleave = bsq\n"); if (w != 0 && w != 2) sxf_put("c.hdr", buf_, tlen); if (w != 1 && w != 2) sxf_put("c.img", "abc", 1); int o0 = sxf_open_handles(); long h0 = sx_live_heap(); hyper_mat r = w < 3 ? hmread_with_hdr("c.img", "c.hdr") : hmread_with_size("nothing.img", 1, 1, 1, 1, "bsq"); sx_assert(r == NULL, "no cube when a file is missing"); sx_assert(sxf_open_handles() == o0, "every file is closed"); sx_assert(sx_live_heap() == h0, "nothing retained"); }
/* ---- C07: raw readers ---- */
void h_raw(void) {
  int dt = (int)sx_param("dt", 1), il = (int)sx_param("il", 0), s, l, b; pick_shape(&s, &l, &b); long n = (long)s * l * b * esz(dt); int more = (int)sx_choose("more", 0, 1) * 3; unsigned char *d = (unsigned char *)malloc(n + 3); sx_make_symbolic(d, n + 3, "file"); sxf_put(far_("r.raw", 0), d, n + more); int o0 = sxf_open_handles(); long h0 = sx_live_heap();
  hyper_mat m = hmread_with_size(far_("r.raw", 0), s, l, b, dt, ILS[il]); check_hdr(m, s, l, b, dt, ILS[il]); check_bytes(m->data, d, n, "the pixels in file order"); for (int i = 0; i < b; i++) sx_assert(m->wavelength[i] == 0, "no wavelengths"); sx_assert(sxf_open_handles() == o0, "the file is closed"); sx_observe("p", ((unsigned char *)m->data)[n - 1]); delete_hyper_mat(m); sx_assert(sx_live_heap() == h0, "nothing retained"); free(d);
}
void h_rawimg(void) {
  int dt = (int)sx_param("dt", 1), s, l, b; pick_shape(&s, &l, &b); long n = (long)s * l * b * esz(dt); int more = (int)sx_choose("more", 0, 1) * 3; unsigned char *d = (unsigned char *)malloc(n + 3); sx_make_symbolic(d, n + 3, "file"); sxf_put(far_("r.raw", 0), d, n + more); int o0 = sxf_open_handles(); long h0 = sx_live_heap();
  simple_mat m = smread(far_("r.raw", 0), l, s, dt, b); check_img(m, l, s, dt, b); check_bytes(m->data, d, n, "the pixels in file order"); sx_assert(sxf_open_handles() == o0, "the file is closed"); sx_observe("p", ((unsigned char *)m->data)[n - 1]); delete_simple_mat(m); sx_assert(sx_live_heap() == h0, "nothing retained"); free(d);
}
void h_raw_bad(void) {
  int f = (int)sx_param("f", 0), w = (int)sx_param("which", 0), a[4] = {2, 2, 2, 1}; if (w < 3) { a[w] = sx_int("v"); sx_assume(a[w] <= 0 && a[w] >= -40000); } else if (w == 3) { a[3] = BADDT[sx_choose("t", 0, 9)]; } sxf_put("r.raw", "abcdefghijklmnop", 16); const char *nm = w == 4 ? "none.raw" : "r.raw"; sx_exit_mode(1);
  if (f) smread(nm, a[0], a[1], a[3], a[2]); else hmread_with_size(nm, a[0], a[1], a[2], a[3], "bsq"); sx_assert(0, "sizes and types outside the contract are refused");
}
/* ---- C06: bitmaps ---- */
static void p16(int v) { buf_[tlen++] = (char)(v & 255); buf_[tlen++] = (char)(v >> 8 & 255); } static void p32(long v) { p16((int)(v & 65535)); p16((int)(v >> 16 & 65535)); }
static long g32(const unsigned char *p) { return p[0] | p[1] << 8 | p[2] << 16 | (long)p[3] << 24; }
void h_bmp_write(void) {
  int ch = (int)sx_param("ch", 3), c = (int)sx_param("c", 0), r = (int)sx_param("r", 0); if (!c) { c = (int)sx_choose("c", 1, 5); r = (int)sx_choose("r", 1, 3); } simple_mat m = sym_img("px", r, c, 1, ch); long n = (long)r * c * ch; unsigned char *d = (unsigned char *)dup_bytes(m->data, n); int line = (c * 3 + 3) / 4 * 4; long want = 54 + (long)line * r; if (sx_choose("exists", 0, 1)) sxf_put(far_("o.bmp", 0), buf_, 3000);
  int o0 = sxf_open_handles(); long h0 = sx_live_heap(); smwrite_bmp(far_("o.bmp", 0), m); sx_assert(sxf_open_handles() == o0, "the file is closed"); sx_assert(sx_live_heap() == h0, "nothing retained"); check_bytes(m->data, d, n, "writing does not change the image"); check_img(m, r, c, 1, ch);
  unsigned char *f = (unsigned char *)malloc(want + 4); long fl = sxf_get(far_("o.bmp", 0), f, want + 4); sx_assert(fl == want, "file size"); sx_assert(f[0] == 'B' && f[1] == 'M', "bitmap signature"); sx_assert(g32(f + 2) == want, "file size field"); sx_assert(g32(f + 10) == 54 && g32(f + 14) == 40, "header sizes"); sx_assert(g32(f + 18) == c && g32(f + 22) == r, "width and height fields"); sx_assert(f[26] == 1 && f[27] == 0 && f[28] == 24 && f[29] == 0 && g32(f + 30) == 0, "one plane, 24 bits, uncompressed"); sx_assert(g32(f + 34) == 0 || g32(f + 34) == (long)line * r, "the image size field is that of the padded rows, or zero");
  unsigned char *w = (unsigned char *)malloc(3 * (long)r * c), *g = (unsigned char *)malloc(3 * (long)r * c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int k = 0; k < 3; k++) { long x = (i * c + j) * 3 + k; w[x] = d[ch == 3 ? x : i * c + j]; g[x] = f[54 + (long)(r - 1 - i) * line + j * 3 + 2 - k]; } check_bytes(g, w, 3 * (long)r * c, "rows bottom-up, blue first");
  h0 = sx_live_heap(); simple_mat t = smread_bmp(far_("o.bmp", 0)); check_img(t, r, c, 1, 3); check_bytes(t->data, w, 3 * (long)r * c, "reading the file back gives the image"); sx_assert(sxf_open_handles() == o0, "the file is closed after reading"); sx_observe("p", ((unsigned char *)t->data)[0]); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "reading retains nothing but the image"); free(f); free(w); free(g); free_img(m);
}
void h_bmp_read(void) {
  int bits = (int)sx_param("bits", 8), used = (int)sx_param("used", 0), hs = (int)sx_param("hs", 40), gap = (int)sx_param("gap", 0), c = (int)sx_param("c", 0), r = (int)sx_param("r", 0); if (!c) { c = (int)sx_choose("c", 1, 5); r = (int)sx_choose("r", 1, 3); } int line = (c * bits / 8 + 3) / 4 * 4, ncol = bits == 8 ? (used ? used : 256) : 0; long off = 14 + hs + 4 * ncol + gap; tlen = 0;
  tx("BM"); p32(off + (long)line * r); p32(0); p32(off); p32(hs); p32(c); p32(r); p16(1); p16(bits); p32(0); p32((long)line * r); p32(2835); p32(2835); p32(used); p32(0); while (tlen < 14 + hs) buf_[tlen++] = 7;
  sx_make_symbolic(buf_ + tlen, 4 * ncol + gap, "pal"); unsigned char *pal = (unsigned char *)buf_ + tlen; tlen += 4 * ncol + gap; unsigned char *px = (unsigned char *)buf_ + tlen; sx_make_symbolic(px, (long)line * r, "px"); tlen += line * r; int at = bits == 8 ? (int)sx_choose("at", 0, r * c > 3 ? 2 : r * c - 1) * (r * c > 3 ? (r * c - 1) / 2 : 1) : 0; if (bits == 8) for (int i = 0; i < r * c; i++) { unsigned char *q = px + i / c * line + i % c; if (i != at) *q = (unsigned char)((i * 37 + 11) % ncol); else sx_assume(*q < ncol); }
  sxf_put(far_("i.bmp", 0), buf_, tlen); int o0 = sxf_open_handles(); long h0 = sx_live_heap(); simple_mat t = smread_bmp(far_("i.bmp", 0)); check_img(t, r, c, 1, 3); unsigned char *w = (unsigned char *)malloc(3 * (long)r * c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) for (int k = 0; k < 3; k++) { unsigned char *row = px + (long)(r - 1 - i) * line; w[(i * c + j) * 3 + k] = bits == 8 ? pal[4 * row[j] + 2 - k] : row[3 * j + 2 - k]; }
  check_bytes(t->data, w, 3 * (long)r * c, "the picture the bitmap describes"); sx_assert(sxf_open_handles() == o0, "the file is closed"); sx_observe("p", ((unsigned char *)t->data)[0]); free(w); delete_simple_mat(t); sx_assert(sx_live_heap() == h0, "nothing retained but the image");
}
void h_bmp_bad(void) {
  int w = (int)sx_param("which", 0); sx_exit_mode(1); if (w == 0) smread_bmp("none.bmp"); else if (w == 1) { static const int BP[] = {1, 4, 16, 32, 0}; int bits = BP[sx_choose("bits", 0, 4)]; tlen = 0; tx("BM"); p32(1100); p32(0); p32(54); p32(40); p32(2); p32(2); p16(1); p16(bits); p32(0); p32(0); p32(0); p32(0); p32(0); p32(0); while (tlen < 1100) buf_[tlen++] = 1; sxf_put("i.bmp", buf_, tlen); smread_bmp("i.bmp"); }
  else { int dt = 1, ch = 3; if (w == 2) { dt = DTS[sx_choose("dt", 1, 8)]; } else ch = (int)sx_choose("ch", 2, 4); if (w == 3) sx_assume(ch != 3); simple_mat m = sym_img("px", 2, 2, dt, ch); smwrite_bmp("o.bmp", m); } sx_assert(0, "what cannot be stored in or read from a bitmap is refused");
}
