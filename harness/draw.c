#include "hm.h"
void draw_POINT(simple_mat src_mat, simple_mat dst_mat, POINT *v, int point_num, RGB_data color, int size); void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB_data color, int thickness);
/* a coordinate: every value from -out to n-1+out, or (grid) a few spread ones */
static int coord(const char *nm, int n, int out) { int g = (int)sx_param("grid", 0); return g ? (int)(sx_choose(nm, 0, g) * (n - 1 + 2 * out) / g) - out : (int)sx_choose(nm, -out, n - 1 + out); }
static RGB_data col(void) { RGB_data c; c.r = sx_uchar("red"); c.g = sx_uchar("green"); c.b = sx_uchar("blue"); return c; }
/* every pixel byte: the drawn colour where `in`, else the source's */
static void check_px(const unsigned char *g, const unsigned char *d, long at, int ch, int in, RGB_data c, int line, const char *what) { for (int q = 0; q < ch; q++) { int v = ch == 1 ? c.r : q == 1 ? c.g : (q == 0) == line ? c.r : c.b; sx_assert(g[at * ch + q] == (in && (ch == 1 || ch == 3) ? v : d[at * ch + q]), what); } }
void h_points(void) {
  int r = (int)sx_param("r", 3), c = (int)sx_param("c", 4), ch = (int)sx_param("ch", 1), n = (int)sx_param("n", 1), size = (int)sx_choose("size", sx_param("slo", 0), sx_param("shi", 4)), own = (int)sx_param("own", 0), out = (int)sx_param("out", 3); simple_mat m = sym_img("px", r, c, 1, ch), t = own ? m : sym_img("old", r, c, 1, ch); unsigned char *d = (unsigned char *)dup_bytes(m->data, (long)r * c * ch); POINT *v = (POINT *)malloc(sizeof(POINT) * (n ? n : 1)); for (int i = 0; i < n; i++) { v[i].x = i > 2 ? i * 7 % c : coord("x", c, out); v[i].y = i > 2 ? i * 5 % r : coord("y", r, out); } POINT *w = (POINT *)dup_bytes(v, sizeof(POINT) * n); RGB_data k = col(); long h0 = sx_live_heap(); draw_POINT(m, t, v, n, k, size);
  unsigned char *g = (unsigned char *)t->data; int hs = size / 2; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int in = 0; for (int q = 0; q < n; q++) in |= j >= w[q].x - hs && j <= w[q].x + hs && i >= w[q].y - hs && i <= w[q].y + hs; check_px(g, d, i * c + j, ch, in, k, 0, "the square around every point and nothing else"); } if (!own) check_bytes(m->data, d, (long)r * c * ch, "source unchanged"); check_bytes(v, w, sizeof(POINT) * n, "points unchanged"); check_img(t, r, c, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", g[0]);
}
/* one point anywhere at all */
void h_point_any(void) { int r = 3, c = 3, size = (int)sx_param("size", 3); simple_mat m = sym_img("px", r, c, 1, 1), t = sym_img("old", r, c, 1, 1); unsigned char *d = (unsigned char *)dup_bytes(m->data, r * c); POINT v; v.x = sx_int("x"); v.y = sx_int("y"); sx_assume(v.x > -2000000000 && v.x < 2000000000 && v.y > -2000000000 && v.y < 2000000000); int far = (int)sx_param("far", 0); if (far) sx_assume(v.x < -size || v.x > c + size || v.y < -size || v.y > r + size); else sx_assume(v.x >= -size && v.x <= c + size && v.y >= -size && v.y <= r + size); if (!far) { v.x = (int)sx_concretize(v.x); v.y = (int)sx_concretize(v.y); } RGB_data k = col(); sx_merge(0); draw_POINT(m, t, &v, 1, k, size); unsigned char *g = (unsigned char *)t->data; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) check_px(g, d, i * c + j, 1, !far && j >= v.x - size / 2 && j <= v.x + size / 2 && i >= v.y - size / 2 && i <= v.y + size / 2, k, 0, "the square around the point"); sx_observe("g", g[0]); }
static long fdiv(long a, long b) { long q = a / b; return a % b < 0 ? q - 1 : q; }
void h_line(void) {
  int r = (int)sx_param("r", 3), c = (int)sx_param("c", 4), ch = (int)sx_param("ch", 1), th = (int)sx_choose("thickness", sx_param("tlo", 0), sx_param("thi", 2)), own = (int)sx_param("own", 0), out = (int)sx_param("out", 0); simple_mat m = sym_img("px", r, c, 1, ch), t = own ? m : sym_img("old", r, c, 1, ch); unsigned char *d = (unsigned char *)dup_bytes(m->data, (long)r * c * ch); POINT a, b; a.x = coord("x1", c, out); a.y = coord("y1", r, out); b.x = coord("x2", c, out); b.y = coord("y2", r, out); RGB_data k = col(); long h0 = sx_live_heap(); draw_line(m, t, a, b, k, th); unsigned char *g = (unsigned char *)t->data;
  int dx = b.x - a.x, dy = b.y - a.y, ax = dx < 0 ? -dx : dx, ay = dy < 0 ? -dy : dy, n = ax > ay ? ax : ay, hs = th / 2, wide = ax > ay; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int sure = 0, may = 0; for (int s = 0; s <= n; s++) { long x = a.x, y = a.y, tx = 0, ty = 0; if (n) { long ux = 2L * dx * s + n, uy = 2L * dy * s + n; x = a.x + fdiv(ux, 2 * n); y = a.y + fdiv(uy, 2 * n); tx = ux % (2 * n) == 0; ty = uy % (2 * n) == 0; } for (int px = 0; px <= tx; px++) for (int py = 0; py <= ty; py++) { int hit = wide ? j == x - px && i >= y - py - hs && i <= y - py + hs : i == y - py && j >= x - px - hs && j <= x - px + hs; if (!tx && !ty) sure |= hit; may |= hit; } } if (sure || !may) check_px(g, d, i * c + j, ch, sure, k, 1, "the pixels nearest to the segment and nothing else"); else { int drawn = 1, kept = 1; for (int q = 0; q < ch; q++) { int v = ch == 1 ? k.r : q == 0 ? k.r : q == 1 ? k.g : k.b; drawn &= g[(i * c + j) * ch + q] == v; kept &= g[(i * c + j) * ch + q] == d[(i * c + j) * ch + q]; } sx_assert(drawn | kept, "pixels as near as another are drawn or kept"); } }
  int in1 = a.x >= 0 && a.x < c && a.y >= 0 && a.y < r, in2 = b.x >= 0 && b.x < c && b.y >= 0 && b.y < r; if (in1) check_px(g, d, a.y * c + a.x, ch, 1, k, 1, "the first end is drawn"); if (in2) check_px(g, d, b.y * c + b.x, ch, 1, k, 1, "the second end is drawn"); if (!own) check_bytes(m->data, d, (long)r * c * ch, "source unchanged"); check_img(t, r, c, 1, ch); sx_assert(sx_live_heap() == h0, "nothing retained"); sx_observe("g", g[0]);
}
void h_draw_bad(void) { int f = (int)sx_param("f", 0), w = (int)sx_param("which", 0), dt = 1, r = 2, c = 3, ch = 1; if (w == 0) { dt = DTS[sx_choose("dt", 0, 8)]; sx_assume(dt != 1); } if (w == 1) { r = (int)sx_choose("r", 1, 4); sx_assume(r != 2); } if (w == 2) { c = (int)sx_choose("c", 1, 4); sx_assume(c != 3); } if (w == 3) ch = 3; if (w == 4) { r = 3; c = 2; } simple_mat m = sym_img("px", 2, 3, dt, 1), t = sym_img("old", r, c, w == 0 ? dt : 1, ch); if (w == 5) m = NULL; if (w == 6) t = NULL; POINT p = {0, 0}; RGB_data k = {1, 2, 3}; sx_exit_mode(1); if (f) draw_line(m, t, p, p, k, 1); else draw_POINT(m, t, &p, 1, k, 1); sx_assert(0, "other types and shapes and missing images are refused"); }
