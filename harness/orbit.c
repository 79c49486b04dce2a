/* S01: satellite positions from broadcast orbit parameters. Built with 64-bit long double on both sides. */
#include "repo.h"
#include "satellite/hypercv_satellite.h"
#include "hm.h"
static unsigned lcg(unsigned *s) { return (*s = *s * 1103515245u + 12345u) >> 8; }
static int near(double a, double b, double tol) { double d = a - b; return (d <= tol) & (d >= -tol); }
void h_orbit(void) {
  enum { AS, ES, OM, WS, M0, I0, ID, DN, TOE, T, CUS, CUC, CRS, CRC, CIS, CIC, OD, N }; static const double step[N] = {977, 1.0 / 4096, 0.0245, 0.0247, 0.0251, 0.0123, 3e-7, 3e-7, 2341, 977, 1e-4, 1e-4, 500, 500, 1e-4, 1e-4, 3e-7};
  unsigned sd = (unsigned)sx_param("seed", 1); double v[N]; int w = (int)sx_param("which", 0), w2 = (int)sx_param("which2", -1), bits = (int)sx_param("bits", 8);
  for (int i = 0; i < N; i++) v[i] = step[i] * ((int)(lcg(&sd) % 256) - 128); v[AS] += sx_param("as", 26560) * 1000.0; v[ES] = (lcg(&sd) % 410) / 4096.0; v[TOE] = lcg(&sd) % 604800; v[T] = v[TOE] + (double)(lcg(&sd) % 300000) - 150000;
  if (sx_param("circ", 0)) v[ES] = 0; if (sx_param("plain", 0)) v[ID] = v[DN] = v[CUS] = v[CUC] = v[CRS] = v[CRC] = v[CIS] = v[CIC] = v[OD] = 0;
  int k = (int)sx_bits("v", bits); double x = (w == ES || w == AS) ? k : k - (1 << (bits - 1)); x *= step[w] * (w == ES ? 1.6 : 1) * (256 >> (bits - 8)) / 256; if (w == ES) v[ES] = x; else v[w] += x;
  if (w2 >= 0) v[w2] += step[w2] * (int)sx_bits("v2", 2);
  double f[N]; for (int i = 0; i < N; i++) f[i] = v[i];
  long h0 = sx_live_heap(); sat_orbit o = hypercv_create_orbit(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]); sx_assert(o != NULL, "an orbit is returned");
  ECEF p = get_satellite_position_ecef(o), q = get_satellite_position_ecef(o); sx_assert((p.ecefx == q.ecefx) & (p.ecefy == q.ecefy) & (p.ecefz == q.ecefz), "the same position every time");
  double a = f[AS], e = f[ES], tk = f[T] - f[TOE], n = sqrt(3.986005e14 / (a * a * a)) + f[DN], M = f[M0] + n * tk, E = M; for (int i = 0; i < 6; i++) E -= (E - e * sin(E) - M) / (1 - e * cos(E));
  double cf = (cos(E) - e) / (1 - e * cos(E)), sf = sqrt(1 - e * e) * sin(E) / (1 - e * cos(E)), cw = cos(f[WS]), sw = sin(f[WS]), cp = cf * cw - sf * sw, sp = sf * cw + cf * sw, c2 = cp * cp - sp * sp, s2 = 2 * sp * cp, du = f[CUS] * s2 + f[CUC] * c2, dr = f[CRS] * s2 + f[CRC] * c2, di = f[CIS] * s2 + f[CIC] * c2;
  double cu = cp * cos(du) - sp * sin(du), su = sp * cos(du) + cp * sin(du), r = a * (1 - e * cos(E)) + dr, in = f[I0] + f[ID] * tk + di, L = f[OM] + (f[OD] - 7.2921151467e-5) * tk - 7.2921151467e-5 * f[TOE], tol = 2e-9 * a;
  sx_assert(near((double)o->r, r, tol), "distance from the centre of the earth"); sx_assert(near((double)o->ik, in, 4e-9), "inclination"); sx_assert(near((double)o->omegak, L, 4e-9), "longitude of the ascending node");
  sx_assert(near(p.ecefx, r * (cu * cos(L) - su * sin(L) * cos(in)), tol), "earth-fixed x"); sx_assert(near(p.ecefy, r * (cu * sin(L) + su * cos(L) * cos(in)), tol), "earth-fixed y"); sx_assert(near(p.ecefz, r * su * sin(in), tol), "earth-fixed z");
  sx_assert(near(p.ecefx * p.ecefx + p.ecefy * p.ecefy + p.ecefz * p.ecefz, r * r, 4e-9 * a * a), "position at that distance");
  sx_assert(near((double)o->n0, sqrt(3.986005e14 / (a * a * a)), 1e-16) & near((double)o->n, n, 1e-16) & near((double)o->tk, tk, 1e-9) & near((double)o->Mk, M, 4e-9) & near((double)o->E, E, 4e-9), "mean motion, time, mean and eccentric anomaly");
  sx_assert(near((double)o->corr_u, du, 4e-9) & near((double)o->corr_r, dr, tol) & near((double)o->corr_i, di, 4e-9), "harmonic corrections");
  sx_assert(((double)o->as == f[AS]) & ((double)o->es == f[ES]) & ((double)o->omega == f[OM]) & ((double)o->ws == f[WS]) & ((double)o->M0 == f[M0]) & ((double)o->i0 == f[I0]) & ((double)o->idot == f[ID]) & ((double)o->delta_n == f[DN]) & ((double)o->toe == f[TOE]) & ((double)o->t == f[T]) & ((double)o->cus == f[CUS]) & ((double)o->cuc == f[CUC]) & ((double)o->crs == f[CRS]) & ((double)o->crc == f[CRC]) & ((double)o->cis == f[CIS]) & ((double)o->cic == f[CIC]) & ((double)o->omegadot == f[OD]), "the parameters are recorded");
  sx_observe("x", (long)p.ecefx / 16); free(o); sx_assert(sx_live_heap() == h0, "nothing but the orbit is retained");
}
