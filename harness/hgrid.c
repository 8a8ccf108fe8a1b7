/* any grid shape: a small axis-aligned box, free along one axis, in a grid of up to some thousand cells (DIMN 2, 3, 4) */
#if DIMN == 2
#include "v2d.h"
typedef r2d_poly poly; typedef r2d_rvec2 rv; typedef r2d_dvec2 dv;
#define X xy
#define K ij
#define INIT r2d_init_box
#define VOX r2d_rasterize
#define NB 2
#define NM(o) (((o) + 1) * ((o) + 2) / 2)
#elif DIMN == 3
#include "v3d.h"
typedef r3d_poly poly; typedef r3d_rvec3 rv; typedef r3d_dvec3 dv;
#define X xyz
#define K ijk
#define INIT r3d_init_box
#define VOX r3d_voxelize
#define NB 3
#define NM(o) (((o) + 1) * ((o) + 2) * ((o) + 3) / 6)
#else
#include "vNd.h"
typedef rNd_poly poly; typedef rNd_rvec rv; typedef rNd_dvec dv;
#define X xyz
#define K ijk
#define INIT rNd_init_box
#define VOX rNd_voxelize
#define NB 4
#define NM(o) 1
#endif
#include "rs.h"
#include <sys/mman.h>
#define GUARD 8
#define GMAX 8000
static poly P, P0;
static double G[GMAX + 2 * GUARD];
static double init(int q) { return 0.5 * (q % 5) + 1; }
/* integral of x^p over the part of [lo, hi] within [a, b] */
static double part(double lo, double hi, double a, double b, int p) {
  double s = 1, t = 1;
  if (lo >= b || hi <= a) return 0;
  if (lo > a) a = lo;
  if (hi < b) b = hi;
  for (int i = 0; i <= p; i++) { s *= a; t *= b; }
  return (t - s) / (p + 1);
}
void h_grid(void) {
  static const char *const nn[4] = {"n0", "n1", "n2", "n3"}, *const on[4] = {"o0", "o1", "o2", "o3"}, *const cn[4] = {"c0", "c1", "c2", "c3"};
  static const double dc[4] = {1, 0.5, 2, 0.75};
  int ax = rs_param("ax", 0), order = DIMN == 4 ? 0 : rs_param("order", 0), span = rs_param("span", 0), sn = rs_param("sn", 0), fill = rs_param("fill", 0), dsym = rs_param("d", -1), N[DIMN], O[DIMN], tot = 1, c[DIMN];
  dv ib[2]; rv d, w[2];
  for (int a = 0; a < DIMN; a++) {
    N[a] = rs_param(nn[a], 1); if (sn >> a & 1) N[a] = rs_int("n", 1, N[a]);
    O[a] = rs_param(on[a], 0); tot *= N[a]; c[a] = rs_param(cn[a], 0); if (c[a] >= N[a]) c[a] = N[a] - 1;
    d.X[a] = dc[a]; if (a == dsym) { d.X[a] = rs_real("d"); rs_assume(d.X[a] > 0); }
    ib[0].K[a] = O[a]; ib[1].K[a] = O[a] + N[a];
    w[0].X[a] = d.X[a] * (O[a] + c[a] + 0.25); w[1].X[a] = w[0].X[a] + d.X[a] * 0.625;
    if (fill) { w[0].X[a] = d.X[a] * (O[a] + 0.25); w[1].X[a] = d.X[a] * (O[a] + N[a] - 0.125); if (a == ax) span = N[a] - 1; }
    if (a == ax) {
      w[0].X[a] = rs_real("t"); w[1].X[a] = w[0].X[a] + d.X[a] * (0.625 + span);
      rs_assume(w[0].X[a] >= d.X[a] * O[a]); rs_assume(w[1].X[a] <= d.X[a] * (O[a] + N[a]));
    }
  }
  int nm = NM(order), q, at[DIMN];
  INIT(&P, w);
  for (q = 0; q < tot * nm + 2 * GUARD; q++) G[q] = init(q);
  P0 = P;
  rs_assert(VOX(&P, ib, G + GUARD, d, order) == 1, "succeeds");
  rs_assert(P.nverts == P0.nverts, "input vertex count unmodified");
  for (int v = 0; v < P.nverts; v++) for (int k = 0; k < NB; k++) { rs_assert(P.verts[v].pnbrs[k] == P0.verts[v].pnbrs[k], "input links unmodified"); rs_eq(P.verts[v].pos.X[k], P0.verts[v].pos.X[k], "input positions unmodified"); }
  for (q = 0; q < GUARD; q++) { rs_eq(G[q], init(q), "nothing written before the grid"); rs_eq(G[GUARD + tot * nm + q], init(GUARD + tot * nm + q), "nothing written after the grid"); }
  for (q = 0; q < tot; q++) {
    int r = q, out = 0, m = 0;
    for (int a = DIMN - 1; a >= 0; a--) { at[a] = r % N[a]; r /= N[a]; if (!fill && a != ax && at[a] != c[a]) out = 1; }
    if (out) { for (m = 0; m < nm; m++) rs_eq(G[GUARD + q * nm + m], init(GUARD + q * nm + m), "other cells keep their values"); continue; }
    for (int co = 0; co <= order; co++) for (int i = co; i >= 0; i--) for (int j = co - i; j >= 0; j--) {
      int e[4] = {i, j, co - i - j, 0}; double x = 1;
      if (DIMN == 2 && e[2]) continue;
      for (int a = 0; a < DIMN; a++) x *= part(w[0].X[a], w[1].X[a], d.X[a] * (O[a] + at[a]), d.X[a] * (O[a] + at[a] + 1), e[a]);
      rs_eq(G[GUARD + q * nm + m], init(GUARD + q * nm + m) + x, "cell holds its previous value plus the part inside it"); m++;
    }
  }
  rs_reach("done");
}
/* grids with more than 2^31 entries: only a window of the grid around the box exists for the solver; replays map the whole grid sparsely */
void h_grid_big(void) {
  static const char *const nn[4] = {"n0", "n1", "n2", "n3"}, *const on[4] = {"o0", "o1", "o2", "o3"}, *const cn[4] = {"c0", "c1", "c2", "c3"};
  int order = DIMN == 4 ? 0 : rs_param("order", 0), nm = NM(order), N[DIMN], O[DIMN], c[DIMN], q, ax = DIMN - 1;
  long at = 0, tot = 1; double *g = G;
  dv ib[2]; rv d, w[2];
  for (int a = 0; a < DIMN; a++) {
    N[a] = rs_param(nn[a], 1); O[a] = rs_param(on[a], 0); c[a] = rs_param(cn[a], 0); at = at * N[a] + c[a]; tot *= N[a];
    d.X[a] = 0.5; ib[0].K[a] = O[a]; ib[1].K[a] = O[a] + N[a];
    w[0].X[a] = 0.5 * (O[a] + c[a] + 0.25); w[1].X[a] = w[0].X[a] + 0.25;
    if (a == ax) {
      w[0].X[a] = rs_real("t"); w[1].X[a] = w[0].X[a] + 0.25;
      rs_assume(w[0].X[a] >= 0.5 * (O[a] + c[a]) - 0.125); rs_assume(w[1].X[a] <= 0.5 * (O[a] + c[a] + 1) + 0.125);
    }
  }
  if (rs_is_native()) {
    g = mmap(0, tot * nm * sizeof(double), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g == MAP_FAILED) rs_assume(0);
    g += (at - 1) * nm;
  }
  INIT(&P, w);
  for (q = 0; q < 3 * nm; q++) g[q] = init(q);
  rs_assert(VOX(&P, ib, (double *)((long)g - (at - 1) * nm * (long)sizeof(double)), d, order) == 1, "succeeds");
  for (q = 0; q < 3; q++) {
    int m = 0;
    for (int co = 0; co <= order; co++) for (int i = co; i >= 0; i--) for (int j = co - i; j >= 0; j--) {
      int e[4] = {i, j, co - i - j, 0}; double x = 1;
      if (DIMN == 2 && e[2]) continue;
      for (int a = 0; a < DIMN; a++) { int k = a == ax ? c[a] + q - 1 : c[a]; x *= part(w[0].X[a], w[1].X[a], 0.5 * (O[a] + k), 0.5 * (O[a] + k + 1), e[a]); }
      rs_eq(g[q * nm + m], init(q * nm + m) + x, "cell holds its previous value plus the part inside it"); m++;
    }
  }
  rs_reach("done");
}
