/* transformations: every vertex is mapped by the documented formula, nothing else changes */
#include "rs.h"
#include "r2d.h"
#include "r3d.h"
#include "rNd.h"
#include <math.h>
#include <string.h>
#define NN RND_DIM
#define MAXN 5
/* dimension-independent view of the three libraries */
static int D; /* 2, 3, or 4 for rNd (whatever RND_DIM is) */
static r2d_poly P2; static r3d_poly P3; static rNd_poly P4;
static int dim(void) { return D == 4 ? NN : D; }
static int cap(void) { return D == 2 ? R2D_MAX_VERTS : D == 3 ? R3D_MAX_VERTS : RND_MAX_VERTS; }
static double get(int v, int k) { return D == 2 ? P2.verts[v].pos.xy[k] : D == 3 ? P3.verts[v].pos.xyz[k] : P4.verts[v].pos.xyz[k]; }
static void put(int v, int k, double x) { if (D == 2) P2.verts[v].pos.xy[k] = x; else if (D == 3) P3.verts[v].pos.xyz[k] = x; else P4.verts[v].pos.xyz[k] = x; }
static int nlink(void) { return D == 2 ? 2 : D == 3 ? 3 : NN + NN * NN; }
static int *lnk(int v, int k) { return D == 2 ? &P2.verts[v].pnbrs[k] : D == 3 ? &P3.verts[v].pnbrs[k] : k < NN ? &P4.verts[v].pnbrs[k] : &P4.verts[v].finds[(k - NN) / NN][(k - NN) % NN]; }
static int *nv(void) { return D == 2 ? &P2.nverts : D == 3 ? &P3.nverts : &P4.nverts; }
static double old[1024][MAXN];
static int n, slack;
/* arbitrary (even meaningless) links; a few vertices with arbitrary coordinates, the others distinct constants; the slots behind them too */
static void make(void) {
  int full = rs_param("full", 3), at = rs_param("at", 0), mask = rs_param("mask", 31), v, k;
  D = rs_param("dim", 3); n = rs_param("n", 4);
  slack = cap() - n < 2 ? cap() - n : 2;
  *nv() = n; if (D == 4) P4.nfaces = 91;
  for (v = 0; v < n + slack; v++) {
    for (k = 0; k < nlink(); k++) *lnk(v, k) = (v * 7 + k * 5 + 3) % 61 - 2;
    for (k = 0; k < dim(); k++) { old[v][k] = v >= at && v < at + full && (mask >> k & 1) ? rs_real("x") : (v * 13 + k * 29) % 41 - 17 + k * 0.25; put(v, k, old[v][k]); }
  }
}
static void check(double (*ex)[MAXN]) {
  int v, k;
  rs_assert(*nv() == n && (D < 4 || P4.nfaces == 91), "counts unchanged");
  for (v = 0; v < n + slack; v++) {
    for (k = 0; k < nlink(); k++) if (*lnk(v, k) != (v * 7 + k * 5 + 3) % 61 - 2) { rs_assert(0, "connectivity unchanged"); return; }
    for (k = 0; k < dim(); k++) rs_eq(get(v, k), v < n ? ex[v][k] : old[v][k], v < n ? "vertex mapped by the documented formula" : "nothing beyond the vertices is touched");
  }
}
static double ex[1024][MAXN];
static void same(void) { for (int v = 0; v < n; v++) for (int k = 0; k < dim(); k++) ex[v][k] = old[v][k]; }
void h_rotate(void) {
  int v, a, b;
  make();
  double t = rs_real("theta"), c = cos(t), s = sin(t);
  same();
  if (D == 2) { a = 0; b = 1; r2d_rotate(&P2, t); }
  else if (D == 3) { int ax = rs_int("axis", 0, 2); a = (ax + 1) % 3; b = (ax + 2) % 3; r3d_rotate(&P3, t, ax); }
  else { a = rs_int("ax1", 0, NN - 1); b = rs_int("ax2", 0, NN - 1); rs_assume(a != b); rNd_rotate(&P4, t, a, b); }
  for (v = 0; v < n; v++) { ex[v][a] = c * old[v][a] - s * old[v][b]; ex[v][b] = s * old[v][a] + c * old[v][b]; }
  check(ex);
}
void h_translate(void) {
  int v, k; double t[MAXN];
  make(); same();
  for (k = 0; k < dim(); k++) { t[k] = rs_real("t"); for (v = 0; v < n; v++) ex[v][k] += t[k]; }
  if (D == 2) { r2d_rvec2 s; for (k = 0; k < 2; k++) s.xy[k] = t[k]; r2d_translate(&P2, s); }
  else if (D == 3) { r3d_rvec3 s; for (k = 0; k < 3; k++) s.xyz[k] = t[k]; r3d_translate(&P3, s); }
  else { rNd_rvec s; for (k = 0; k < NN; k++) s.xyz[k] = t[k]; rNd_translate(&P4, s); }
  check(ex);
}
void h_scale(void) {
  int v, k; double t[MAXN];
  make(); same();
  for (k = 0; k < dim(); k++) { t[k] = D == 4 || k == 0 ? rs_real("s") : t[0]; for (v = 0; v < n; v++) ex[v][k] *= t[k]; }
  if (D == 2) r2d_scale(&P2, t[0]);
  else if (D == 3) r3d_scale(&P3, t[0]);
  else { rNd_rvec s; for (k = 0; k < NN; k++) s.xyz[k] = t[k]; rNd_scale(&P4, s); }
  check(ex);
}
void h_shear(void) {
  int v, a, b; double h;
  make(); same();
  a = rs_int("axb", 0, dim() - 1); b = rs_int("axs", 0, dim() - 1); h = rs_real("h");
  for (v = 0; v < n; v++) ex[v][a] += h * old[v][b];
  if (D == 2) r2d_shear(&P2, h, a, b); else if (D == 3) r3d_shear(&P3, h, a, b); else rNd_shear(&P4, h, a, b);
  check(ex);
}
/* persp: any last row (assuming w != 0), otherwise 0..0 1 */
void h_affine(void) {
  int v, i, j, persp = rs_param("persp", 1), d; double m[MAXN + 1][MAXN + 1], m2[3][3], m3[4][4], m4[NN + 1][NN + 1];
  make(); d = dim();
  for (i = 0; i <= d; i++) for (j = 0; j <= d; j++) {
    m[i][j] = i < d || persp ? rs_real("m") : i == j;
    if (D == 2) m2[i][j] = m[i][j]; else if (D == 3) m3[i][j] = m[i][j]; else m4[i][j] = m[i][j];
  }
  for (v = 0; v < n; v++) {
    double w = m[d][d];
    for (j = 0; j < d; j++) w += m[d][j] * old[v][j];
    if (v >= rs_param("at", 0) && v < rs_param("at", 0) + 3) rs_assume(w != 0); else rs_assume(w > 0); /* either sign, for a few of the vertices */
    for (i = 0; i < d; i++) { ex[v][i] = m[i][d]; for (j = 0; j < d; j++) ex[v][i] += m[i][j] * old[v][j]; ex[v][i] = ex[v][i] / w; }
  }
  if (D == 2) r2d_affine(&P2, m2); else if (D == 3) r3d_affine(&P3, m3); else rNd_affine(&P4, m4);
  for (i = 0; i <= d; i++) for (j = 0; j <= d; j++) rs_eq(D == 2 ? m2[i][j] : D == 3 ? m3[i][j] : m4[i][j], m[i][j], "matrix unmodified");
  check(ex);
}
/* a rotation keeps lengths, and turning back undoes it; turning by two angles adds up */
void h_rotate_rigid(void) {
  int v, k, a = 0, b = 1, ax = 0;
  make();
  double t = rs_real("theta");
  if (D == 3) ax = rs_int("axis", 0, 2);
  if (D == 4) { a = rs_int("ax1", 0, NN - 1); b = rs_int("ax2", 0, NN - 1); rs_assume(a != b); }
  if (D == 2) r2d_rotate(&P2, t); else if (D == 3) r3d_rotate(&P3, t, ax); else rNd_rotate(&P4, t, a, b);
  for (v = 0; v < n; v++) { double p = 0, q = 0; for (k = 0; k < dim(); k++) { p += old[v][k] * old[v][k]; q += get(v, k) * get(v, k); } rs_eq(p, q, "distance from the origin kept"); }
  if (D == 2) r2d_rotate(&P2, -t); else if (D == 3) r3d_rotate(&P3, -t, ax); else rNd_rotate(&P4, -t, a, b);
  same(); check(ex);
}
