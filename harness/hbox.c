/* index boxes and clamping in 2D, 3D and 4D */
#include "v2d.h"
#include "v3d.h"
#include "vNd.h"
#include "ref2.h"
#include "ref3.h"
#include "ref4.h"
static r3d_poly P3, Q3; static r2d_poly P2, Q2; static rNd_poly P4, Q4;
static solid S3, T3; static rgn S2, T2; static pt4 S4, T4;
static const double DC[4] = {1, 0.75, 1.5, 0.5};
static int dim, which;
static double spacing[4];
/* build the shape; position along the axes in mask t is symbolic, spacings in mask d symbolic,
   vertex coordinates in mask v symbolic (index box only) */
static void setup(int nsym, int range) {
  int t = rs_param("t", 0), d = rs_param("d", 0), v = rs_param("v", 0), a, i, base = rs_param("base", 0);
  double sh[4];
  dim = rs_param("dim", 3); which = rs_param("shape", 0);
  for (a = 0; a < dim; a++) { spacing[a] = DC[a] / rs_param("fine", 1); if (d >> a & 1) { spacing[a] = rs_real("d"); rs_assume(spacing[a] > 0); } }
  for (a = 0; a < dim; a++) { sh[a] = base; if (t >> a & 1) { double x = rs_real("t"); rs_assume(x >= -range); rs_assume(x <= range); sh[a] += x; } }
  if (dim == 2) {
    get_rgn(&S2, which);
    for (i = 0; i < S2.nv; i++) S2.v[i] = m2(S2.v[i].x + sh[0], S2.v[i].y + sh[1]);
    init_rgn(&P2, &S2, which);
    for (i = 0; i < P2.nverts && i < nsym; i++) for (a = 0; a < 2; a++) if (v >> a & 1) P2.verts[i].pos.xy[a] = rs_real("x");
    poly_to_rgn(&P2, &S2); Q2 = P2;
  } else if (dim == 3) {
    get_solid(&S3, which);
    for (i = 0; i < S3.nv; i++) S3.v[i] = mk(S3.v[i].x + sh[0], S3.v[i].y + sh[1], S3.v[i].z + sh[2]);
    init_solid(&P3, &S3, which);
    for (i = 0; i < P3.nverts && i < nsym; i++) for (a = 0; a < 3; a++) if (v >> a & 1) P3.verts[i].pos.xyz[a] = rs_real("x");
    poly_to_solid(&P3, &S3); Q3 = P3;
  } else {
    static const double c[5][4] = {{0, 0, 0, 0}, {3, 1, 0, 0}, {0, 2, 1, 0}, {1, 0, 2, 1}, {1, 1, 0, 2}}, b[2][4] = {{-1, 0, 0, 0.5}, {1, 3, 2, 1.5}}, big[2][4] = {{-1, -1, -2, -1.25}, {4, 3, 6, 2}};
    rNd_rvec w[5];
    for (i = 0; i < 5; i++) for (a = 0; a < 4; a++) w[i].xyz[a] = which == 0 ? c[i][a] + sh[a] : i < 2 ? (which == 1 ? b : big)[i][a] + sh[a] : 0;
    if (which == 0) { for (i = 0; i < 5 && i < nsym; i++) for (a = 0; a < 4; a++) if (v >> a & 1) w[i].xyz[a] = rs_real("x"); rNd_init_simplex(&P4, w); ref_simplex(&S4, w); }
    else { rNd_init_box(&P4, w); ref_box(&S4, w); }
    Q4 = P4;
  }
}
static int nverts(void) { return dim == 2 ? S2.nv : dim == 3 ? S3.nv : S4.nv; }
static double coord(int i, int a) { return dim == 2 ? (a ? S2.v[i].y : S2.v[i].x) : dim == 3 ? (a == 0 ? S3.v[i].x : a == 1 ? S3.v[i].y : S3.v[i].z) : S4.v[i].c[a]; }
static void get_box(int ib[2][4]) {
  int a, s;
  if (dim == 2) { r2d_dvec2 b[2]; r2d_rvec2 d; for (a = 0; a < 2; a++) d.xy[a] = spacing[a]; r2d_get_ibox(&P2, b, d); for (a = 0; a < 2; a++) for (s = 0; s < 2; s++) ib[s][a] = b[s].ij[a]; }
  else if (dim == 3) { r3d_dvec3 b[2]; r3d_rvec3 d; for (a = 0; a < 3; a++) d.xyz[a] = spacing[a]; r3d_get_ibox(&P3, b, d); for (a = 0; a < 3; a++) for (s = 0; s < 2; s++) ib[s][a] = b[s].ijk[a]; }
  else { rNd_dvec b[2]; rNd_rvec d; for (a = 0; a < 4; a++) d.xyz[a] = spacing[a]; rNd_get_ibox(&P4, b, d); for (a = 0; a < 4; a++) for (s = 0; s < 2; s++) ib[s][a] = b[s].ijk[a]; }
}
static int clamp_box(int ib[2][4], int cb[2][4]) {
  int a, s, st;
  if (dim == 2) {
    r2d_dvec2 b[2], c[2]; r2d_rvec2 d;
    for (a = 0; a < 2; a++) { d.xy[a] = spacing[a]; for (s = 0; s < 2; s++) { b[s].ij[a] = ib[s][a]; c[s].ij[a] = cb[s][a]; } }
    st = r2d_clamp_ibox(&P2, b, c, d);
    for (a = 0; a < 2; a++) for (s = 0; s < 2; s++) { ib[s][a] = b[s].ij[a]; rs_assert(c[s].ij[a] == cb[s][a], "clamp box unmodified"); }
  } else if (dim == 3) {
    r3d_dvec3 b[2], c[2]; r3d_rvec3 d;
    for (a = 0; a < 3; a++) { d.xyz[a] = spacing[a]; for (s = 0; s < 2; s++) { b[s].ijk[a] = ib[s][a]; c[s].ijk[a] = cb[s][a]; } }
    st = r3d_clamp_ibox(&P3, b, c, d);
    for (a = 0; a < 3; a++) for (s = 0; s < 2; s++) { ib[s][a] = b[s].ijk[a]; rs_assert(c[s].ijk[a] == cb[s][a], "clamp box unmodified"); }
  } else {
    rNd_dvec b[2], c[2]; rNd_rvec d;
    for (a = 0; a < 4; a++) { d.xyz[a] = spacing[a]; for (s = 0; s < 2; s++) { b[s].ijk[a] = ib[s][a]; c[s].ijk[a] = cb[s][a]; } }
    st = rNd_clamp_ibox(&P4, b, c, d);
    for (a = 0; a < 4; a++) for (s = 0; s < 2; s++) { ib[s][a] = b[s].ijk[a]; rs_assert(c[s].ijk[a] == cb[s][a], "clamp box unmodified"); }
  }
  return st;
}
static void unmodified(void) {
  int v, k;
  if (dim == 2) { rs_assert(P2.nverts == Q2.nverts, "shape unmodified"); for (v = 0; v < Q2.nverts; v++) for (k = 0; k < 2; k++) { rs_assert(P2.verts[v].pnbrs[k] == Q2.verts[v].pnbrs[k], "links unmodified"); rs_eq(P2.verts[v].pos.xy[k], Q2.verts[v].pos.xy[k], "positions unmodified"); } }
  if (dim == 3) { rs_assert(P3.nverts == Q3.nverts, "shape unmodified"); for (v = 0; v < Q3.nverts; v++) for (k = 0; k < 3; k++) { rs_assert(P3.verts[v].pnbrs[k] == Q3.verts[v].pnbrs[k], "links unmodified"); rs_eq(P3.verts[v].pos.xyz[k], Q3.verts[v].pos.xyz[k], "positions unmodified"); } }
  if (dim == 4) { rs_assert(P4.nverts == Q4.nverts, "shape unmodified"); for (v = 0; v < Q4.nverts; v++) for (k = 0; k < 4; k++) { rs_assert(P4.verts[v].pnbrs[k] == Q4.verts[v].pnbrs[k], "links unmodified"); rs_eq(P4.verts[v].pos.xyz[k], Q4.verts[v].pos.xyz[k], "positions unmodified"); } }
}
void h_ibox(void) {
  int ib[2][4], a, i, span = rs_param("span", 3), off = rs_param("off", 0);
  setup(rs_param("nsym", 99), 4);
  for (a = 0; a < dim; a++) if ((rs_param("v", 0) | rs_param("d", 0)) >> a & 1) for (i = 0; i < nverts(); i++) { rs_assume(coord(i, a) >= spacing[a] * (off - span)); rs_assume(coord(i, a) <= spacing[a] * (off + span)); }
  get_box(ib);
  for (a = 0; a < dim; a++) {
    double lo = coord(0, a), hi = lo;
    for (i = 1; i < nverts(); i++) { double x = coord(i, a); lo = x < lo ? x : lo; hi = x > hi ? x : hi; }
    rs_le(ib[0][a] * spacing[a], lo, "the box starts at or below every vertex"); rs_lt(lo, (ib[0][a] + 1) * spacing[a], "no smaller box contains the shape (low side)");
    rs_le(hi, ib[1][a] * spacing[a], "the box ends at or above every vertex"); rs_lt((ib[1][a] - 1) * spacing[a], hi, "no smaller box contains the shape (high side)");
  }
  unmodified();
}
void h_clamp(void) {
  int ib[2][4], cb[2][4], jb[2][4], a, i, s, ov = 1, cut = 0, free = rs_param("free", 0), mx = rs_param("max", 2), mono = rs_param("mono", 0), np = 1;
  setup(0, rs_param("range", 1));
  for (a = 0; a < dim; a++) if (rs_param("d", 0) >> a & 1) { rs_assume(spacing[a] > 0.5); rs_assume(spacing[a] < 2.5); }
  get_box(ib);
  for (a = 0; a < dim; a++) {
    int base = rs_param("base", 0);
    /* free axes: every clamp interval around the shape (also inverted or empty ones); others: generous */
    if (free >> a & 1) { cb[0][a] = rs_int("clo", ib[0][a] - 1, ib[1][a] + 1); cb[1][a] = cb[0][a] + rs_int("cn", 0, mx); } else { cb[0][a] = -60 - base; cb[1][a] = 60 + base; }
    if (mono) { cb[0][a] = ib[0][a] + rs_int("k", 0, 1); cb[1][a] = ib[1][a]; }
    /* both ends cut in every direction but one end chosen by the job */
    if (rs_param("inner", 0)) { rs_assume(ib[1][a] - ib[0][a] >= 3); cb[0][a] = ib[0][a] + 1; cb[1][a] = ib[1][a] - 1; if (rs_param("skip", -1) == 2 * a) cb[0][a] -= 2; if (rs_param("skip", -1) == 2 * a + 1) cb[1][a] += 2; }
    for (s = 0; s < 2; s++) jb[s][a] = ib[s][a];
    if (ib[1][a] <= cb[0][a] || ib[0][a] >= cb[1][a]) ov = 0;
    if (jb[0][a] < cb[0][a]) { jb[0][a] = cb[0][a]; cut = 1; }
    if (jb[1][a] > cb[1][a]) { jb[1][a] = cb[1][a]; cut = 1; }
  }
  int st = clamp_box(ib, cb);
  rs_assert(st == 1, "clamping succeeds");
  int n = dim == 2 ? P2.nverts : dim == 3 ? P3.nverts : P4.nverts;
  if (!ov) {
    rs_reach("no overlap");
    rs_assert(n == 0, "no overlap: the shape becomes empty");
    for (a = 0; a < dim; a++) for (s = 0; s < 2; s++) rs_assert(ib[s][a] == 0, "no overlap: the box becomes all zeros");
    return;
  }
  for (a = 0; a < dim; a++) for (s = 0; s < 2; s++) rs_assert(ib[s][a] == jb[s][a], "the box becomes the intersection of both boxes");
  if (!cut) { unmodified(); rs_reach("inside"); return; }
  rs_reach("cut");
  if (dim == 2) {
    double m[6], r[6];
    T2 = S2;
    for (a = 0; a < 2; a++) for (s = 0; s < 2; s++) ref_clip_rgn(&T2, m2(a ? 0 : s ? -1 : 1, a ? s ? -1 : 1 : 0), (s ? 1 : -1) * spacing[a] * cb[s][a], 0);
    rs_assert(valid2(&P2), "valid shape");
    own_reduce2(&P2, m, 2, m2(0, 0)); rgn_mom(r, &T2, m2(0, 0), 2); eq_mom2(m, r, 2, "the shape becomes its part inside the clamp box");
  } else if (dim == 3) {
    double m[10], r[10];
    T3 = S3;
    for (a = 0; a < 3; a++) for (s = 0; s < 2; s++) { pt q = mk(0, 0, 0); double w = s ? -1 : 1; if (a == 0) q.x = w; else if (a == 1) q.y = w; else q.z = w; ref_clip_solid(&T3, q, (s ? 1 : -1) * spacing[a] * cb[s][a], 0); }
    rs_assert(valid3(&P3), "valid shape");
    own_reduce3(&P3, m, 1, mk(0, 0, 0)); solid_mom(r, &T3, mk(0, 0, 0), 1); eq_moms(m, r, 1, "the shape becomes its part inside the clamp box");
  } else {
    cp4(&T4, &S4);
    for (a = 0; a < 4; a++) for (s = 0; s < 2; s++) {
      double q[4] = {0, 0, 0, 0}, dd = (s ? 1 : -1) * spacing[a] * cb[s][a]; int k = 0;
      q[a] = s ? -1 : 1;
      for (i = 0; i < T4.nv; i++) k += sd4(q, dd, &T4.v[i]) > 0;
      if (k == 0) np = 0;
      ref_clip4(&T4, q, dd, 0);
    }
    rs_assert(valid4(&P4, 1), "valid shape");
    if (np) eq_p4(&P4, &T4, "the shape becomes its part inside the clamp box"); else rs_assert(P4.nverts == 0, "nothing strictly inside: empty");
  }
}
