#include "ref3.h"
static r3d_poly P, Q;
static solid S;
static double M[NMOM(GO) + 8], R[NMOM(GO) + 8];
static void check_reduce(r3d_poly *p, const double *r, int order, const char *msg) {
  int n = NMOM(order), i;
  double s0 = 0.125;
  for (i = 0; i < 8; i++) M[n + i] = s0 + i;
  r3d_reduce(p, M, order);
  for (i = 0; i < n; i++) rs_eq(M[i], r[i], msg);
  for (i = 0; i < 8; i++) rs_eq(M[n + i], s0 + i, "exactly the documented number of entries is written");
}
static void sym(pt *p, int mask, const pt *b) {
  p->x = (mask & 1) ? rs_real("x") : b->x; p->y = (mask & 2) ? rs_real("y") : b->y; p->z = (mask & 4) ? rs_real("z") : b->z;
}
void h_reduce_tet(void) {
  int order = rs_param("order", 2), mask = rs_param("mask", 7), i;
  pt a[4], base[4] = {{0.5, -1, 2}, {3, 0, -1}, {1, 4, 0.25}, {-2, 1, 1}};
  r3d_rvec3 v[4];
  for (i = 0; i < 4; i++) { sym(&a[i], mask, &base[i]); v[i] = rv(a[i]); }
  r3d_init_tet(&P, v);
  for (i = 0; i < NMOM(order); i++) R[i] = 0;
  if (order <= 2) tet_mom(R, a[0], a[1], a[2], a[3], order); else tet_mom_gen(R, a[0], a[1], a[2], a[3], order);
  check_reduce(&P, R, order, "moments of the tetrahedron");
}
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
void h_reduce_box(void) {
  int order = rs_param("order", 4), mask = rs_param("mask", 7), n, i, j, q = 0;
  pt lo, hi, bl = {-1, 2, 0.5}, bh = {2, 5, 1};
  sym(&lo, mask, &bl); sym(&hi, mask, &bh);
  r3d_rvec3 b[2] = {rv(lo), rv(hi)};
  r3d_init_box(&P, b);
  for (n = 0; n <= order; n++) for (i = n; i >= 0; i--) for (j = n - i; j >= 0; j--) {
    int k = n - i - j;
    R[q++] = (ipow(hi.x, i + 1) - ipow(lo.x, i + 1)) / (i + 1) * (ipow(hi.y, j + 1) - ipow(lo.y, j + 1)) / (j + 1) * (ipow(hi.z, k + 1) - ipow(lo.z, k + 1)) / (k + 1);
  }
  check_reduce(&P, R, order, "moments of the box");
}
/* any solid of the catalogue at any position, with vertices relabelled */
void h_reduce_solid(void) {
  int which = rs_param("solid", 6), order = rs_param("order", 3), perm = rs_param("perm", 0), mask = rs_param("mask", 7), i, k;
  get_solid(&S, which);
  pt t, z = {0, 0, 0};
  sym(&t, mask, &z);
  double s = rs_param("scale", 0) ? rs_real("s") : 1;
  for (i = 0; i < S.nv; i++) S.v[i] = mk(s * S.v[i].x + t.x, s * S.v[i].y + t.y, s * S.v[i].z + t.z);
  rs_assert(make_poly(&P, &S) == 1, "construction succeeds");
  if (perm) { /* relabel: v -> (v*perm+1) mod n, and rotate the neighbour lists */
    int n = P.nverts, a = perm, g = n;
    while (a) { int b = g % a; g = a; a = b; }
    if (g != 1) perm = n - 1;
    for (i = 0; i < n; i++) {
      int w = (i * perm + 1) % n;
      Q.verts[w].pos = P.verts[i].pos;
      for (k = 0; k < 3; k++) Q.verts[w].pnbrs[(k + i) % 3] = (P.verts[i].pnbrs[k] * perm + 1) % n;
    }
    Q.nverts = n;
    P = Q;
  }
  solid_mom(R, &S, t, order);
  check_reduce(&P, R, order, "moments of the solid");
}
/* a clipped body: moments equal own integration of the buffer, which stays unmodified */
void h_reduce_clipped(void) {
  int which = rs_param("solid", 1), order = rs_param("order", 2);
  get_solid(&S, which);
  init_solid(&P, &S, which);
  r3d_plane pl; pl.n = rv(mk(1, -2, 1)); pl.d = rs_real("d");
  r3d_clip(&P, &pl, 1);
  Q = P;
  poly_to_solid(&P, &S);
  solid_mom(R, &S, mk(0, 0, 0), order);
  check_reduce(&P, R, order, "moments of the clipped solid");
  rs_assert(P.nverts == Q.nverts, "integration leaves the polyhedron unmodified");
  for (int v = 0; v < Q.nverts; v++) for (int k = 0; k < 3; k++) {
    rs_assert(P.verts[v].pnbrs[k] == Q.verts[v].pnbrs[k], "integration leaves the links unmodified");
    rs_eq(P.verts[v].pos.xyz[k], Q.verts[v].pos.xyz[k], "integration leaves the positions unmodified");
  }
}
void h_reduce_empty(void) {
  int order = rs_param("order", 3);
  P.nverts = 0;
  for (int i = 0; i < NMOM(order); i++) { R[i] = 0; M[i] = 7; }
  check_reduce(&P, R, order, "moments of the empty polyhedron are zero");
}
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static int midx(int i, int j, int k) { int n = i + j + k, q = n * (n + 1) * (n + 2) / 6, a = n - i; return q + a * (a + 1) / 2 + (a - j); }
void h_shift(void) {
  int order = rs_param("order", 3), nm = NMOM(order), n, i, j, a, b, c, q = 0, symm = rs_param("symm", 1);
  pt t; t.x = rs_real("cx"); t.y = rs_real("cy"); t.z = rs_real("cz");
  double in[NMOM(GO)];
  for (i = 0; i < nm; i++) { in[i] = symm ? rs_real("m") : (i * i + 3 * i) % 17 - 6; M[i] = in[i]; }
  for (i = 0; i < 8; i++) M[nm + i] = 0.5 + i;
  r3d_shift_moments(M, order, rv(t));
  for (n = 0; n <= order; n++) for (i = n; i >= 0; i--) for (j = n - i; j >= 0; j--, q++) {
    int k = n - i - j;
    double r = 0;
    for (a = 0; a <= i; a++) for (b = 0; b <= j; b++) for (c = 0; c <= k; c++)
      r += binom(i, a) * binom(j, b) * binom(k, c) * ipow(t.x, i - a) * ipow(t.y, j - b) * ipow(t.z, k - c) * in[midx(a, b, c)];
    rs_eq(M[q], r, "re-based moments");
  }
  for (i = 0; i < 8; i++) rs_eq(M[nm + i], 0.5 + i, "exactly the documented number of entries is written");
}
/* shifting the moments of a solid gives the moments of the translated solid */
void h_shift_solid(void) {
  int which = rs_param("solid", 3), order = rs_param("order", 3);
  get_solid(&S, which);
  make_poly(&P, &S);
  pt t; t.x = rs_real("cx"); t.y = rs_real("cy"); t.z = rs_real("cz");
  r3d_reduce(&P, M, order);
  r3d_shift_moments(M, order, rv(t));
  r3d_translate(&P, rv(t));
  r3d_reduce(&P, R, order);
  for (int i = 0; i < NMOM(order); i++) rs_eq(M[i], R[i], "moments about the shifted origin");
}
