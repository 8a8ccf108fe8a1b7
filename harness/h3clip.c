#include "ref3.h"
static r3d_poly P, Q;
static solid S, T, U;
static int is_convex(int which) { return which <= 4 || which == 8 || which >= 100; }
static int is_simple(int which) { return which <= 2 || which == 8 || (which >= 100 && which < 200) || (which >= 1000 && which < 2000); }
/* checks shared by all clip harnesses: P is the clipped polyhedron, R the reference solid */
static void check_poly(const r3d_poly *p) {
  rs_assert(p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid3(p), "closed polyhedron: three valid, distinct, reciprocal edges per vertex");
}
static void check_inside(const r3d_poly *p, pt n, double d) {
  for (int v = 0; v < p->nverts; v++) rs_le(0.0, sd(n, d, vp(p, v)), "vertex inside the kept half-space");
}
/* Arbitrary positions along the clip axis: every vertex of the solid gets a symbolic
   coordinate on `ax`, the plane is +-x[ax] + off >= 0: every sign pattern of signed distances. */
void h_clip_signs(void) {
  int which = rs_param("solid", 1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), nsym = rs_param("nsym", 99);
  get_solid(&S, which);
  init_solid(&P, &S, which);
  check_poly(&P);
  int n = P.nverts;
  for (int v = 0; v < n && v < nsym; v++) P.verts[v].pos.xyz[ax] = rs_real("c");
  poly_to_solid(&P, &T);
  r3d_plane pl; memset(&pl, 0, sizeof pl);
  pl.n.xyz[ax] = dir; pl.d = off;
  pt nn = mk(pl.n.x, pl.n.y, pl.n.z);
  int npos = 0;
  rs_assert(r3d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check_poly(&P);
  check_inside(&P, nn, off);
  for (int v = 0; v < n; v++) npos += sd(nn, off, T.v[v]) > 0;
  if (npos == 0 && P.nverts == 0) return;
  rs_assert(npos > 0 || P.nverts == T.nv, "no vertex strictly inside: empty");
  /* vertices and faces are exactly those of the reference clip */
  ref_clip_solid(&T, nn, off, 0);
  poly_to_solid(&P, &U);
  if (rs_param("exact", 1)) eq_fp(&U, &T, "vertices and edges of the clipped polyhedron");
}
/* tetrahedron with symbolic coordinates, clipped by a plane orthogonal to an axis at a symbolic offset */
void h_clip_tet(void) {
  pt a[4]; double m[10], r[10];
  int order = rs_param("order", 1), ax = rs_param("ax", 0), full = rs_param("full", 2), dir = rs_param("dir", 1);
  static const double base[4][3] = {{0, 0, 0}, {1, 0, 1}, {0, 1, 0}, {0, 1, 2}};
  for (int i = 0; i < 4; i++) {
    double c[3];
    for (int k = 0; k < 3; k++) c[(ax + k) % 3] = k < full ? rs_real("x") : base[i][k];
    a[i] = mk(c[0], c[1], c[2]);
  }
  solid_tet(&S, a[0], a[1], a[2], a[3]);
  r3d_rvec3 v[4]; for (int i = 0; i < 4; i++) v[i] = rv(a[i]);
  r3d_init_tet(&P, v);
  r3d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xyz[ax] = dir;
  if (rs_param("soff", 0)) pl.d = rs_real("d");
  pt nn = mk(pl.n.x, pl.n.y, pl.n.z), o = mk(0, 0, 0);
  if (ax == 0) o.x = -pl.d * dir; else if (ax == 1) o.y = -pl.d * dir; else o.z = -pl.d * dir;
  rs_assert(r3d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check_poly(&P);
  own_reduce3(&P, m, order, o);
  ref_clip_mom(r, &S, nn, pl.d, o, order);
  eq_moms(m, r, order, "moments of the clipped tetrahedron");
}
/* concrete solid, arbitrary plane through a given point (3 symbols: any direction, any length) */
void h_clip_plane(void) {
  double m[10], r[10];
  int order = rs_param("order", 1), which = rs_param("solid", 1), good = rs_param("good", 0);
  get_solid(&S, which);
  init_solid(&P, &S, which);
  pt n = mk(rs_real("nx"), rs_real("ny"), rs_real("nz"));
  pt o = mk(rs_param("ox", 1) / 4.0, rs_param("oy", 2) / 4.0, rs_param("oz", 3) / 4.0);
  r3d_plane pl; pl.n = rv(n); pl.d = -(n.x * o.x + n.y * o.y + n.z * o.z);
  if (rs_param("zn", 0)) { n = mk(0, 0, 0); pl.n = rv(n); pl.d = rs_real("d"); } /* no normal: all of space or nothing */
  int n0 = P.nverts;
  rs_assert(r3d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check_poly(&P);
  check_inside(&P, n, pl.d);
  if (good && is_simple(which)) rs_assert(r3d_is_good(&P), "accepted by the validity check");
  int np = 0, nn = 0;
  for (int v = 0; v < S.nv; v++) { np += sd(n, pl.d, S.v[v]) > 0; nn += sd(n, pl.d, S.v[v]) < 0; }
  if (nn == 0) rs_assert(P.nverts == n0, "wholly inside: unchanged");
  else if (np == 0) rs_assert(P.nverts == 0, "nothing strictly inside: empty");
  own_reduce3(&P, m, order, o);
  ref_clip_mom(r, &S, n, pl.d, o, order);
  eq_moms(m, r, order, "moments of the clipped solid");
}
/* concrete solid, planes with fixed normals and symbolic offsets: single plane or a sequence */
static const int NRM[12][3] = {{1, 0, 0}, {0, -1, 0}, {1, 2, -1}, {0, 0, 1}, {-3, 1, 1}, {2, -1, 2}, {-1, 0, 0}, {0, 1, 0}, {0, 0, -1}, {-1, -1, -1}, {1, 1, 0}, {0, 2, -1}};
void h_clip_seq(void) {
  double m[10], r[10];
  int which = rs_param("solid", 1), k = rs_param("k", 2), first = rs_param("n0", 0), step = rs_param("ns", 1), order = rs_param("order", 1), good = rs_param("good", 0), together = rs_param("together", 1), nsym = rs_param("nsym", 99), box = rs_param("off", 0);
  r3d_plane pl[12];
  get_solid(&S, which);
  init_solid(&P, &S, which);
  T = S;
  for (int i = 0; i < k; i++) {
    const int *q = NRM[(first + i * step) % 12];
    pt n = mk(q[0], q[1], q[2]);
    pl[i].n = rv(n);
    /* concrete offsets put the plane near the centre of the solid */
    pt c = mk(0, 0, 0); for (int v = 0; v < S.nv; v++) { c.x += S.v[v].x / S.nv; c.y += S.v[v].y / S.nv; c.z += S.v[v].z / S.nv; }
    pl[i].d = i >= k - nsym || nsym == 99 ? rs_real("d") : -(n.x * c.x + n.y * c.y + n.z * c.z) + (1 + i + box) / 8.0;
    ref_clip_solid(&T, n, pl[i].d, 0);
  }
  if (together) { rs_assert(r3d_clip(&P, pl, k) == 1, "clip succeeds"); check_poly(&P); }
  else for (int i = 0; i < k; i++) { int st = r3d_clip(&P, &pl[i], 1); rs_assert(st == 1 || P.nverts == 0, "clip succeeds"); check_poly(&P); }
  for (int i = 0; i < k; i++) check_inside(&P, mk(pl[i].n.x, pl[i].n.y, pl[i].n.z), pl[i].d);
  if (good && is_simple(which)) rs_assert(r3d_is_good(&P), "accepted by the validity check");
  pt o = mk(1, 0.5, 0.25);
  own_reduce3(&P, m, order, o);
  solid_mom(r, &T, o, order);
  eq_moms(m, r, order, "moments of the intersection");
}
/* sequence of symbolic sign patterns: two clips along different axes, all vertices symbolic on both */
void h_clip_signs2(void) {
  int which = rs_param("solid", 0);
  get_solid(&S, which);
  init_solid(&P, &S, which);
  int n = P.nverts;
  int sx = rs_param("sx", 4), sy = rs_param("sy", 2);
  for (int v = 0; v < n; v++) { if (v < sx) P.verts[v].pos.x = rs_real("x"); if (v >= n - sy) P.verts[v].pos.y = rs_real("y"); else P.verts[v].pos.y -= 1; }
  r3d_plane pl[2]; memset(pl, 0, sizeof pl); pl[0].n.x = 1; pl[1].n.y = -1;
  rs_assert(r3d_clip(&P, pl, 2) == 1, "clip succeeds");
  check_poly(&P);
  for (int v = 0; v < P.nverts; v++) { rs_le(0.0, P.verts[v].pos.x, "inside the first half-space"); rs_le(P.verts[v].pos.y, 0.0, "inside the second half-space"); }
}
/* a long list of planes: all loose except the one at position `at` (free offset) and the one before it */
void h_clip_long(void) {
  static r3d_plane pl[1100];
  double m[10], r[10];
  int which = rs_param("solid", 1), k = rs_param("k", 300), at = rs_param("at", 299), q = rs_param("n0", 2), order = rs_param("order", 1), cut0 = rs_param("cut", -1);
  get_solid(&S, which); init_solid(&P, &S, which); T = S;
  for (int i = 0; i < k; i++) {
    pt n = mk(NRM[(i == at ? q : i) % 12][0], NRM[(i == at ? q : i) % 12][1], NRM[(i == at ? q : i) % 12][2]);
    pl[i].n = rv(n); pl[i].d = i == at ? rs_real("d") : i == cut0 ? -(sd(n, 0, S.v[0]) + sd(n, 0, S.v[S.nv - 1])) * 0.5 : 1000 + i;
    if (i == at || i == cut0) ref_clip_solid(&T, n, pl[i].d, 0);
  }
  rs_assert(r3d_clip(&P, pl, k) == 1, "clip succeeds");
  check_poly(&P);
  for (int i = 0; i < k; i++) if (i == at || i == cut0) check_inside(&P, mk(pl[i].n.x, pl[i].n.y, pl[i].n.z), pl[i].d);
  own_reduce3(&P, m, order, mk(1, 0.5, 0.25)); solid_mom(r, &T, mk(1, 0.5, 0.25), order);
  eq_moms(m, r, order, "moments of the intersection with a long list of planes");
}
