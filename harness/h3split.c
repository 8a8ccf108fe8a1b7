#include "ref3.h"
static r3d_poly L[4], A[4], B[4];
static solid S[4], T, U;
static void check_part(const r3d_poly *p, const solid *in, pt n, double d, int strict, const char *msg, int exact, int order, pt o) {
  double m[10], r[10];
  rs_assert(p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid3(p), "output is a closed polyhedron");
  for (int v = 0; v < p->nverts; v++) rs_le(0.0, sd(n, d, vp(p, v)), "output vertex on its side of the plane");
  T = *in;
  ref_clip_solid(&T, n, d, strict);
  if (exact && !(T.nv && p->nverts == 0)) { /* a zero-measure part may be returned empty */
    poly_to_solid(p, &U);
    eq_fp(&U, &T, msg);
  } else {
    own_reduce3(p, m, order, o);
    solid_mom(r, &T, o, order);
    eq_moms(m, r, order, msg);
  }
}
static void check_split(int k, pt n, double d, int exact, int order, pt o, int eempty) {
  r3d_plane pl; pl.n = rv(n); pl.d = d;
  rs_assert(r3d_split(L, k, pl, A, B) == 1, "split succeeds");
  for (int i = 0; i < k; i++) {
    check_part(&A[i], &S[i], n, d, 0, "positive output is the non-negative part", exact, order, o);
    check_part(&B[i], &S[i], mk(-n.x, -n.y, -n.z), -d, 1, "negative output is the rest", exact, order, o);
    if (eempty) {
      int np = 0, nn = 0;
      for (int v = 0; v < S[i].nv; v++) { double x = sd(n, d, S[i].v[v]); np += x >= 0; nn += x < 0; }
      if (np == 0) rs_assert(A[i].nverts == 0, "nothing on the positive side: empty output");
      if (nn == 0) rs_assert(B[i].nverts == 0, "nothing on the negative side: empty output");
    }
  }
}
/* one solid, all vertices anywhere along the axis */
void h_split_signs(void) {
  int which = rs_param("solid", 1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), nsym = rs_param("nsym", 99);
  get_solid(&S[0], which);
  init_solid(&L[0], &S[0], which);
  for (int v = 0; v < L[0].nverts && v < nsym; v++) L[0].verts[v].pos.xyz[ax] = rs_real("c");
  poly_to_solid(&L[0], &S[0]);
  pt n = mk(ax == 0 ? dir : 0, ax == 1 ? dir : 0, ax == 2 ? dir : 0);
  check_split(1, n, off, 1, 0, mk(0, 0, 0), 1);
}
/* list of different entries (some empty) with any plane of a fixed direction */
void h_split_list(void) {
  int perm = rs_param("perm", 0), k = rs_param("k", 4), order = rs_param("order", 1);
  static const int what[4][4] = {{1, -1, 0, 4}, {0, 5, 1, -1}, {-1, 0, -1, 1}, {7, 0, 2, 3}};
  static const double nn[4][3] = {{1, 0, 0}, {1, -1, 2}, {0, -2, 1}, {0, 0, 1}};
  for (int i = 0; i < k; i++) {
    int w = what[perm][i];
    if (w < 0) { memset(&L[i], 0, sizeof L[i]); L[i].nverts = 0; S[i].nv = 0; S[i].nf = 0; continue; }
    get_solid(&S[i], w);
    init_solid(&L[i], &S[i], w);
    poly_to_solid(&L[i], &S[i]);
  }
  double d = rs_real("d");
  check_split(k, mk(nn[perm][0], nn[perm][1], nn[perm][2]), d, 0, order, mk(0.5, 1, 0.25), 1);
  if (rs_param("sum", 1))
    for (int i = 0; i < k; i++) {
      double a[10], b[10], c[10];
      own_reduce3(&A[i], a, order, mk(0, 0, 0)); own_reduce3(&B[i], b, order, mk(0, 0, 0)); solid_mom(c, &S[i], mk(0, 0, 0), order);
      for (int q = 0; q < NMOM(order); q++) rs_eq(a[q] + b[q], c[q], "parts add up to the input");
    }
}
/* any plane through a point */
void h_split_plane(void) {
  int which = rs_param("solid", 1), order = rs_param("order", 1);
  get_solid(&S[0], which);
  init_solid(&L[0], &S[0], which);
  poly_to_solid(&L[0], &S[0]);
  pt n = mk(rs_real("nx"), rs_real("ny"), rs_real("nz"));
  pt o = mk(rs_param("ox", 1) / 4.0, rs_param("oy", 2) / 4.0, rs_param("oz", 3) / 4.0);
  r3d_plane pl; pl.n = rv(n); pl.d = -(n.x * o.x + n.y * o.y + n.z * o.z);
  if (rs_param("zn", 0)) { n = mk(0, 0, 0); pl.n = rv(n); pl.d = rs_real("d"); }
  double m[10], r[10];
  rs_assert(r3d_split(L, 1, pl, A, B) == 1, "split succeeds");
  rs_assert(valid3(&A[0]) && valid3(&B[0]), "outputs are closed polyhedra");
  own_reduce3(&A[0], m, order, o); ref_clip_mom(r, &S[0], n, pl.d, o, order);
  eq_moms(m, r, order, "positive output is the non-negative part");
  ref_strict = 1; own_reduce3(&B[0], m, order, o); ref_clip_mom(r, &S[0], mk(-n.x, -n.y, -n.z), -pl.d, o, order);
  eq_moms(m, r, order, "negative output is the rest");
}
/* a long list of boxes and tetrahedra in a row, some entries empty; the plane passes anywhere in a window of the row */
void h_split_long(void) {
  static r3d_poly LL[1100], AA[1100], BB[1100];
  int k = rs_param("k", 300), w = rs_param("w", 260), e = rs_param("em", 7), tet = rs_param("tet", 5);
  double x = rs_real("x");
  rs_assume(x >= w); rs_assume(x <= w + 3);
  for (int i = 0; i < k; i++) {
    if (i % e == e - 1) { LL[i].nverts = 0; continue; }
    r3d_rvec3 b[4] = {rv(mk(i, 0, 0)), rv(mk(i + 1, 2, 3)), rv(mk(i, 1, 0)), rv(mk(i, 0, 1))};
    if (i % tet == 0) { b[1] = rv(mk(i + 1, 0, 0)); r3d_init_tet(&LL[i], b); } else r3d_init_box(&LL[i], b);
  }
  r3d_plane pl; pl.n = rv(mk(-2, 0, 0)); pl.d = 2 * x;
  rs_assert(r3d_split(LL, k, pl, AA, BB) == 1, "split succeeds");
  for (int i = 0; i < k; i++) {
    int full = i % e != e - 1, t = i % tet == 0;
    double m, r = 0, all = 0;
    const r3d_poly *o[2] = {&AA[i], &BB[i]};
    for (int s = 0; s < 2; s++) {
      rs_assert(o[s]->nverts >= 0 && o[s]->nverts <= R3D_MAX_VERTS && valid3(o[s]), "outputs are closed polyhedra");
      for (int v = 0; v < o[s]->nverts; v++) rs_le(0.0, s ? vp(o[s], v).x - x : x - vp(o[s], v).x, "output vertex on its side of the plane");
    }
    if (full) {
      solid *q = &S[0];
      if (t) solid_tet(q, mk(i, 0, 0), mk(i + 1, 0, 0), mk(i, 1, 0), mk(i, 0, 1)); else solid_box(q, mk(i, 0, 0), mk(i + 1, 2, 3));
      solid_mom(&all, q, mk(i, 0, 0), 0);
      ref_clip_solid(q, mk(-2, 0, 0), 2 * x, 0);
      solid_mom(&r, q, mk(i, 0, 0), 0);
    }
    own_reduce3(&AA[i], &m, 0, mk(i, 0, 0)); rs_eq(m, r, "positive output is the non-negative part");
    own_reduce3(&BB[i], &m, 0, mk(i, 0, 0)); rs_eq(m, all - r, "negative output is the rest");
    if (!full) rs_assert(AA[i].nverts == 0 && BB[i].nverts == 0, "an empty entry gives empty outputs");
  }
}
