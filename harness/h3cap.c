/* capacity: R3D_MAX_VERTS is configured so small that operations run out of room */
#include "v3d.h"
#include "ref3.h"
static r3d_poly P, P0, A, B;
static solid S, T, U;
static int ncut(const solid *s, pt n, double d) { /* edges with one end kept (>= 0) and one clipped */
  int c = 0;
  for (int f = 0; f < s->nf; f++) for (int i = 0; i < s->fn[f]; i++) {
    int a = s->fi[f][i], b = s->fi[f][(i + 1) % s->fn[f]];
    if (sd(n, d, s->v[a]) >= 0 && sd(n, d, s->v[b]) < 0) c++;
  }
  return c;
}
static void result_is(const r3d_poly *p, const solid *t, const char *msg) {
  rs_assert(p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid3(p), "closed polyhedron");
  if (p->nverts == 0) { /* zero-measure results may be dropped */
    double m[4]; solid_mom(m, t, mk(0, 0, 0), 0); rs_eq(m[0], 0, msg); return;
  }
  poly_to_solid(p, &U); eq_fp(&U, t, msg);
}
static void start(int which, int ax, int nsym) {
  get_solid(&S, which); init_solid(&P, &S, which);
  rs_assert(valid3(&P) && P.nverts > 0, "the input fits");
  for (int v = 0; v < P.nverts && v < nsym; v++) P.verts[v].pos.xyz[ax] = rs_real("c");
  poly_to_solid(&P, &S);
}
/* every sign pattern, one plane */
void h_cap_clip(void) {
  int which = rs_param("solid", 1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0);
  start(which, ax, rs_param("nsym", 99));
  r3d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xyz[ax] = dir; pl.d = off;
  pt n = mk(pl.n.x, pl.n.y, pl.n.z);
  int onv = P.nverts, st = r3d_clip(&P, &pl, 1), need = onv + ncut(&S, n, off);
  int np = 0; for (int v = 0; v < S.nv; v++) np += sd(n, off, S.v[v]) > 0;
  if (st == 0) rs_reach("overflow reported"); else rs_reach("succeeds");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (need <= R3D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  ref_clip_solid(&S, n, off, 0);
  if (np > 0 && S.nv > R3D_MAX_VERTS) rs_assert(st == 0, "reports failure when the result does not fit");
  if (st == 1) result_is(&P, &S, "correct result");
}
static const int NRM[8][3] = {{1, 0, 0}, {1, 2, -1}, {-1, -1, -1}, {0, -1, 0}, {1, 1, 0}, {-3, 1, 1}, {0, 2, -1}, {2, -1, 2}};
/* several planes in one call, symbolic offsets */
void h_cap_seq(void) {
  int which = rs_param("solid", 1), k = rs_param("k", 2), first = rs_param("n0", 0), need = 0, empty = 0;
  r3d_plane pl[8];
  get_solid(&S, which); init_solid(&P, &S, which); poly_to_solid(&P, &S); T = S;
  for (int i = 0; i < k; i++) {
    const int *q = NRM[(first + i) % 8]; pt n = mk(q[0], q[1], q[2]);
    pl[i].n = rv(n); pl[i].d = rs_real("d");
    int c = T.nv + ncut(&T, n, pl[i].d); if (c > need) need = c;
    ref_clip_solid(&T, n, pl[i].d, 0);
    double m[1]; if (T.nv == 0) empty = 1;
    (void)m;
  }
  int st = r3d_clip(&P, pl, k);
  if (need <= R3D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (st == 1) {
    double m[4], r[4];
    rs_assert(P.nverts >= 0 && P.nverts <= R3D_MAX_VERTS && valid3(&P), "closed polyhedron");
    own_reduce3(&P, m, 1, mk(0, 0, 0)); solid_mom(r, &T, mk(0, 0, 0), 1); eq_moms(m, r, 1, "correct result");
  } else if (empty) rs_reach("failed on the way");
}
void h_cap_split(void) {
  int which = rs_param("solid", 1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0);
  start(which, ax, rs_param("nsym", 99));
  r3d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xyz[ax] = dir; pl.d = off;
  pt n = mk(pl.n.x, pl.n.y, pl.n.z), nn = mk(-n.x, -n.y, -n.z);
  int onv = P.nverts, need = onv + 2 * ncut(&S, n, off), st = r3d_split(&P, 1, pl, &A, &B);
  if (st == 0) rs_reach("overflow reported"); else rs_reach("succeeds");
  if (need <= R3D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  T = S; ref_clip_solid(&S, n, off, 0); ref_clip_solid(&T, nn, -off, 1);
  double m[1]; solid_mom(m, &S, mk(0, 0, 0), 0);
  int np = 0; for (int v = 0; v < T.nv; v++) np++;
  if (np > R3D_MAX_VERTS) rs_assert(st == 0, "reports failure when the negative part does not fit");
  if (st == 1) { result_is(&A, &S, "positive part"); result_is(&B, &T, "negative part"); }
}
/* construction: nv given vertices, degrees from the solid */
void h_cap_init(void) {
  int which = rs_param("solid", 4), deg[MAXSV], simple = 1, sum = 0, res = 0;
  get_solid(&S, which);
  for (int i = 0; i < S.nv; i++) { deg[i] = 0; S.v[i].z = rs_real("z"); }
  for (int f = 0; f < S.nf; f++) for (int i = 0; i < S.fn[f]; i++) deg[S.fi[f][i]]++;
  for (int i = 0; i < S.nv; i++) { if (deg[i] != 3) simple = 0; sum += deg[i]; res += deg[i] - 2; }
  P.nverts = 0;
  int st = make_poly(&P, &S), need = simple ? S.nv : sum;
  if (need <= R3D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (res > R3D_MAX_VERTS) rs_assert(st == 0, "reports failure when the result does not fit");
  if (st == 0) { rs_assert(P.nverts == 0, "empty or untouched on failure"); rs_reach("rejected"); return; }
  rs_assert(P.nverts == res && valid3(&P), "closed polyhedron");
  double m[4], r[4];
  own_reduce3(&P, m, 0, mk(0, 0, 0)); solid_mom(r, &S, mk(0, 0, 0), 0);
  if (which == 0 || which == 4 || which == 5 || (which >= 200 && which < 1000) || which >= 2000) eq_moms(m, r, 0, "correct result");
}
/* voxelization: return 0, or 1 with the right cells; must succeed when the splits fit */
static double G[700];
void h_cap_vox(void) {
  int which = rs_param("solid", 1), N = rs_param("n", 2), ax = rs_param("ax", 0), must = rs_param("must", 0), order = 0, N2 = rs_param("m", 1);
  r3d_rvec3 d; r3d_dvec3 ib[2];
  get_solid(&S, which);
  double t = rs_real("t");
  for (int i = 0; i < S.nv; i++) { if (ax == 0) S.v[i].x += t; else if (ax == 1) S.v[i].y += t; else S.v[i].z += t; }
  init_solid(&P, &S, which); poly_to_solid(&P, &S);
  for (int a = 0; a < 3; a++) { d.xyz[a] = a == ax ? 3 : 40; if (a == (ax + 1) % 3 && N2 > 1) d.xyz[a] = 1; ib[0].ijk[a] = a == ax ? -1 : N2 > 1 && a == (ax + 1) % 3 ? 0 : -1; ib[1].ijk[a] = ib[0].ijk[a] + (a == ax ? N : a == (ax + 1) % 3 ? N2 : 2); }
  if (N2 == 1) for (int a = 0; a < 3; a++) if (a != ax) { ib[0].ijk[a] = 0; ib[1].ijk[a] = 1; }
  for (int i = 0; i < S.nv; i++) { double x = ax == 0 ? S.v[i].x : ax == 1 ? S.v[i].y : S.v[i].z; rs_assume(x >= -3.0); rs_assume(x <= 3.0 * (N - 1)); }
  int nc = (ib[1].i - ib[0].i) * (ib[1].j - ib[0].j) * (ib[1].k - ib[0].k);
  for (int q = 0; q < nc; q++) G[q] = 0;
  P0 = P;
  int st = r3d_voxelize(&P, ib, G, d, order);
  rs_assert(P.nverts == P0.nverts, "input unmodified");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (must) rs_assert(st == 1, "succeeds when every split fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  rs_reach("succeeds");
  double m[1], sum = 0; solid_mom(m, &S, mk(0, 0, 0), 0);
  for (int q = 0; q < nc; q++) sum += G[q];
  rs_eq(sum, m[0], "cells add up to the volume");
}
/* clamping reports the failure of its clip */
void h_cap_clamp(void) {
  int which = rs_param("solid", 1), need = 0;
  r3d_rvec3 d; r3d_dvec3 ib[2], cb[2];
  get_solid(&S, which); init_solid(&P, &S, which); poly_to_solid(&P, &S);
  for (int a = 0; a < 3; a++) d.xyz[a] = 1;
  d.x = rs_real("d"); rs_assume(d.x > 0.3); rs_assume(d.x < 4);
  r3d_get_ibox(&P, ib, d);
  cb[0].i = rs_int("c0", -1, 1); cb[1].i = cb[0].i + rs_int("cn", 1, 2);
  cb[0].j = rs_int("c1", 0, 1); cb[1].j = 6; cb[0].k = -5; cb[1].k = 5;
  T = S;
  int ov = 1;
  for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) {
    if (ib[1].ijk[a] <= cb[0].ijk[a] || ib[0].ijk[a] >= cb[1].ijk[a]) ov = 0;
    double v = cb[s].ijk[a] * d.xyz[a]; pt n = mk(a == 0 ? (s ? -1 : 1) : 0, a == 1 ? (s ? -1 : 1) : 0, 0); double dd = s ? v : -v;
    int c = T.nv + ncut(&T, n, dd); if (c > need) need = c;
    ref_clip_solid(&T, n, dd, 0);
  }
  if (ib[1].k <= cb[0].k || ib[0].k >= cb[1].k) ov = 0;
  int st = r3d_clamp_ibox(&P, ib, cb, d);
  if (!ov) { rs_assert(st == 1 && P.nverts == 0, "no overlap: empty"); return; }
  if (need <= R3D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  rs_assert(P.nverts >= 0 && P.nverts <= R3D_MAX_VERTS && valid3(&P), "closed polyhedron");
  double m[4], r[4];
  own_reduce3(&P, m, 1, mk(0, 0, 0)); solid_mom(r, &T, mk(0, 0, 0), 1); eq_moms(m, r, 1, "clamped shape is correct");
}
