/* capacity in 4D */
#include "vNd.h"
#include "ref4.h"
static rNd_poly P, P0;
static pt4 S, T;
static int ncut4(const pt4 *s, const double *n, double d) {
  int c = 0;
  for (int i = 0; i < s->nv; i++) if (sd4(n, d, &s->v[i]) >= 0) for (int j = 0; j < s->nv; j++) if (sd4(n, d, &s->v[j]) < 0 && adj4(s, i, j)) c++;
  return c;
}
static void setup(int which, int ax) {
  rNd_rvec v[5];
  if (which == 0) {
    static const double c[5][4] = {{0, 0, 0, 0}, {3, 1, 0, 0}, {0, 2, 1, 0}, {1, 0, 4, 1}, {1, 1, 0, 3}};
    for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) v[i].xyz[k] = k == ax ? rs_real("c") : c[i][k];
    rNd_init_simplex(&P, v); ref_simplex(&S, v);
  } else {
    for (int k = 0; k < 4; k++) { v[0].xyz[k] = k - 2; v[1].xyz[k] = k + 1; if (k == ax) { v[0].xyz[k] = rs_real("lo"); v[1].xyz[k] = rs_real("hi"); } }
    rNd_init_box(&P, v); ref_box(&S, v);
  }
}
static void judge(int st, int need, int np) {
  if (st == 0) rs_reach("overflow reported"); else rs_reach("succeeds");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (need <= RND_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (np > 0 && S.nv > RND_MAX_VERTS) rs_assert(st == 0, "reports failure when the result does not fit");
  if (st == 0) return;
  rs_assert(P.nverts >= 0 && P.nverts <= RND_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid4(&P, 1), "valid polytope");
  if (P.nverts || np) eq_p4(&P, &S, "correct result");
}
void h4_cap_clip(void) {
  int which = rs_param("poly", 0), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), np = 0;
  setup(which, ax);
  rNd_plane pl; double n[4] = {0, 0, 0, 0}; n[ax] = dir;
  for (int k = 0; k < 4; k++) pl.n.xyz[k] = n[k];
  pl.d = off;
  int st = rNd_clip(&P, &pl, 1), need = S.nv + ncut4(&S, n, off);
  for (int v = 0; v < S.nv; v++) np += sd4(n, off, &S.v[v]) > 0;
  ref_clip4(&S, n, off, 0);
  judge(st, need, np);
}
/* skew normals, symbolic offsets */
static const double N4[6][4] = {{1, 2, 3, 4}, {-1, 1, 2, -1}, {1, 1, 1, 1}, {0, 1, -1, 0.5}, {1, -1, 0, 2}, {-2, -1, 1, 3}};
void h4_cap_seq(void) {
  int which = rs_param("poly", 1), k = rs_param("k", 2), first = rs_param("n0", 0), need = 0, np = 1;
  rNd_plane pl[6];
  setup(which, -1);
  for (int i = 0; i < k; i++) {
    const double *n = N4[(first + i) % 6]; int q = 0;
    pl[i].d = i == k - 1 ? rs_real("d") : 2.375; for (int a = 0; a < 4; a++) pl[i].n.xyz[a] = n[a];
    int c = S.nv + ncut4(&S, n, pl[i].d); if (c > need) need = c;
    for (int v = 0; v < S.nv; v++) q += sd4(n, pl[i].d, &S.v[v]) > 0;
    ref_clip4(&S, n, pl[i].d, 0);
    if (q == 0) np = 0;
  }
  judge(rNd_clip(&P, pl, k), need, np);
}
static double G[64];
void h4_cap_vox(void) {
  int which = rs_param("poly", 1), N = rs_param("n", 2), ax = rs_param("ax", 0), must = rs_param("must", 0);
  rNd_rvec d, v[5]; rNd_dvec ib[2];
  double t = rs_real("t"), vol;
  if (which == 0) {
    static const double c[5][4] = {{0, 0, 0, 0}, {3, 1, 0, 0}, {0, 2, 1, 0}, {1, 0, 4, 1}, {1, 1, 0, 3}};
    for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) v[i].xyz[k] = c[i][k] + (k == ax ? t : 0);
    rNd_init_simplex(&P, v); ref_simplex(&S, v); ref4_general = 1;
  } else {
    for (int k = 0; k < 4; k++) { v[0].xyz[k] = k == ax ? t : 0.25; v[1].xyz[k] = v[0].xyz[k] + 2; }
    rNd_init_box(&P, v); ref_box(&S, v);
  }
  vol = ref_vol4(&S, 0);
  for (int k = 0; k < 4; k++) { d.xyz[k] = k == ax ? 1.5 : 9; ib[0].ijk[k] = 0; ib[1].ijk[k] = k == ax ? N : 1; }
  for (int i = 0; i < S.nv; i++) {
    rs_assume(S.v[i].c[ax] >= 0); rs_assume(S.v[i].c[ax] <= 1.5 * N);
    if (which == 0) for (int q = 1; q < N; q++) rs_assume(S.v[i].c[ax] != 1.5 * q);
  }
  for (int q = 0; q < N; q++) G[q] = 0;
  P0 = P;
  int st = rNd_voxelize(&P, ib, G, d, 0);
  rs_assert(P.nverts == P0.nverts, "input unmodified");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (must) rs_assert(st == 1, "succeeds when every split fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  rs_reach("succeeds");
  double sum = 0; for (int q = 0; q < N; q++) sum += G[q];
  rs_eq(sum, vol, "cells add up to the volume");
}
/* construction of primitives that fit exactly; clamping reports the clip's failure */
void h4_cap_clamp(void) {
  int which = rs_param("poly", 1), ax = rs_param("ax", 0), need = 0, ov = 1, np = 1;
  rNd_rvec d; rNd_dvec ib[2], cb[2];
  setup(which, which ? -1 : -1);
  for (int k = 0; k < 4; k++) d.xyz[k] = 1;
  d.xyz[ax] = rs_real("d"); rs_assume(d.xyz[ax] > 0.6); rs_assume(d.xyz[ax] < 4);
  rNd_get_ibox(&P, ib, d);
  for (int k = 0; k < 4; k++) { cb[0].ijk[k] = -9; cb[1].ijk[k] = 9; }
  cb[0].ijk[ax] = rs_int("c0", -1, 1); cb[1].ijk[ax] = cb[0].ijk[ax] + rs_int("cn", 1, 2);
  if (ib[1].ijk[ax] <= cb[0].ijk[ax] || ib[0].ijk[ax] >= cb[1].ijk[ax]) ov = 0;
  for (int s = 0; s < 2; s++) {
    double v = cb[s].ijk[ax] * d.xyz[ax], n[4] = {0, 0, 0, 0}; int q = 0; n[ax] = s ? -1 : 1; if (!s) v = -v;
    int c = S.nv + ncut4(&S, n, v); if (c > need) need = c;
    for (int i = 0; i < S.nv; i++) q += sd4(n, v, &S.v[i]) > 0;
    if (!q) np = 0;
    ref_clip4(&S, n, v, 0);
  }
  int st = rNd_clamp_ibox(&P, ib, cb, d);
  if (!ov) { rs_assert(st == 1 && P.nverts == 0, "no overlap: empty"); return; }
  judge(st, need, np);
}
