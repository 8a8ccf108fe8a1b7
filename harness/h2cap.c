/* capacity in 2D: R2D_MAX_VERTS is configured so small that operations run out of room */
#include "v2d.h"
#include "ref2.h"
static r2d_poly P, P0, A[2], B[2], L[2];
static rgn S, T, U, S2;
static int ncut2(const rgn *s, p2 n, double d) {
  int c = 0;
  for (int l = 0; l < s->nl; l++) for (int i = 0; i < s->ln[l]; i++) {
    int a = s->li[l][i], b = s->li[l][(i + 1) % s->ln[l]];
    c += (sd2(n, d, s->v[a]) >= 0) != (sd2(n, d, s->v[b]) >= 0);
  }
  return c;
}
static void result_is(const r2d_poly *p, const rgn *t, const char *msg) {
  rs_assert(p->nverts >= 0 && p->nverts <= R2D_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid2(p), "closed loops");
  if (p->nverts == 0) { double m[1]; rgn_mom(m, t, m2(0, 0), 0); rs_eq(m[0], 0, msg); return; }
  poly_to_rgn(p, &U); eq_rgn(&U, t, msg);
}
static void start(r2d_poly *p, rgn *s, int which, int ax, int nsym) {
  get_rgn(s, which); init_rgn(p, s, which);
  rs_assert(valid2(p) && p->nverts == s->nv, "the input fits");
  for (int v = 0; v < p->nverts && v < nsym; v++) p->verts[v].pos.xy[ax] = rs_real("c");
  poly_to_rgn(p, s);
}
void h2_cap_clip(void) {
  int which = rs_param("rgn", 1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0);
  start(&P, &S, which, ax, rs_param("nsym", 99));
  r2d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xy[ax] = dir; pl.d = off;
  p2 n = m2(pl.n.x, pl.n.y);
  int onv = P.nverts, st = r2d_clip(&P, &pl, 1), need = onv + ncut2(&S, n, off);
  int np = 0; for (int v = 0; v < S.nv; v++) np += sd2(n, off, S.v[v]) > 0;
  if (st == 0) rs_reach("overflow reported"); else rs_reach("succeeds");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (need <= R2D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  ref_clip_rgn(&S, n, off, 0);
  if (np > 0 && S.nv > R2D_MAX_VERTS) rs_assert(st == 0, "reports failure when the result does not fit");
  if (st == 1) result_is(&P, &S, "correct result");
}
static const int N2[8][2] = {{1, 0}, {1, -2}, {0, 1}, {-3, 1}, {-1, 0}, {2, 1}, {0, -1}, {-1, -1}};
void h2_cap_seq(void) {
  int which = rs_param("rgn", 5), k = rs_param("k", 2), first = rs_param("n0", 0), need = 0;
  r2d_plane pl[8];
  get_rgn(&S, which); init_rgn(&P, &S, which); poly_to_rgn(&P, &S); T = S;
  for (int i = 0; i < k; i++) {
    const int *q = N2[(first + i) % 8]; p2 n = m2(q[0], q[1]);
    pl[i].n = rv2(n); pl[i].d = rs_real("d");
    int c = T.nv + ncut2(&T, n, pl[i].d); if (c > need) need = c;
    ref_clip_rgn(&T, n, pl[i].d, 0);
  }
  int st = r2d_clip(&P, pl, k);
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (need <= R2D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  double m[6], r[6];
  rs_assert(P.nverts >= 0 && P.nverts <= R2D_MAX_VERTS && valid2(&P), "closed loops");
  own_reduce2(&P, m, 1, m2(0, 0)); rgn_mom(r, &T, m2(0, 0), 1); eq_mom2(m, r, 1, "correct result");
}
/* a list of two: overflow of either must be reported */
void h2_cap_split(void) {
  int w1 = rs_param("rgn", 1), w2 = rs_param("rgn2", -1), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), k = 0, big = 0, need = 0;
  rgn *s[2] = {&S, &S2};
  r2d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xy[ax] = dir; pl.d = off;
  p2 n = m2(pl.n.x, pl.n.y), nn = m2(-n.x, -n.y);
  start(&L[k], s[k], w1, ax, rs_param("nsym", 99)); k++;
  if (w2 >= 0) { start(&L[k], s[k], w2, ax, rs_param("nsym2", 0)); k++; }
  for (int i = 0; i < k; i++) { int c = s[i]->nv + 2 * ncut2(s[i], n, off); if (c > need) need = c; }
  int st = r2d_split(L, k, pl, A, B);
  if (st == 0) rs_reach("overflow reported"); else rs_reach("succeeds");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (need <= R2D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  for (int i = 0; i < k; i++) {
    T = *s[i]; ref_clip_rgn(&T, n, off, 0);
    double m[1]; rgn_mom(m, &T, m2(0, 0), 0); (void)m;
    if (st == 1) result_is(&A[i], &T, "positive part");
    T = *s[i]; ref_clip_rgn(&T, nn, -off, 1); if (T.nv > R2D_MAX_VERTS) big = 1;
    if (st == 1) result_is(&B[i], &T, "negative part");
  }
  if (big) rs_assert(st == 0, "reports failure when a part does not fit");
}
void h2_cap_init(void) {
  int n = rs_param("n", 6);
  r2d_rvec2 v[64];
  for (int i = 0; i < n; i++) { v[i].x = rs_real("x"); v[i].y = rs_real("y"); }
  P.nverts = 0;
  int st = r2d_init_poly(&P, v, n);
  rs_assert(st == (n <= R2D_MAX_VERTS), "succeeds exactly when the polygon fits");
  if (!st) { rs_assert(P.nverts == 0, "empty or untouched on failure"); return; }
  rs_assert(P.nverts == n && valid2(&P), "closed loop");
  poly_to_rgn(&P, &U);
  rs_assert(U.nl == 1, "one loop");
  for (int i = 0; i < n; i++) { rs_eq(P.verts[i].pos.x, v[i].x, "given vertex"); rs_eq(P.verts[i].pos.y, v[i].y, "given vertex"); }
  double m[3], r[3] = {0, 0, 0};
  own_reduce2(&P, m, 0, m2(0, 0));
  for (int i = 0; i < n; i++) tri_mom(r, m2(0, 0), m2(v[i].x, v[i].y), m2(v[(i + 1) % n].x, v[(i + 1) % n].y), 0);
  rs_eq(m[0], r[0], "area");
}
static double G[400];
void h2_cap_ras(void) {
  int which = rs_param("rgn", 1), N = rs_param("n", 3), ax = rs_param("ax", 0), must = rs_param("must", 0), dn = rs_param("dn", 3);
  r2d_rvec2 d; r2d_dvec2 ib[2];
  get_rgn(&S, which);
  double t = rs_real("t"), D = dn / 2.0;
  for (int i = 0; i < S.nv; i++) { if (ax == 0) S.v[i].x += t; else S.v[i].y += t; }
  init_rgn(&P, &S, which); rs_assert(P.nverts == S.nv, "the input fits"); poly_to_rgn(&P, &S);
  d.xy[ax] = D; d.xy[1 - ax] = 40; ib[0].ij[ax] = -1; ib[1].ij[ax] = N - 1; ib[0].ij[1 - ax] = -1; ib[1].ij[1 - ax] = 1;
  for (int i = 0; i < S.nv; i++) { double x = ax ? S.v[i].y : S.v[i].x; rs_assume(x >= -D); rs_assume(x <= D * (N - 1)); }
  for (int q = 0; q < 2 * N; q++) G[q] = 0;
  P0 = P;
  int st = r2d_rasterize(&P, ib, G, d, 0);
  rs_assert(P.nverts == P0.nverts, "input unmodified");
  rs_assert(st == 0 || st == 1, "status is 0 or 1");
  if (must) rs_assert(st == 1, "succeeds when every split fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  rs_reach("succeeds");
  double m[1], sum = 0; rgn_mom(m, &S, m2(0, 0), 0);
  for (int q = 0; q < 2 * N; q++) sum += G[q];
  rs_eq(sum, m[0], "cells add up to the area");
}
void h2_cap_clamp(void) {
  int which = rs_param("rgn", 1), need = 0, ov = 1;
  r2d_rvec2 d; r2d_dvec2 ib[2], cb[2];
  get_rgn(&S, which); init_rgn(&P, &S, which); rs_assert(P.nverts == S.nv, "the input fits"); poly_to_rgn(&P, &S);
  d.x = rs_real("d"); d.y = 1; rs_assume(d.x > 0.4); rs_assume(d.x < 4);
  r2d_get_ibox(&P, ib, d);
  cb[0].i = rs_int("c0", -1, 1); cb[1].i = cb[0].i + rs_int("cn", 1, 2); cb[0].j = rs_int("c1", 0, 1); cb[1].j = 3;
  T = S;
  for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) {
    if (ib[1].ij[a] <= cb[0].ij[a] || ib[0].ij[a] >= cb[1].ij[a]) ov = 0;
    double v = cb[s].ij[a] * d.xy[a]; p2 n = m2(a == 0 ? (s ? -1 : 1) : 0, a == 1 ? (s ? -1 : 1) : 0); double dd = s ? v : -v;
    int c = T.nv + ncut2(&T, n, dd); if (c > need) need = c;
    ref_clip_rgn(&T, n, dd, 0);
  }
  int st = r2d_clamp_ibox(&P, ib, cb, d);
  if (!ov) { rs_assert(st == 1 && P.nverts == 0, "no overlap: empty"); return; }
  if (need <= R2D_MAX_VERTS) rs_assert(st == 1, "succeeds when everything fits");
  if (st == 0) { rs_reach("overflow reported"); return; }
  rs_assert(P.nverts >= 0 && P.nverts <= R2D_MAX_VERTS && valid2(&P), "closed loops");
  double m[3], r[3];
  own_reduce2(&P, m, 1, m2(0, 0)); rgn_mom(r, &T, m2(0, 0), 1); eq_mom2(m, r, 1, "clamped shape is correct");
}
