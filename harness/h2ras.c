#include "v2d.h"
#include "ref2.h"
static r2d_poly P, P0;
static rgn S, T[2];
#define GUARD 12
#define GMAX 4096
static double G[GMAX + 2 * GUARD], I[GMAX + 2 * GUARD];
static void cp(rgn *t, const rgn *s) {
  t->nv = s->nv; t->nl = s->nl;
  for (int i = 0; i < s->nv; i++) t->v[i] = s->v[i];
  for (int f = 0; f < s->nl; f++) { t->ln[f] = s->ln[f]; for (int i = 0; i < s->ln[f]; i++) t->li[f][i] = s->li[f][i]; }
}
static double gx(p2 p, int ax) { return ax == 0 ? p.x : p.y; }
static void slab(rgn *t, const rgn *s, int ax, double lo, double hi, int isfirst, int islast) {
  cp(t, s);
  if (!isfirst) ref_clip_rgn(t, ax ? m2(0, 1) : m2(1, 0), -lo, 1);
  if (!islast) ref_clip_rgn(t, ax ? m2(0, -1) : m2(-1, 0), hi, 0);
}
static void same_poly(const r2d_poly *a, const r2d_poly *b) {
  rs_assert(a->nverts == b->nverts, "input vertex count unmodified");
  for (int v = 0; v < a->nverts; v++) for (int k = 0; k < 2; k++) {
    rs_assert(a->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "input links unmodified");
    rs_eq(a->verts[v].pos.xy[k], b->verts[v].pos.xy[k], "input positions unmodified");
  }
}
void h_ras(void) {
  int which = rs_param("rgn", 1), order = rs_param("order", 1), nm = NMOM2(order), tmask = rs_param("t", 0), vmask = rs_param("v", 0), dmask = rs_param("d", 0), nsym = rs_param("nsym", 99), sc = rs_param("sc", 1);
  int N[2] = {rs_param("ni", 2), rs_param("nj", 2)}, O[2] = {rs_param("oi", 0), rs_param("oj", 0)};
  r2d_rvec2 d; r2d_dvec2 ib[2];
  static const double dc[2] = {1.0, 0.75};
  int q, a, i, j;
  get_rgn(&S, which);
  { double lo[2] = {S.v[0].x, S.v[0].y}, hi[2] = {S.v[0].x, S.v[0].y}, c[2];
    for (i = 0; i < S.nv; i++) for (a = 0; a < 2; a++) { double x = gx(S.v[i], a); if (x < lo[a]) lo[a] = x; if (x > hi[a]) hi[a] = x; }
    for (i = 0; i < S.nv; i++) {
      for (a = 0; a < 2; a++) c[a] = dc[a] * (O[a] + N[a] * ((tmask >> a & 1 ? 3 : sc) / 16.0 + (gx(S.v[i], a) - lo[a]) / (hi[a] - lo[a]) * ((tmask >> a & 1) ? 10 : 16 - 2 * sc) / 16.0));
      S.v[i] = m2(c[0], c[1]);
    } }
  if (tmask) {
    double t[2];
    for (a = 0; a < 2; a++) t[a] = (tmask >> a & 1) ? rs_real("t") : 0.0;
    for (i = 0; i < S.nv; i++) S.v[i] = m2(S.v[i].x + t[0], S.v[i].y + t[1]);
  }
  if (which == 1 && vmask) {
    double c[2][2];
    for (a = 0; a < 2; a++) { c[0][a] = gx(S.v[0], a); c[1][a] = gx(S.v[2], a); if (vmask >> a & 1) { c[0][a] = rs_real("lo"); c[1][a] = rs_real("hi"); rs_assume(c[0][a] < c[1][a]); } }
    S.v[0] = m2(c[0][0], c[0][1]); S.v[1] = m2(c[1][0], c[0][1]); S.v[2] = m2(c[1][0], c[1][1]); S.v[3] = m2(c[0][0], c[1][1]);
  }
  init_rgn(&P, &S, which);
  if (which != 1 && vmask)
    for (i = 0; i < P.nverts && i < nsym; i++) for (a = 0; a < 2; a++) if (vmask >> a & 1) P.verts[i].pos.xy[a] = rs_real("c");
  poly_to_rgn(&P, &S);
  for (a = 0; a < 2; a++) {
    d.xy[a] = (dmask >> a & 1) ? rs_real("d") : dc[a];
    if (dmask >> a & 1) rs_assume(d.xy[a] > 0);
    ib[0].ij[a] = O[a]; ib[1].ij[a] = O[a] + N[a];
    for (i = 0; i < S.nv; i++) { rs_assume(gx(S.v[i], a) >= d.xy[a] * O[a]); rs_assume(gx(S.v[i], a) <= d.xy[a] * (O[a] + N[a])); }
  }
  int tot = N[0] * N[1] * nm;
  for (q = 0; q < tot + 2 * GUARD; q++) G[q] = I[q] = 0.5 * (q % 5) + 1;
  P0 = P;
  rs_assert(r2d_rasterize(&P, ib, G + GUARD, d, order) == 1, "rasterization succeeds");
  same_poly(&P, &P0);
  for (q = 0; q < GUARD; q++) { rs_eq(G[q], I[q], "nothing written before the grid"); rs_eq(G[GUARD + tot + q], I[GUARD + tot + q], "nothing written after the grid"); }
  for (i = 0; i < N[0]; i++) {
    slab(&T[0], &S, 0, d.x * (O[0] + i), d.x * (O[0] + i + 1), i == 0, i == N[0] - 1);
    for (j = 0; j < N[1]; j++) {
      double m[NMOM2(14)];
      slab(&T[1], &T[0], 1, d.y * (O[1] + j), d.y * (O[1] + j + 1), j == 0, j == N[1] - 1);
      rgn_mom(m, &T[1], m2(0, 0), order);
      for (q = 0; q < nm; q++) {
        int at = GUARD + nm * (i * N[1] + j) + q;
        rs_eq(G[at], I[at] + m[q], "cell holds its previous value plus the moments of the part inside it");
      }
    }
  }
}
void h_ras_noop(void) {
  int order = rs_param("order", 1), q, a, mode = rs_param("mode", 0);
  r2d_rvec2 d; r2d_dvec2 ib[2];
  get_rgn(&S, 1); init_rgn(&P, &S, 1);
  for (a = 0; a < 2; a++) { d.xy[a] = rs_real("d"); rs_assume(d.xy[a] > 0); ib[0].ij[a] = rs_int("lo", -1, 1); ib[1].ij[a] = ib[0].ij[a] + rs_int("n", mode == 1 ? -1 : 1, 2); }
  if (mode == 1) rs_assume(ib[1].i <= ib[0].i || ib[1].j <= ib[0].j);
  else if (mode == 0) P.nverts = 0;
  P0 = P;
  for (q = 0; q < 100; q++) G[q] = I[q] = 0.25 * q;
  if (mode == 2) { int w = rs_int("missing", 1, 3); r2d_rasterize(w & 1 ? 0 : &P, ib, w & 2 ? 0 : G + GUARD, d, order); }
  else r2d_rasterize(&P, ib, G + GUARD, d, order);
  same_poly(&P, &P0);
  for (q = 0; q < 100; q++) rs_eq(G[q], I[q], "grid untouched");
}
