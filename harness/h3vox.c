#include "v3d.h"
#include "ref3.h"
static r3d_poly P, P0;
static solid S, T[4];
#define GUARD 12
#define GMAX 4096
static double G[GMAX + 2 * GUARD], I[GMAX + 2 * GUARD];
static void cp(solid *t, const solid *s) {
  t->nv = s->nv; t->nf = s->nf;
  for (int i = 0; i < s->nv; i++) t->v[i] = s->v[i];
  for (int f = 0; f < s->nf; f++) { t->fn[f] = s->fn[f]; for (int i = 0; i < s->fn[f]; i++) t->fi[f][i] = s->fi[f][i]; }
}
static pt unit(int ax, double v) { return mk(ax == 0 ? v : 0, ax == 1 ? v : 0, ax == 2 ? v : 0); }
static double gx(pt p, int ax) { return ax == 0 ? p.x : ax == 1 ? p.y : p.z; }
static void slab(solid *t, const solid *s, int ax, double lo, double hi, int isfirst, int islast) {
  cp(t, s);
  if (!isfirst) ref_clip_solid(t, unit(ax, 1), -lo, 1);
  if (!islast) ref_clip_solid(t, unit(ax, -1), hi, 0);
}
static void same_poly(const r3d_poly *a, const r3d_poly *b) {
  rs_assert(a->nverts == b->nverts, "input vertex count unmodified");
  for (int v = 0; v < a->nverts; v++) for (int k = 0; k < 3; k++) {
    rs_assert(a->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "input links unmodified");
    rs_eq(a->verts[v].pos.xyz[k], b->verts[v].pos.xyz[k], "input positions unmodified");
  }
}
void h_vox(void) {
  int which = rs_param("solid", 1), order = rs_param("order", 1), nm = NMOM(order), tmask = rs_param("t", 0), vmask = rs_param("v", 0), dmask = rs_param("d", 0), nsym = rs_param("nsym", 99), sc = rs_param("sc", 1);
  int N[3] = {rs_param("ni", 2), rs_param("nj", 2), rs_param("nk", 1)}, O[3] = {rs_param("oi", 0), rs_param("oj", 0), rs_param("ok", 0)};
  r3d_rvec3 d; r3d_dvec3 ib[2];
  static const double dc[3] = {1.0, 0.75, 0.5};
  int q, a, i, j, k;
  get_solid(&S, which);
  /* fit the solid into the grid box */
  { double lo[3] = {S.v[0].x, S.v[0].y, S.v[0].z}, hi[3] = {S.v[0].x, S.v[0].y, S.v[0].z}, c[3];
    for (i = 0; i < S.nv; i++) for (a = 0; a < 3; a++) { double x = gx(S.v[i], a); if (x < lo[a]) lo[a] = x; if (x > hi[a]) hi[a] = x; }
    for (i = 0; i < S.nv; i++) {
      for (a = 0; a < 3; a++) c[a] = dc[a] * (O[a] + N[a] * ((tmask >> a & 1 ? 3 : sc) / 16.0 + (gx(S.v[i], a) - lo[a]) / (hi[a] - lo[a]) * ((tmask >> a & 1) ? 10 : 16 - 2 * sc) / 16.0));
      S.v[i] = mk(c[0], c[1], c[2]);
    } }
  if (tmask) {
    double t[3];
    for (a = 0; a < 3; a++) t[a] = (tmask >> a & 1) ? rs_real("t") : 0.0;
    if (rs_param("tw", 0)) for (a = 0; a < 3; a++) if (tmask >> a & 1) { rs_assume(t[a] >= 0); rs_assume(t[a] <= rs_param("tw", 0) / 1024.0); } /* window, for solids of many vertices */
    for (i = 0; i < S.nv; i++) S.v[i] = mk(S.v[i].x + t[0], S.v[i].y + t[1], S.v[i].z + t[2]);
  }
  if (which == 1 && vmask) { /* box with symbolic extents */
    double c[2][3];
    for (a = 0; a < 3; a++) { c[0][a] = gx(S.v[0], a); c[1][a] = gx(S.v[7], a); if (vmask >> a & 1) { c[0][a] = rs_real("lo"); c[1][a] = rs_real("hi"); rs_assume(c[0][a] < c[1][a]); } }
    solid_box(&S, mk(c[0][0], c[0][1], c[0][2]), mk(c[1][0], c[1][1], c[1][2]));
  }
  if (which != 1 && vmask) /* only where the faces stay plane: simplicial solids, or prisms along their axis */
    for (i = 0; i < S.nv && i < nsym; i++) {
      if (vmask & 1) S.v[i].x = rs_real("c");
      if (vmask & 2) S.v[i].y = rs_real("c");
      if (vmask & 4) S.v[i].z = rs_real("c");
    }
  init_solid(&P, &S, which);
  poly_to_solid(&P, &S);
  for (a = 0; a < 3; a++) {
    d.xyz[a] = (dmask >> a & 1) ? rs_real("d") : dc[a];
    if (dmask >> a & 1) rs_assume(d.xyz[a] > 0);
    ib[0].ijk[a] = O[a]; ib[1].ijk[a] = O[a] + N[a];
    for (i = 0; i < S.nv; i++) { rs_assume(gx(S.v[i], a) >= d.xyz[a] * O[a]); rs_assume(gx(S.v[i], a) <= d.xyz[a] * (O[a] + N[a])); }
  }
  int tot = N[0] * N[1] * N[2] * nm;
  for (q = 0; q < tot + 2 * GUARD; q++) G[q] = I[q] = 0.5 * (q % 5) + 1;
  P0 = P;
  rs_assert(r3d_voxelize(&P, ib, G + GUARD, d, order) == 1, "voxelization succeeds");
  same_poly(&P, &P0);
  for (q = 0; q < GUARD; q++) { rs_eq(G[q], I[q], "nothing written before the grid"); rs_eq(G[GUARD + tot + q], I[GUARD + tot + q], "nothing written after the grid"); }
  rs_reach("voxelized");
  for (i = 0; i < N[0]; i++) {
    slab(&T[0], &S, 0, d.x * (O[0] + i), d.x * (O[0] + i + 1), i == 0, i == N[0] - 1);
    for (j = 0; j < N[1]; j++) {
      slab(&T[1], &T[0], 1, d.y * (O[1] + j), d.y * (O[1] + j + 1), j == 0, j == N[1] - 1);
      for (k = 0; k < N[2]; k++) {
        double m[NMOM(GO)];
        slab(&T[2], &T[1], 2, d.z * (O[2] + k), d.z * (O[2] + k + 1), k == 0, k == N[2] - 1);
        solid_mom(m, &T[2], mk(0, 0, 0), order);
        for (q = 0; q < nm; q++) {
          int at = GUARD + nm * ((i * N[1] + j) * N[2] + k) + q;
          rs_eq(G[at], I[at] + m[q], "cell holds its previous value plus the moments of the part inside it");
        }
      }
    }
  }
}
/* nothing to do: empty polyhedron or a box without cells */
void h_vox_noop(void) {
  int order = rs_param("order", 1), q, a, mode = rs_param("mode", 0);
  r3d_rvec3 d; r3d_dvec3 ib[2];
  get_solid(&S, 1); init_solid(&P, &S, 1);
  for (a = 0; a < 3; a++) { d.xyz[a] = rs_real("d"); rs_assume(d.xyz[a] > 0); ib[0].ijk[a] = rs_int("lo", -1, 1); ib[1].ijk[a] = ib[0].ijk[a] + rs_int("n", mode == 1 ? -1 : 1, 2); }
  if (mode == 1) rs_assume(ib[1].i <= ib[0].i || ib[1].j <= ib[0].j || ib[1].k <= ib[0].k);
  else if (mode == 0) P.nverts = 0;
  P0 = P;
  for (q = 0; q < 200; q++) G[q] = I[q] = 0.25 * q;
  if (mode == 2) { int w = rs_int("missing", 1, 3); r3d_voxelize(w & 1 ? 0 : &P, ib, w & 2 ? 0 : G + GUARD, d, order); }
  else r3d_voxelize(&P, ib, G + GUARD, d, order);
  same_poly(&P, &P0);
  for (q = 0; q < 200; q++) rs_eq(G[q], I[q], "grid untouched");
}
