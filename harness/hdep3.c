/* the legacy 3D library (deprecated/r3d.[ch]) */
#include "rs.h"
#include "r3d.h"
#define REF_ONLY
#include "ref3.h"
#define CLIPPED 0x80
static const int MAP[10] = {0, 1, 2, 3, 4, 7, 9, 5, 8, 6}; /* 1 x y z xx yy zz xy yz zx in the reference's order */
static const int NM[3] = {1, 4, 10};
static r3d_poly P;
static solid S, T;
static pt cross(pt a, pt b) { return mk(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static double dot3(pt a, pt b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static r3d_rvec3 rv(pt a) { r3d_rvec3 r; r.x = a.x; r.y = a.y; r.z = a.z; return r; }
static void cp(solid *t, const solid *s) {
  t->nv = s->nv; t->nf = s->nf;
  for (int i = 0; i < s->nv; i++) t->v[i] = s->v[i];
  for (int f = 0; f < s->nf; f++) { t->fn[f] = s->fn[f]; for (int i = 0; i < s->fn[f]; i++) t->fi[f][i] = s->fi[f][i]; }
}
/* simple convex solids as linked vertices, in the orientation of r3du_init_box */
static void link3(r3d_poly *p, const solid *s) {
  int v, f, i;
  p->nverts = s->nv; p->funclip = 0;
  for (v = 0; v < s->nv; v++) {
    int nx[3], pr[3], k = 0;
    for (f = 0; f < s->nf; f++) for (i = 0; i < s->fn[f]; i++) if (s->fi[f][i] == v) { nx[k] = s->fi[f][(i + 1) % s->fn[f]]; pr[k++] = s->fi[f][(i + s->fn[f] - 1) % s->fn[f]]; }
    p->verts[v].pos = rv(s->v[v]);
    p->verts[v].pnbrs[0] = nx[0]; p->verts[v].pnbrs[1] = pr[0];
    for (i = 1; i < 3; i++) if (nx[i] == pr[0]) p->verts[v].pnbrs[2] = pr[i];
    p->verts[v].orient.fflags = 0;
  }
}
/* rational unit normals */
static const double UN[8][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-2.0 / 3, -2.0 / 3, -1.0 / 3}, {0.6, 0.8, 0}, {0, -0.6, 0.8}, {-0.8, 0, -0.6}, {0.28, -0.96, 0}};
/* planes: code c picks normal UN[c%8] (negated if c >= 8); the offset is free where the mask says so */
static void planes(r3d_plane *F) {
  int f, c = rs_param("pl", 0x3210), m = rs_param("free", 1);
  for (f = 0; f < 4; f++) {
    int q = c >> (4 * f) & 15; double sg = q >= 8 ? -1 : 1;
    F[f].n = rv(mk(sg * UN[q & 7][0], sg * UN[q & 7][1], sg * UN[q & 7][2]));
    F[f].d = (m >> f & 1) ? rs_real("d") : rs_param(f == 0 ? "d0" : f == 1 ? "d1" : f == 2 ? "d2" : "d3", 1) / 8.0;
  }
  if (rs_param("tilt", 0)) { /* first normal free as well (any length: distances are scaled alike) */
    F[0].n = rv(mk(rs_real("n"), rs_real("n"), rs_real("n")));
    rs_assume(F[0].n.x != 0 || F[0].n.y != 0 || F[0].n.z != 0);
  }
}
static pt pn(const r3d_plane *f) { return mk(f->n.x, f->n.y, f->n.z); }
static void refclip(solid *t, const r3d_plane *F, int skip) { for (int f = 0; f < 4; f++) if (!(skip >> f & 1)) ref_clip_solid(t, pn(&F[f]), F[f].d, 1); }
static void cmp(const double *m, const solid *t, int order, const char *msg) {
  double r[10]; solid_mom(r, t, mk(0, 0, 0), order);
  for (int q = 0; q < NM[order]; q++) rs_eq(m[q], r[MAP[q]], msg);
}
/* links among the vertices that are left */
static void linked(const r3d_poly *p) {
  rs_assert(p->nverts >= 0 && p->nverts <= R3D_MAX_VERTS, "vertex count within the buffer");
  for (int v = 0; v < p->nverts; v++) {
    if (p->verts[v].orient.fflags & CLIPPED) continue;
    for (int i = 0; i < 3; i++) {
      int k = p->verts[v].pnbrs[i], b = 0;
      rs_assert(k < p->nverts && k != v, "links name other vertices");
      if (k >= p->nverts) return;
      rs_assert(!(p->verts[k].orient.fflags & CLIPPED), "no link leads to a clipped vertex");
      for (int j = 0; j < 3; j++) b += p->verts[k].pnbrs[j] == v;
      rs_assert(b == 1, "links are mutual");
    }
  }
}
void hd_clip(void) {
  int w = rs_param("solid", 1), order = rs_param("order", 2), skip = rs_param("skip", 0), f, v, i, nv; r3d_plane F[4]; r3d_real m[11];
  get_solid(&S, w);
  if (w >= 100) for (i = 0; i < S.nv; i++) S.v[i] = mk(S.v[i].x / 4, S.v[i].y / 4, S.v[i].z);
  if (rs_param("move", 0)) { double t = rs_real("t"); for (i = 0; i < S.nv; i++) { S.v[i].x += t; } }
  if (w == 1 && !rs_param("own", 0)) { r3d_rvec3 b[2] = {rv(S.v[0]), rv(S.v[7])}; r3du_init_box(&P, b); } else link3(&P, &S);
  planes(F);
  nv = P.nverts;
  unsigned char andcmp = 0x0f;
  for (v = 0; v < nv; v++) {
    P.verts[v].orient.fflags = 0;
    for (f = 0; f < 4; f++) {
      double d = sd(pn(&F[f]), F[f].d, mk(P.verts[v].pos.x, P.verts[v].pos.y, P.verts[v].pos.z));
      if (skip >> f & 1) { P.verts[v].orient.fdist[f] = 1; P.verts[v].orient.fflags |= 1 << f; continue; }
      P.verts[v].orient.fdist[f] = d;
      if (d > 0) P.verts[v].orient.fflags |= 1 << f;
    }
    andcmp &= P.verts[v].orient.fflags;
  }
  if (rs_param("noand", 0)) andcmp = skip;
  r3d_clip_tet(&P, andcmp);
  linked(&P);
  for (i = 0; i < 11; i++) m[i] = 77;
  r3d_reduce(&P, order, m);
  rs_assert(m[10] == 77, "nothing written beyond ten moments");
  rs_reach("clipped");
  cp(&T, &S); refclip(&T, F, skip);
  cmp(m, &T, order, "moments of the intersection with the four half-spaces");
  double vol[1]; linked(&P); (void)vol;
}
#define GM 33300
#define GG 3
static double G[10][GM + 2 * GG]; static r3d_orientation O[140000];
void hd_vox(void) {
  int N[3] = {rs_param("ni", 2), rs_param("nj", 1), rs_param("nk", 1)}, order = rs_param("order", 1), i, j, k, q, a, dm = rs_param("dd", 0), mt = rs_param("mt", 0), tot, nm = NM[order];
  r3d_dest_grid g; r3d_plane F[4], F0[4]; double d[3];
  static const double dc[3] = {1.0, 0.75, 0.5};
  for (a = 0; a < 3; a++) if (rs_param("sn", 0) >> a & 1) N[a] = rs_int("n", 1, N[a]);
  for (a = 0; a < 3; a++) { d[a] = dc[a]; if (dm >> a & 1) { d[a] = rs_real("h"); rs_assume(d[a] > 0); } }
  planes(F);
  (void)mt;
  tot = N[0] * N[1] * N[2];
  for (q = 0; q < 10; q++) { for (i = 0; i < tot + 2 * GG; i++) G[q][i] = 0.5 * (i % 5) + q + 1; g.moments[q] = q < nm ? G[q] + GG : 0; }
  g.polyorder = order; g.orient = O; g.bufsz = 140000; g.n.i = N[0]; g.n.j = N[1]; g.n.k = N[2]; g.d = rv(mk(d[0], d[1], d[2]));
  for (i = 0; i < 4; i++) F0[i] = F[i];
  r3d_voxelize_tet(F, &g);
  rs_reach("voxelized");
  for (i = 0; i < 4; i++) { rs_eq(F[i].d, F0[i].d, "faces unmodified"); rs_eq(F[i].n.x, F0[i].n.x, "faces unmodified"); rs_eq(F[i].n.y, F0[i].n.y, "faces unmodified"); rs_eq(F[i].n.z, F0[i].n.z, "faces unmodified"); }
  rs_assert(g.n.i == N[0] && g.n.j == N[1] && g.n.k == N[2] && g.polyorder == order, "grid description unmodified");
  for (q = 0; q < 10; q++) for (i = 0; i < GG; i++) { rs_eq(G[q][i], 0.5 * (i % 5) + q + 1, "nothing written before the grid"); rs_eq(G[q][GG + tot + i], 0.5 * ((GG + tot + i) % 5) + q + 1, "nothing written after the grid"); }
  for (i = 0; i < N[0]; i++) for (j = 0; j < N[1]; j++) for (k = 0; k < N[2]; k++) {
    double m[10]; int at = GG + (i * N[1] + j) * N[2] + k;
    if (rs_param("cw", 0) && at - GG >= 6 && (at - GG < rs_param("cw", 0) || at - GG >= rs_param("cw", 0) + 40)) continue; /* long grids: cells of a window only */
    solid_box(&T, mk(d[0] * i, d[1] * j, d[2] * k), mk(d[0] * (i + 1), d[1] * (j + 1), d[2] * (k + 1)));
    refclip(&T, F, 0);
    for (q = 0; q < nm; q++) m[q] = G[q][at];
    cmp(m, &T, order, "cell holds the moments of its part of the tetrahedron");
  }
}
void hd_reduce(void) {
  int w = rs_param("solid", 0), order = rs_param("order", 2), mk_ = rs_param("mask", 0xfff), i, k; r3d_real m[11];
  get_solid(&S, w);
  if (w == 0) { for (i = 0; i < 4; i++) { double c[3] = {S.v[i].x, S.v[i].y, S.v[i].z}; for (k = 0; k < 3; k++) if (mk_ >> (3 * i + k) & 1) c[k] = rs_real("c"); S.v[i] = mk(c[0], c[1], c[2]); } }
  else { double t[3]; for (k = 0; k < 3; k++) t[k] = (mk_ >> k & 1) ? rs_real("t") : 0; for (i = 0; i < S.nv; i++) S.v[i] = mk(S.v[i].x + t[0], S.v[i].y + t[1], S.v[i].z + t[2]); }
  link3(&P, &S);
  for (i = 0; i < 11; i++) m[i] = 77;
  r3d_reduce(&P, order, m);
  rs_assert(m[10] == 77, "nothing written beyond ten moments");
  cmp(m, &S, order, "moments of the polyhedron");
  linked(&P);
  rs_assert(P.nverts == S.nv, "polyhedron unmodified");
}
void hd_box(void) {
  r3d_rvec3 b[2]; int a, order = rs_param("order", 2); double lo[3], hi[3]; r3d_real m[11];
  for (a = 0; a < 3; a++) { lo[a] = rs_real("lo"); hi[a] = rs_real("hi"); rs_assume(lo[a] < hi[a]); }
  b[0] = rv(mk(lo[0], lo[1], lo[2])); b[1] = rv(mk(hi[0], hi[1], hi[2]));
  static r3d_poly *Q; r3d_poly L; Q = &L; /* automatic storage: contents indeterminate */
  r3du_init_box(Q, b);
  rs_assert(Q->nverts == 8, "eight vertices");
  linked(Q);
  r3d_reduce(Q, order, m);
  solid_box(&S, mk(lo[0], lo[1], lo[2]), mk(hi[0], hi[1], hi[2]));
  cmp(m, &S, order, "moments of the box");
}
static const int TB[3][4][3] = {{{0, 0, 0}, {3, 0, 0}, {0, 2, 0}, {0, 0, 1}}, {{1, -2, 5}, {4, -1, 6}, {0, 3, 5}, {2, 0, 9}}, {{-7, 2, 1}, {2, -3, 3}, {3, 5, -1}, {1, 1, 6}}};
void hd_faces(void) {
  int b = rs_param("base", 0), m = rs_param("mask", 0xfff), i, k, f; r3d_rvec3 v[4]; r3d_plane F[5]; pt p[4];
  for (i = 0; i < 4; i++) { double c[3]; for (k = 0; k < 3; k++) c[k] = (m >> (3 * i + k) & 1) ? rs_real("c") : TB[b][i][k]; p[i] = mk(c[0], c[1], c[2]); v[i] = rv(p[i]); }
  rs_assume(det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])) > 0);
  for (f = 0; f < 4; f++) { pt a = p[(f + 1) % 4], n = cross(sub(p[(f + 2) % 4], a), sub(p[(f + 3) % 4], a)); rs_assume(dot3(n, n) > 0); }
  F[4].d = 77;
  r3du_tet_faces_from_verts(v, F);
  rs_assert(F[4].d == 77, "nothing written beyond the four planes");
  int used[4] = {0, 0, 0, 0};
  for (k = 0; k < 4; k++) {
    for (f = 0; f < 4; f++) { if (used[f]) continue; for (i = 0; i < 4; i++) if (i != k && !rs_same(sd(pn(&F[f]), F[f].d, p[i]), 0)) break; if (i == 4) break; }
    rs_assert(f < 4, "each face's vertices lie on one of the planes");
    if (f == 4) return;
    used[f] = 1;
    rs_eq(dot3(pn(&F[f]), pn(&F[f])), 1, "unit normal");
    rs_lt(0, sd(pn(&F[f]), F[f].d, p[k]), "the opposite vertex is on the positive side");
  }
  for (i = 0; i < 4; i++) { rs_eq(v[i].x, p[i].x, "vertices unmodified"); rs_eq(v[i].y, p[i].y, "vertices unmodified"); rs_eq(v[i].z, p[i].z, "vertices unmodified"); }
}
void hd_orient(void) {
  pt p[4]; for (int i = 0; i < 4; i++) p[i] = mk(rs_real("x"), rs_real("y"), rs_real("z"));
  rs_eq(r3du_orient(rv(p[0]), rv(p[1]), rv(p[2]), rv(p[3])), det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])) / 6.0, "signed volume");
}
/* history for jobs with pre=1: other grids, orders, boxes and clips; nothing of it may show in what follows */
void rs_prelude(void) {
  static const int n[3][3] = {{3, 2, 2}, {1, 1, 1}, {2, 1, 4}}; static r3d_poly Q; r3d_real m[10]; r3d_dest_grid g;
  static const double pl[4][4] = {{1, 0, 0, -0.25}, {0, 1, 0, -0.25}, {0, 0, 1, -0.25}, {-1, -1, -1, 2}};
  r3d_plane F[4];
  for (int f = 0; f < 4; f++) { F[f].n = rv(mk(pl[f][0], pl[f][1], pl[f][2])); F[f].d = pl[f][3]; }
  for (int t = 0; t < 3; t++) {
    for (int q = 0; q < 10; q++) g.moments[q] = q < NM[2 - t] ? G[q] : 0;
    g.polyorder = 2 - t; g.orient = O; g.bufsz = 140000; g.n.i = n[t][0]; g.n.j = n[t][1]; g.n.k = n[t][2]; g.d = rv(mk(0.5, 1, 0.5 + t));
    r3d_voxelize_tet(F, &g);
    r3d_rvec3 b[2] = {rv(mk(0, 0, 0)), rv(mk(1 + t, 1, 2))};
    r3du_init_box(&Q, b);
    for (int v = 0; v < 8; v++) for (int f = 0; f < 4; f++) {
      double d = sd(pn(&F[f]), F[f].d, mk(Q.verts[v].pos.x, Q.verts[v].pos.y, Q.verts[v].pos.z));
      if (f == 0) Q.verts[v].orient.fflags = 0;
      Q.verts[v].orient.fdist[f] = d; if (d > 0) Q.verts[v].orient.fflags |= 1 << f;
    }
    r3d_clip_tet(&Q, 0); r3d_reduce(&Q, t, m);
  }
}
