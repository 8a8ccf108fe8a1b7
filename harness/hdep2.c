/* the legacy 2D library (deprecated/r2d.[ch]) */
#include "rs.h"
#include "r2d.h"
#define REF_ONLY
#include "ref2.h"
#define CLIPPED 0x80
static const int MAP[6] = {0, 1, 2, 3, 5, 4}; /* 1 x y xx yy xy in the reference's order */
static const int NM[3] = {1, 3, 6};
static r2d_poly P;
static rgn S, T;
static r2d_rvec2 rv2(p2 a) { r2d_rvec2 r; r.x = a.x; r.y = a.y; return r; }
static void cp(rgn *t, const rgn *s) {
  t->nv = s->nv; t->nl = s->nl;
  for (int i = 0; i < s->nv; i++) t->v[i] = s->v[i];
  for (int l = 0; l < s->nl; l++) { t->ln[l] = s->ln[l]; for (int i = 0; i < s->ln[l]; i++) t->li[l][i] = s->li[l][i]; }
}
static void link2(r2d_poly *p, const rgn *s) { /* next (counter-clockwise) = pnbrs[1], as in r2du_init_box */
  int n = s->nv; p->nverts = n; p->funclip = 0;
  for (int i = 0; i < n; i++) { p->verts[i].pos = rv2(s->v[i]); p->verts[i].pnbrs[1] = (i + 1) % n; p->verts[i].pnbrs[0] = (i + n - 1) % n; p->verts[i].orient.fflags = 0; }
}
static const double UN[8][2] = {{1, 0}, {0, 1}, {-0.6, -0.8}, {0.6, -0.8}, {-0.8, 0.6}, {0.28, 0.96}, {-1, 0}, {0, -1}};
static void lines(r2d_plane *F) {
  int f, c = rs_param("pl", 0x3210), m = rs_param("free", 1);
  for (f = 0; f < 4; f++) {
    int q = c >> (4 * f) & 15; double sg = q >= 8 ? -1 : 1;
    F[f].n = rv2(m2(sg * UN[q & 7][0], sg * UN[q & 7][1]));
    F[f].d = (m >> f & 1) ? rs_real("d") : rs_param(f == 0 ? "d0" : f == 1 ? "d1" : f == 2 ? "d2" : "d3", 1) / 8.0;
    if (rs_param("tilt", 0) >> f & 1) { F[f].n = rv2(m2(rs_real("n"), rs_real("n"))); rs_assume(F[f].n.x != 0 || F[f].n.y != 0); }
  }
}
static p2 pn(const r2d_plane *f) { return m2(f->n.x, f->n.y); }
static void refclip(rgn *t, const r2d_plane *F, int skip) { for (int f = 0; f < 4; f++) if (!(skip >> f & 1)) ref_clip_rgn(t, pn(&F[f]), F[f].d, 1); }
static void cmp(const double *m, const rgn *t, int order, const char *msg) {
  double r[6]; rgn_mom(r, t, m2(0, 0), order);
  for (int q = 0; q < NM[order]; q++) rs_eq(m[q], r[MAP[q]], msg);
}
static void linked(const r2d_poly *p) {
  rs_assert(p->nverts >= 0 && p->nverts <= R2D_MAX_VERTS, "vertex count within the buffer");
  for (int v = 0; v < p->nverts; v++) {
    if (p->verts[v].orient.fflags & CLIPPED) continue;
    int a = p->verts[v].pnbrs[0], b = p->verts[v].pnbrs[1];
    rs_assert(a < p->nverts && b < p->nverts && a != v && b != v, "links name other vertices");
    if (a >= p->nverts || b >= p->nverts) return;
    rs_assert(!(p->verts[a].orient.fflags & CLIPPED) && !(p->verts[b].orient.fflags & CLIPPED), "no link leads to a clipped vertex");
    rs_assert(p->verts[a].pnbrs[1] == v && p->verts[b].pnbrs[0] == v, "links are mutual");
  }
}
void hd2_clip(void) {
  int w = rs_param("rgn", 1), order = rs_param("order", 2), skip = rs_param("skip", 0), full = rs_param("full", 0), f, v, i; r2d_plane F[4]; r2d_real m[7];
  get_rgn(&S, w);
  for (i = 0; i < full; i++) S.v[i] = m2(rs_real("x"), rs_real("y"));
  if (full) for (i = 0; i < S.nv; i++) { p2 a = S.v[i], b = S.v[(i + 1) % S.nv], c = S.v[(i + 2) % S.nv]; rs_assume((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) > 0); }
  if (w == 1 && !full && !rs_param("own", 0)) { r2d_rvec2 b[2] = {rv2(S.v[0]), rv2(S.v[2])}; r2du_init_box(&P, b); } else link2(&P, &S);
  lines(F);
  unsigned char andcmp = 0x0f;
  for (v = 0; v < P.nverts; v++) {
    P.verts[v].orient.fflags = 0;
    for (f = 0; f < 4; f++) {
      double d = sd2(pn(&F[f]), F[f].d, m2(P.verts[v].pos.x, P.verts[v].pos.y));
      if (skip >> f & 1) { P.verts[v].orient.fdist[f] = 1; P.verts[v].orient.fflags |= 1 << f; continue; }
      P.verts[v].orient.fdist[f] = d;
      if (d > 0) P.verts[v].orient.fflags |= 1 << f;
    }
    andcmp &= P.verts[v].orient.fflags;
  }
  if (rs_param("noand", 0)) andcmp = skip;
  r2d_clip_quad(&P, andcmp);
  linked(&P);
  for (i = 0; i < 7; i++) m[i] = 77;
  r2d_reduce(&P, order, m);
  rs_assert(m[6] == 77, "nothing written beyond six moments");
  rs_reach("clipped");
  cp(&T, &S); refclip(&T, F, skip);
  cmp(m, &T, order, "moments of the intersection with the four half-planes");
}
#define GM 33300
#define GG 3
static double G[6][GM + 2 * GG]; static r2d_orientation O[140000];
void hd2_ras(void) {
  int N[2] = {rs_param("ni", 2), rs_param("nj", 1)}, order = rs_param("order", 1), i, j, q, a, dm = rs_param("dd", 0), tot, nm = NM[order];
  r2d_dest_grid g; r2d_plane F[4], F0[4]; double d[2];
  static const double dc[2] = {1.0, 0.75};
  for (a = 0; a < 2; a++) if (rs_param("sn", 0) >> a & 1) N[a] = rs_int("n", 1, N[a]);
  for (a = 0; a < 2; a++) { d[a] = dc[a]; if (dm >> a & 1) { d[a] = rs_real("h"); rs_assume(d[a] > 0); } }
  lines(F);
  tot = N[0] * N[1];
  for (q = 0; q < 6; q++) { for (i = 0; i < tot + 2 * GG; i++) G[q][i] = 0.5 * (i % 5) + q + 1; g.moments[q] = q < nm ? G[q] + GG : 0; }
  g.polyorder = order; g.orient = O; g.bufsz = 140000; g.n.i = N[0]; g.n.j = N[1]; g.d = rv2(m2(d[0], d[1]));
  for (i = 0; i < 4; i++) F0[i] = F[i];
  r2d_rasterize_quad(F, &g);
  rs_reach("rasterized");
  for (i = 0; i < 4; i++) { rs_eq(F[i].d, F0[i].d, "faces unmodified"); rs_eq(F[i].n.x, F0[i].n.x, "faces unmodified"); rs_eq(F[i].n.y, F0[i].n.y, "faces unmodified"); }
  rs_assert(g.n.i == N[0] && g.n.j == N[1] && g.polyorder == order, "grid description unmodified");
  for (q = 0; q < 6; q++) for (i = 0; i < GG; i++) { rs_eq(G[q][i], 0.5 * (i % 5) + q + 1, "nothing written before the grid"); rs_eq(G[q][GG + tot + i], 0.5 * ((GG + tot + i) % 5) + q + 1, "nothing written after the grid"); }
  for (i = 0; i < N[0]; i++) for (j = 0; j < N[1]; j++) {
    double m[6]; int at = GG + i * N[1] + j;
    if (rs_param("cw", 0) && at - GG >= 6 && (at - GG < rs_param("cw", 0) || at - GG >= rs_param("cw", 0) + 40)) continue; /* long grids: cells of a window only */
    double c[4][2] = {{d[0] * i, d[1] * j}, {d[0] * (i + 1), d[1] * j}, {d[0] * (i + 1), d[1] * (j + 1)}, {d[0] * i, d[1] * (j + 1)}};
    T.nv = 0; T.nl = 0; loop_from(&T, c, 4);
    refclip(&T, F, 0);
    for (q = 0; q < nm; q++) m[q] = G[q][at];
    cmp(m, &T, order, "cell holds the moments of its part of the quadrilateral");
  }
}
void hd2_reduce(void) {
  int w = rs_param("rgn", 0), order = rs_param("order", 2), full = rs_param("full", 0), i; r2d_real m[7]; double t[2] = {0, 0};
  get_rgn(&S, w);
  if (!full) { t[0] = rs_real("t"); t[1] = rs_real("t"); }
  for (i = 0; i < S.nv; i++) S.v[i] = i < full ? m2(rs_real("x"), rs_real("y")) : m2(S.v[i].x + t[0], S.v[i].y + t[1]);
  link2(&P, &S);
  for (i = 0; i < 7; i++) m[i] = 77;
  r2d_reduce(&P, order, m);
  rs_assert(m[6] == 77, "nothing written beyond six moments");
  cmp(m, &S, order, "moments of the polygon");
  linked(&P);
}
void hd2_box(void) {
  r2d_rvec2 b[2]; int order = rs_param("order", 2); r2d_real m[7]; double x0 = rs_real("lo"), y0 = rs_real("lo"), x1 = rs_real("hi"), y1 = rs_real("hi");
  rs_assume(x0 < x1); rs_assume(y0 < y1);
  b[0] = rv2(m2(x0, y0)); b[1] = rv2(m2(x1, y1));
  static r2d_poly *Q; r2d_poly L; Q = &L;
  r2du_init_box(Q, b);
  rs_assert(Q->nverts == 4, "four vertices");
  linked(Q);
  r2d_reduce(Q, order, m);
  double c[4][2] = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}};
  T.nv = 0; T.nl = 0; loop_from(&T, c, 4);
  cmp(m, &T, order, "moments of the box");
}
void hd2_faces(void) {
  int n = rs_param("n", 4), full = rs_param("full", 1), i, f; r2d_rvec2 v[64]; static r2d_plane F[65];
  get_rgn(&S, n == 3 ? 0 : n == 4 ? 1 : n == 5 ? 2 : 100 + n);
  for (i = 0; i < n && full; i++) S.v[i] = m2(rs_real("x"), rs_real("y"));
  if (!full) { double tx = rs_real("t"), ty = rs_real("t"); for (i = 0; i < n; i++) S.v[i] = m2(S.v[i].x + tx, S.v[i].y + ty); }
  for (i = 0; i < n; i++) {
    p2 a = S.v[i], b = S.v[(i + 1) % n]; v[i] = rv2(a);
    for (f = 0; f < n; f++) if (f != i && f != (i + 1) % n) rs_assume((b.x - a.x) * (S.v[f].y - a.y) - (b.y - a.y) * (S.v[f].x - a.x) > 0); /* convex, counter-clockwise */
  }
  F[n].d = 77;
  r2du_faces_from_verts(v, n, F);
  rs_assert(F[n].d == 77, "nothing written beyond the lines");
  for (i = 0; i < n; i++) {
    rs_eq(pn(&F[i]).x * pn(&F[i]).x + pn(&F[i]).y * pn(&F[i]).y, 1, "unit normal");
    rs_eq(sd2(pn(&F[i]), F[i].d, S.v[i]), 0, "the edge's first vertex is on its line");
    rs_eq(sd2(pn(&F[i]), F[i].d, S.v[(i + 1) % n]), 0, "the edge's second vertex is on its line");
    for (f = 0; f < n; f++) if (f != i && f != (i + 1) % n && (full == 0 || n < 5 || f == (i + 2) % n)) rs_lt(0, sd2(pn(&F[i]), F[i].d, S.v[f]), "the polygon is on the positive side");
    rs_eq(v[i].x, S.v[i].x, "vertices unmodified"); rs_eq(v[i].y, S.v[i].y, "vertices unmodified");
  }
}
void hd2_orient(void) {
  p2 p[3]; for (int i = 0; i < 3; i++) p[i] = m2(rs_real("x"), rs_real("y"));
  rs_eq(r2du_orient(rv2(p[0]), rv2(p[1]), rv2(p[2])), 0.5 * ((p[2].x - p[0].x) * (p[1].y - p[0].y) - (p[1].x - p[0].x) * (p[2].y - p[0].y)), "signed area, positive for clockwise order");
}
/* history for jobs with pre=1: other grids, orders, boxes and clips; nothing of it may show in what follows */
void rs_prelude(void) {
  static const int n[3][2] = {{3, 2}, {1, 1}, {2, 5}}; static r2d_poly Q; r2d_real m[6]; r2d_dest_grid g;
  static const double pl[4][3] = {{1, 0, -0.25}, {0, 1, -0.25}, {-1, 0, 1.25}, {-1, -1, 2}};
  r2d_plane F[4];
  for (int f = 0; f < 4; f++) { F[f].n = rv2(m2(pl[f][0], pl[f][1])); F[f].d = pl[f][2]; }
  for (int t = 0; t < 3; t++) {
    for (int q = 0; q < 6; q++) g.moments[q] = q < NM[2 - t] ? G[q] : 0;
    g.polyorder = 2 - t; g.orient = O; g.bufsz = 140000; g.n.i = n[t][0]; g.n.j = n[t][1]; g.d = rv2(m2(0.5, 0.5 + t));
    r2d_rasterize_quad(F, &g);
    r2d_rvec2 b[2] = {rv2(m2(0, 0)), rv2(m2(1 + t, 2))};
    r2du_init_box(&Q, b);
    for (int v = 0; v < 4; v++) for (int f = 0; f < 4; f++) {
      double d = sd2(pn(&F[f]), F[f].d, m2(Q.verts[v].pos.x, Q.verts[v].pos.y));
      if (f == 0) Q.verts[v].orient.fflags = 0;
      Q.verts[v].orient.fdist[f] = d; if (d > 0) Q.verts[v].orient.fflags |= 1 << f;
    }
    r2d_clip_quad(&Q, 0); r2d_reduce(&Q, t, m);
  }
}
