/* planes derived from shapes */
#include "ref3.h"
#include "ref2.h"
static pt cross(pt a, pt b) { return mk(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static double dot3(pt a, pt b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static pt pn(const r3d_plane *f) { return mk(f->n.x, f->n.y, f->n.z); }
static double dist(const r3d_plane *f, pt a) { return sd(pn(f), f->d, a); }
static void unit(const r3d_plane *f) { rs_eq(dot3(pn(f), pn(f)), 1, "unit normal"); }
/* a tetrahedron with positive orientation; full: symbolic coordinates per vertex (bits per coordinate) */
static const int TB[3][4][3] = {{{0, 0, 0}, {3, 0, 0}, {0, 2, 0}, {0, 0, 1}}, {{1, -2, 5}, {4, -1, 6}, {0, 3, 5}, {2, 0, 9}}, {{-7, 2, 1}, {2, -3, 3}, {3, 5, -1}, {1, 1, 6}}};
void h_tet_faces(void) {
  int b = rs_param("base", 0), m = rs_param("mask", 0xfff), perm = rs_param("perm", 0), i, k, f;
  r3d_rvec3 v[4], w[4]; r3d_plane F[5]; pt p[4];
  for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) v[i].xyz[k] = (m >> (3 * i + k) & 1) ? rs_real("c") : TB[b][i][k];
  if (perm) { r3d_rvec3 t = v[0]; v[0] = v[perm & 3]; v[perm & 3] = t; t = v[1]; v[1] = v[perm >> 2 & 3]; v[perm >> 2 & 3] = t; }
  for (i = 0; i < 4; i++) { p[i] = mk(v[i].x, v[i].y, v[i].z); w[i] = v[i]; }
  rs_assume(det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])) > 0); /* the orientation r3d_orient calls positive */
  for (f = 0; f < 4; f++) { pt a = p[(f + 1) % 4], n = cross(sub(p[(f + 2) % 4], a), sub(p[(f + 3) % 4], a)); rs_assume(dot3(n, n) > 0); }
  F[4].d = 77; F[4].n.x = F[4].n.y = F[4].n.z = 5;
  r3d_tet_faces_from_verts(F, v);
  rs_assert(F[4].d == 77 && F[4].n.x == 5 && F[4].n.y == 5 && F[4].n.z == 5, "nothing written beyond the four planes");
  int used[4] = {0, 0, 0, 0};
  for (k = 0; k < 4; k++) { /* the face opposite to vertex k */
    for (f = 0; f < 4; f++) { if (used[f]) continue; for (i = 0; i < 4; i++) if (i != k && !rs_same(dist(&F[f], p[i]), 0)) break; if (i == 4) break; }
    rs_assert(f < 4, "each face's vertices lie on one of the planes");
    if (f == 4) return;
    used[f] = 1;
    unit(&F[f]);
    rs_lt(0, dist(&F[f], p[k]), "the opposite vertex is on the positive side");
  }
  for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) rs_eq(v[i].xyz[k], w[i].xyz[k], "vertices unmodified");
}
void h_box_faces(void) {
  r3d_rvec3 b[2]; r3d_plane F[7]; int a, f, s, i;
  for (a = 0; a < 3; a++) { b[0].xyz[a] = rs_real("lo"); b[1].xyz[a] = rs_real("hi"); rs_assume(b[0].xyz[a] < b[1].xyz[a]); }
  F[6].d = 77;
  r3d_box_faces_from_verts(F, b);
  rs_assert(F[6].d == 77, "nothing written beyond the six planes");
  int used[6] = {0, 0, 0, 0, 0, 0};
  for (a = 0; a < 3; a++) for (s = 0; s < 2; s++) {
    for (f = 0; f < 6; f++) {
      if (used[f]) continue;
      for (i = 0; i < 8; i++) if ((i >> a & 1) == s && !rs_same(dist(&F[f], mk(b[i & 1].x, b[i >> 1 & 1].y, b[i >> 2].z)), 0)) break;
      if (i == 8) break;
    }
    rs_assert(f < 6, "each face's vertices lie on one of the planes");
    if (f == 6) return;
    used[f] = 1; unit(&F[f]);
    for (i = 0; i < 8; i++) if ((i >> a & 1) != s) rs_lt(0, dist(&F[f], mk(b[i & 1].x, b[i >> 1 & 1].y, b[i >> 2].z)), "the box is on the positive side");
  }
}
static solid S, T; static r3d_plane G[MAXF];
static void check_poly_faces(void) {
  static r3d_rvec3 v[MAXSV]; static r3d_int *fi[MAXF]; static r3d_int buf[MAXF][MAXFV], cnt[MAXF];
  int f, i;
  for (i = 0; i < S.nv; i++) v[i] = rv(S.v[i]);
  for (f = 0; f < S.nf; f++) { fi[f] = buf[f]; cnt[f] = S.fn[f]; for (i = 0; i < S.fn[f]; i++) buf[f][i] = S.fi[f][i]; }
  G[S.nf].d = 77;
  r3d_poly_faces_from_verts(G, v, S.nv, fi, cnt, S.nf);
  rs_assert(G[S.nf].d == 77, "nothing written beyond the planes");
  for (f = 0; f < S.nf; f++) {
    pt N = mk(0, 0, 0), o = S.v[S.fi[f][0]];
    for (i = 1; i + 1 < S.fn[f]; i++) { pt c = cross(sub(S.v[S.fi[f][i]], o), sub(S.v[S.fi[f][i + 1]], o)); N = mk(N.x + c.x, N.y + c.y, N.z + c.z); }
    rs_assert(cnt[f] == S.fn[f], "description unmodified");
    unit(&G[f]);
    for (i = 0; i < S.fn[f]; i++) { rs_eq(dist(&G[f], S.v[S.fi[f][i]]), 0, "the plane contains the face's vertices"); rs_assert(buf[f][i] == S.fi[f][i], "description unmodified"); }
    rs_lt(0, dot3(pn(&G[f]), N), "the normal is oriented by the face's vertex order");
  }
  for (i = 0; i < S.nv; i++) { rs_eq(v[i].x, S.v[i].x, "vertices unmodified"); rs_eq(v[i].y, S.v[i].y, "vertices unmodified"); rs_eq(v[i].z, S.v[i].z, "vertices unmodified"); }
}
static void nonzero_faces(void) {
  for (int f = 0; f < S.nf; f++) {
    pt N = mk(0, 0, 0), o = S.v[S.fi[f][0]];
    for (int i = 1; i + 1 < S.fn[f]; i++) { pt c = cross(sub(S.v[S.fi[f][i]], o), sub(S.v[S.fi[f][i + 1]], o)); N = mk(N.x + c.x, N.y + c.y, N.z + c.z); }
    rs_assume(dot3(N, N) > 0);
  }
}
/* any coordinates (triangles only), or any position and scale (any faces); rot: each face's list rotated */
void h_poly_faces(void) {
  int w = rs_param("solid", 1), full = rs_param("full", 0), m = rs_param("mask", 7), rot = rs_param("rot", 0), flip = rs_param("flip", 0), f, i;
  get_solid(&S, w);
  if (full) { for (i = 0; i < S.nv; i++) for (f = 0; f < 3; f++) if (i >= S.nv - full) { double x = rs_real("c"); if (f == 0) S.v[i].x = x; else if (f == 1) S.v[i].y = x; else S.v[i].z = x; } }
  else {
    double s = rs_param("scale", 0) ? rs_real("s") : 1, h = rs_param("shear", 0) ? rs_real("h") : 0;
    pt t = mk((m & 1) ? rs_real("x") : 0, (m & 2) ? rs_real("y") : 0, (m & 4) ? rs_real("z") : 0);
    if (rs_param("scale", 0)) rs_assume(s > 0);
    for (i = 0; i < S.nv; i++) S.v[i] = mk(S.v[i].x * s + h * S.v[i].z + t.x, S.v[i].y + t.y, S.v[i].z + t.z);
  }
  if (flip) for (f = 0; f < S.nf; f++) for (i = 0; i < S.fn[f] / 2; i++) { int x = S.fi[f][i]; S.fi[f][i] = S.fi[f][S.fn[f] - 1 - i]; S.fi[f][S.fn[f] - 1 - i] = x; }
  if (rot) for (f = 0; f < S.nf; f++) { int t[MAXFV], r = rot < 0 ? rs_int("r", 0, S.fn[f] > 8 ? 8 : S.fn[f] - 1) : (f * rot + 1) % S.fn[f]; for (i = 0; i < S.fn[f]; i++) t[i] = S.fi[f][(i + r) % S.fn[f]]; for (i = 0; i < S.fn[f]; i++) S.fi[f][i] = t[i]; }
  if (full || rs_param("shear", 0)) nonzero_faces();
  check_poly_faces();
}
/* one polygon with n vertices in a plane, nonconvex (star-shaped zigzag), any position, any starting vertex */
void h_face_ngon(void) {
  int n = rs_param("n", 7), r = rs_int("r", 0, rs_param("n", 7) - 1), tilt = rs_param("tilt", 1), i;
  pt t = mk(rs_real("x"), rs_real("y"), rs_real("z"));
  S.nv = n; S.nf = 1; S.fn[0] = n;
  for (i = 0; i < n; i++) { /* x-monotone boundary: a row of teeth below, a straight line above */
    double x = i < n - 2 ? i : (i == n - 2 ? n : -1), y = i < n - 2 ? (i % 2 ? -3 : 0) : 2;
    S.v[i] = mk(x + t.x, y + tilt * x + t.y, 2 * y - x * tilt + t.z);
    S.fi[0][i] = (i + r) % n;
  }
  check_poly_faces();
}
/* star-shaped face with k long tips and deep notches, any position, any starting vertex: corners turn the wrong way where it is notched */
void h_face_star(void) {
  static const int X[8] = {10, 1, 0, -1, -10, -1, 0, 1}, Y[8] = {0, 1, 10, 1, 0, -1, -10, -1};
  int r = rs_int("r", 0, 7), tilt = rs_param("tilt", 1), i;
  pt t = mk(rs_real("x"), rs_real("y"), rs_real("z"));
  S.nv = 8; S.nf = 1; S.fn[0] = 8;
  for (i = 0; i < 8; i++) { S.v[i] = mk(X[i] + t.x, Y[i] + tilt * X[i] + t.y, 2 * Y[i] - X[i] * tilt + t.z); S.fi[0][i] = (i + r) % 8; }
  check_poly_faces();
}
/* ---- 2D ---- */
static double dist2(const r2d_plane *f, p2 a) { return f->n.x * a.x + f->n.y * a.y + f->d; }
static void unit2(const r2d_plane *f) { rs_eq(f->n.x * f->n.x + f->n.y * f->n.y, 1, "unit normal"); }
void h_box_faces2(void) {
  r2d_rvec2 b[2]; r2d_plane F[5]; int a, f, s, i, used[4] = {0, 0, 0, 0};
  for (a = 0; a < 2; a++) { b[0].xy[a] = rs_real("lo"); b[1].xy[a] = rs_real("hi"); rs_assume(b[0].xy[a] < b[1].xy[a]); }
  F[4].d = 77;
  r2d_box_faces_from_verts(F, b);
  rs_assert(F[4].d == 77, "nothing written beyond the four planes");
  for (a = 0; a < 2; a++) for (s = 0; s < 2; s++) {
    for (f = 0; f < 4; f++) {
      if (used[f]) continue;
      for (i = 0; i < 4; i++) if ((i >> a & 1) == s && !rs_same(dist2(&F[f], m2(b[i & 1].x, b[i >> 1].y)), 0)) break;
      if (i == 4) break;
    }
    rs_assert(f < 4, "each side's vertices lie on one of the planes");
    if (f == 4) return;
    used[f] = 1; unit2(&F[f]);
    for (i = 0; i < 4; i++) if ((i >> a & 1) != s) rs_lt(0, dist2(&F[f], m2(b[i & 1].x, b[i >> 1].y)), "the box is on the positive side");
  }
}
/* every convex n-gon (small n, all coordinates), or a nonconvex one at any position */
void h_poly_faces2(void) {
  int n = rs_param("n", 3), full = rs_param("full", 1), i, j, k;
  static r2d_rvec2 v[M2V]; static r2d_plane F[M2V + 1]; p2 p[M2V];
  double tx = full ? 0 : rs_real("tx"), ty = full ? 0 : rs_real("ty");
  for (i = 0; i < n; i++) {
    if (full) p[i] = (rs_param("conc", 0) > i) ? m2(i * 3, i * i) : m2(0, 0);
    else p[i] = m2(i + tx, (i == n - 1 ? n * n : (rs_param("nc", 0) ? (i % 2 ? -2 : 0) : i * i)) + ty);
    if (full && rs_param("conc", 0) <= i) { p[i].x = rs_real("x"); p[i].y = rs_real("y"); }
    v[i] = rv2(p[i]);
  }
#define ORI(i, j, k) ((p[j].x - p[i].x) * (p[k].y - p[i].y) - (p[j].y - p[i].y) * (p[k].x - p[i].x))
  for (i = 0; i < n; i++) { p2 e = m2(p[(i + 1) % n].x - p[i].x, p[(i + 1) % n].y - p[i].y); rs_assume(e.x * e.x + e.y * e.y > 0); }
  if (full) for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) for (k = j + 1; k < n; k++) rs_assume(ORI(i, j, k) > 0);
  F[n].d = 77;
  r2d_poly_faces_from_verts(F, v, n);
  rs_assert(F[n].d == 77, "nothing written beyond the planes");
  static int used[M2V];
  for (i = 0; i < n; i++) used[i] = 0;
  for (i = 0; i < n; i++) {
    int a = i, b = (i + 1) % n, f;
    for (f = i; f < i + n; f++) if (!used[f % n] && rs_same(dist2(&F[f % n], p[a]), 0) && rs_same(dist2(&F[f % n], p[b]), 0)) break;
    rs_assert(f < i + n, "each side's vertices lie on one of the planes");
    if (f == i + n) return;
    f %= n; used[f] = 1; unit2(&F[f]);
    /* left of the directed edge is positive */
    double dx = p[b].x - p[a].x, dy = p[b].y - p[a].y;
    rs_lt(0, dx * F[f].n.y - dy * F[f].n.x, "the interior side is the positive one");
    if (full) for (k = 0; k < n; k++) if (k != a && k != b) rs_lt(0, dist2(&F[f], p[k]), "the other vertices are on the positive side");
  }
  for (i = 0; i < n; i++) { rs_eq(v[i].x, p[i].x, "vertices unmodified"); rs_eq(v[i].y, p[i].y, "vertices unmodified"); }
}
/* clipping with the planes intersects with the shape */
static r3d_poly P, Q; static r2d_poly P2;
void h_faces_clip(void) {
  int kind = rs_param("kind", 0), ax = rs_param("ax", 0), o = rs_param("order", 1), i;
  double m[10], r[10];
  if (kind == 0) { /* a big box around a box with one free extent */
    r3d_rvec3 b[2], c[2]; r3d_plane F[6]; solid B;
    for (i = 0; i < 3; i++) { b[0].xyz[i] = i - 1; b[1].xyz[i] = i + 2; c[0].xyz[i] = i - 3; c[1].xyz[i] = i + 7; }
    b[0].xyz[ax] = rs_real("lo"); b[1].xyz[ax] = rs_real("hi"); rs_assume(b[0].xyz[ax] < b[1].xyz[ax] && b[0].xyz[ax] > c[0].xyz[ax] && b[1].xyz[ax] < c[1].xyz[ax]);
    r3d_init_box(&P, c); r3d_box_faces_from_verts(F, b);
    rs_assert(r3d_clip(&P, F, 6) == 1, "clip succeeds");
    solid_box(&B, mk(b[0].x, b[0].y, b[0].z), mk(b[1].x, b[1].y, b[1].z));
    solid_mom(r, &B, mk(0, 0, 0), o);
  } else if (kind == 1) { /* a box around a tetrahedron at any position along an axis */
    r3d_rvec3 v[4], c[2]; r3d_plane F[4]; solid B; double t = rs_real("t");
    rs_assume(t > -1 && t < 1);
    for (i = 0; i < 4; i++) { v[i].x = TB[0][i][0]; v[i].y = TB[0][i][1]; v[i].z = TB[0][i][2]; v[i].xyz[ax] += t; }
    for (i = 0; i < 3; i++) { c[0].xyz[i] = -3; c[1].xyz[i] = 7; }
    r3d_init_box(&P, c); r3d_tet_faces_from_verts(F, v);
    rs_assert(r3d_clip(&P, F, 4) == 1, "clip succeeds");
    solid_tet(&B, mk(v[0].x, v[0].y, v[0].z), mk(v[1].x, v[1].y, v[1].z), mk(v[2].x, v[2].y, v[2].z), mk(v[3].x, v[3].y, v[3].z));
    solid_mom(r, &B, mk(0, 0, 0), o);
  }
  own_reduce3(&P, m, o, mk(0, 0, 0));
  eq_moms(m, r, o, "clipping with the planes gives the intersection with the shape");
}
void h_faces_clip2(void) {
  int kind = rs_param("kind", 0), ax = rs_param("ax", 0), o = rs_param("order", 1), i;
  double m[6], r[6]; static rgn B; r2d_rvec2 c[2];
  for (i = 0; i < 2; i++) { c[0].xy[i] = -6; c[1].xy[i] = 9; }
  r2d_init_box(&P2, c);
  B.nl = 1;
  if (kind == 0) {
    r2d_rvec2 b[2]; r2d_plane F[4];
    b[0].x = 1; b[0].y = 2; b[1].x = 4; b[1].y = 5;
    b[0].xy[ax] = rs_real("lo"); b[1].xy[ax] = rs_real("hi"); rs_assume(b[0].xy[ax] < b[1].xy[ax] && b[0].xy[ax] > -6 && b[1].xy[ax] < 9);
    r2d_box_faces_from_verts(F, b); rs_assert(r2d_clip(&P2, F, 4) == 1, "clip succeeds");
    B.nv = 4; B.v[0] = m2(b[0].x, b[0].y); B.v[1] = m2(b[1].x, b[0].y); B.v[2] = m2(b[1].x, b[1].y); B.v[3] = m2(b[0].x, b[1].y);
  } else {
    r2d_rvec2 v[4]; r2d_plane F[4]; double t = rs_real("t"); rs_assume(t > -2 && t < 2);
    static const int c4[4][2] = {{0, 0}, {4, -3}, {4, 0}, {0, 3}};
    for (i = 0; i < 4; i++) { v[i].x = c4[i][0]; v[i].y = c4[i][1]; v[i].xy[ax] += t; B.v[i] = m2(v[i].x, v[i].y); }
    r2d_poly_faces_from_verts(F, v, 4); rs_assert(r2d_clip(&P2, F, 4) == 1, "clip succeeds");
    B.nv = 4;
  }
  B.ln[0] = 4; for (i = 0; i < 4; i++) B.li[0][i] = i;
  rgn_mom(r, &B, m2(0, 0), o); own_reduce2(&P2, m, o, m2(0, 0));
  eq_mom2(m, r, o, "clipping with the planes gives the intersection with the shape");
}
