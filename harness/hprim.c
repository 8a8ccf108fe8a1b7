/* primitive shapes and signed simplex volumes */
#include "vNd.h"
#include "ref3.h"
#include "ref2.h"
#include "rNd.h"
#define NN RND_DIM
static double det(double m[NN][NN], int n, unsigned cols, int row) { /* Laplace expansion over the columns in the set */
  double r = 0; int s = 1;
  if (row == n) return 1;
  for (int c = 0; c < n; c++) if (cols >> c & 1) { r += s * m[row][c] * det(m, n, cols & ~(1u << c), row + 1); s = -s; }
  return r;
}
static double lin(const char *nm, int sym, double c) { return sym ? rs_real(nm) : c; }
/* ---- 3D ---- */
static void find3(const r3d_poly *p, const pt *v, int n, int *at) { /* a permutation matching positions */
  int used[8] = {0}, i, j;
  for (i = 0; i < n; i++) {
    for (j = 0; j < n; j++) if (!used[j] && rs_same(p->verts[j].pos.x, v[i].x) && rs_same(p->verts[j].pos.y, v[i].y) && rs_same(p->verts[j].pos.z, v[i].z)) break;
    rs_assert(j < n, "exactly the given vertices");
    at[i] = j < n ? j : 0; used[at[i]] = 1;
  }
}
static const double TB3[4][3] = {{1, -2, 5}, {4, -1, 6}, {0, 3, 5}, {2, 0, 9}};
void h_init_tet(void) {
  int m = rs_param("mask", 0xfff), o = rs_param("order", 2), i, j, k, at[4]; pt v[4]; r3d_rvec3 r[4]; double a[35], b[35];
  r3d_poly P;
  for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) r[i].xyz[k] = lin("c", m >> (3 * i + k) & 1, TB3[i][k]);
  for (i = 0; i < 4; i++) v[i] = mk(r[i].x, r[i].y, r[i].z);
  r3d_init_tet(&P, r);
  for (i = 0; i < 4; i++) { rs_eq(r[i].x, v[i].x, "input unmodified"); rs_eq(r[i].y, v[i].y, "input unmodified"); rs_eq(r[i].z, v[i].z, "input unmodified"); }
  rs_assert(P.nverts == 4, "four vertices"); if (P.nverts != 4) return;
  rs_assert(valid3(&P), "closed shape"); if (!valid3(&P)) return;
  rs_assert(r3d_is_good(&P) == 1, "accepted by the validity check");
  find3(&P, v, 4, at);
  for (i = 0; i < NMOM(o); i++) a[i] = b[i] = 0;
  tet_mom(b, v[0], v[1], v[2], v[3], o);
  own_reduce3(&P, a, o, mk(0, 0, 0));
  eq_moms(a, b, o, "the tetrahedron with the sign of its orientation");
  rs_eq(r3d_orient(r), b[0], "signed volume");
}
void h_init_box(void) {
  int m = rs_param("mask", 63), o = rs_param("order", 2), i, j, k, at[8], d; pt v[8]; r3d_rvec3 r[2], q[2]; double a[35], b[35];
  r3d_poly P; solid B;
  for (i = 0; i < 2; i++) for (k = 0; k < 3; k++) r[i].xyz[k] = lin("c", m >> (3 * i + k) & 1, i ? k + 4 : k - 3);
  for (k = 0; k < 3; k++) { rs_assume(r[0].xyz[k] < r[1].xyz[k]); q[0].xyz[k] = r[0].xyz[k]; q[1].xyz[k] = r[1].xyz[k]; }
  for (i = 0; i < 8; i++) v[i] = mk(r[i & 1].x, r[i >> 1 & 1].y, r[i >> 2].z);
  r3d_init_box(&P, r);
  for (k = 0; k < 3; k++) { rs_eq(r[0].xyz[k], q[0].xyz[k], "input unmodified"); rs_eq(r[1].xyz[k], q[1].xyz[k], "input unmodified"); }
  rs_assert(P.nverts == 8, "eight vertices"); if (P.nverts != 8) return;
  rs_assert(valid3(&P), "closed shape"); if (!valid3(&P)) return;
  rs_assert(r3d_is_good(&P) == 1, "accepted by the validity check");
  find3(&P, v, 8, at);
  for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) { /* edges join corners differing in one coordinate */
    d = i ^ j; d = (d & 1) + (d >> 1 & 1) + (d >> 2);
    int n = 0; for (k = 0; k < 3; k++) n += P.verts[at[i]].pnbrs[k] == at[j];
    rs_assert(n == (d == 1), "edges of the box");
  }
  solid_box(&B, v[0], v[7]);
  for (i = 0; i < NMOM(o); i++) a[i] = b[i] = 0;
  solid_mom(b, &B, mk(0, 0, 0), o); own_reduce3(&P, a, o, mk(0, 0, 0));
  eq_moms(a, b, o, "moments of the box");
  rs_lt(0, a[0], "positive volume");
}
/* signed volume: any coordinates; deg: the last vertex is any affine combination of the others */
void h_orient3(void) {
  int i, k, deg = rs_param("deg", 0); r3d_rvec3 v[4], w; double m[NN][NN], r;
  for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) v[i].xyz[k] = rs_real("c");
  if (deg) { int e = rs_int("which", 0, 3); double s = rs_real("s"), t = rs_real("t"); for (k = 0; k < 3; k++) v[e].xyz[k] = s * v[(e + 1) % 4].xyz[k] + t * v[(e + 2) % 4].xyz[k] + (1 - s - t) * v[(e + 3) % 4].xyz[k]; rs_eq(r3d_orient(v), 0, "zero for a degenerate simplex"); return; }
  for (i = 0; i < 3; i++) for (k = 0; k < 3; k++) m[i][k] = v[i + 1].xyz[k] - v[0].xyz[k];
  r = r3d_orient(v);
  rs_eq(r, det(m, 3, 7, 0) / 6, "determinant formula");
  i = rs_int("i", 0, 3); k = rs_int("k", 0, 3); rs_assume(i != k);
  w = v[i]; v[i] = v[k]; v[k] = w;
  rs_eq(r3d_orient(v), -r, "a swap changes the sign");
}
/* ---- 2D ---- */
void h_orient2(void) {
  r2d_rvec2 a, b, c; a.x = rs_real("ax"); a.y = rs_real("ay"); b.x = rs_real("bx"); b.y = rs_real("by"); c.x = rs_real("cx"); c.y = rs_real("cy");
  double r = r2d_orient(a, b, c), t;
  rs_eq(r, ((b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)) / 2, "determinant formula");
  rs_eq(r2d_orient(b, a, c), -r, "a swap changes the sign"); rs_eq(r2d_orient(a, c, b), -r, "a swap changes the sign"); rs_eq(r2d_orient(c, b, a), -r, "a swap changes the sign");
  t = rs_real("t"); c.x = a.x + t * (b.x - a.x); c.y = a.y + t * (b.y - a.y);
  rs_eq(r2d_orient(a, b, c), 0, "zero for a degenerate simplex");
}
static rgn RG, RH;
/* loop checks shared by box and polygon: the vertices in cyclic order */
static void loop2(const r2d_poly *p, const p2 *v, int n, int m, int o) {
  int i, at, k; static double a[64], b[64];
  rs_assert(p->nverts == n, "exactly the given vertices"); if (p->nverts != n) return;
  rs_assert(valid2(p), "closed shape"); if (!valid2(p)) return;
  for (at = 0; at < n; at++) if (rs_same(p->verts[at].pos.x, v[0].x) && rs_same(p->verts[at].pos.y, v[0].y)) break;
  rs_assert(at < n, "exactly the given vertices"); if (at == n) return;
  for (i = 0; i < n; i++) {
    rs_eq(p->verts[at].pos.x, v[i].x, "the given vertices in the given cyclic order"); rs_eq(p->verts[at].pos.y, v[i].y, "the given vertices in the given cyclic order");
    k = p->verts[at].pnbrs[0];
    rs_assert(p->verts[k].pnbrs[1] == at, "links are mutual");
    rs_assert(i + 1 == n || k != at, "one loop");
    at = k;
  }
  if (!m) return;
  RG.nv = n; RG.nl = 1; RG.ln[0] = n; for (i = 0; i < n; i++) { RG.v[i] = v[i]; RG.li[0][i] = i; }
  for (i = 0; i < NMOM2(o); i++) a[i] = b[i] = 0;
  rgn_mom(b, &RG, m2(0, 0), o); own_reduce2(p, a, o, m2(0, 0));
  eq_mom2(a, b, o, "moments of the polygon");
}
void h_init_box2(void) {
  r2d_rvec2 r[2], q[2]; p2 v[4]; r2d_poly P; int k;
  for (k = 0; k < 2; k++) { r[0].xy[k] = rs_real("lo"); r[1].xy[k] = rs_real("hi"); rs_assume(r[0].xy[k] < r[1].xy[k]); q[0].xy[k] = r[0].xy[k]; q[1].xy[k] = r[1].xy[k]; }
  r2d_init_box(&P, r);
  for (k = 0; k < 2; k++) { rs_eq(r[0].xy[k], q[0].xy[k], "input unmodified"); rs_eq(r[1].xy[k], q[1].xy[k], "input unmodified"); }
  v[0] = m2(r[0].x, r[0].y); v[1] = m2(r[1].x, r[0].y); v[2] = m2(r[1].x, r[1].y); v[3] = m2(r[0].x, r[1].y);
  loop2(&P, v, 4, 1, rs_param("order", 3));
}
void h_init_poly2(void) {
  int n = rs_param("n", 5), at = rs_param("at", 0), full = rs_param("full", 99), i; static p2 v[512]; static r2d_rvec2 r[512]; r2d_poly P;
  for (i = 0; i < n; i++) { v[i] = i >= at && i < at + full ? m2(rs_real("x"), rs_real("y")) : m2(i, i * i); r[i].x = v[i].x; r[i].y = v[i].y; }
  rs_assert(r2d_init_poly(&P, r, n) == 1, "succeeds within the capacity");
  for (i = 0; i < n; i++) { rs_eq(r[i].x, v[i].x, "input unmodified"); rs_eq(r[i].y, v[i].y, "input unmodified"); }
  loop2(&P, v, n, n <= M2V, rs_param("order", 2));
}
/* ---- N dimensions ---- */
void h_orientN(void) {
  int i, k, deg = rs_param("deg", 0), ns = rs_param("nsym", NN + 1); rNd_rvec v[NN + 1], w; double m[NN][NN], r, f = 1;
  for (i = 2; i <= NN; i++) f *= i;
  for (i = 0; i <= NN; i++) for (k = 0; k < NN; k++) v[i].xyz[k] = lin("c", i < ns, (i * 7 + k * k * 5 + i * k) % 11 - 4);
  if (deg) {
    int e = rs_int("which", 0, NN); double s[NN], t = 1;
    for (i = 1; i < NN; i++) { s[i] = rs_real("s"); t -= s[i]; }
    s[0] = t;
    for (k = 0; k < NN; k++) { double x = 0; for (i = 0; i < NN; i++) x += s[i] * v[(e + 1 + i) % (NN + 1)].xyz[k]; v[e].xyz[k] = x; }
    rs_eq(rNd_orient(v), 0, "zero for a degenerate simplex"); return;
  }
  for (i = 0; i < NN; i++) for (k = 0; k < NN; k++) m[i][k] = v[i + 1].xyz[k] - v[0].xyz[k];
  r = rNd_orient(v);
  rs_eq(r, det(m, NN, (1u << NN) - 1, 0) / f, "determinant formula");
  i = rs_int("i", 0, NN); k = rs_int("k", 0, NN); rs_assume(i != k);
  w = v[i]; v[i] = v[k]; v[k] = w;
  rs_eq(rNd_orient(v), -r, "a swap changes the sign");
}
static int slotN(const rNd_poly *p, int v, int w) { for (int i = 0; i < NN; i++) if (p->verts[v].pnbrs[i] == w) return i; return -1; }
/* adjacency, and labels: two edges at a vertex have the same label as the edges continuing their 2-face at the neighbours.
   fam(v,i,j): the vertex following the edge v->w_i in the 2-face spanned by v's links i and j is found by f */
static void validN(const rNd_poly *p, int n) {
  for (int v = 0; v < n; v++) for (int i = 0; i < NN; i++) {
    int w = p->verts[v].pnbrs[i];
    rs_assert(w >= 0 && w < n && w != v, "links stay inside the shape"); if (w < 0 || w >= n) return;
    rs_assert(slotN(p, w, v) >= 0 && slotN(p, v, w) == i, "links are mutual and distinct");
    int b = slotN(p, w, v);
    for (int j = 0; j < NN; j++) if (j != i) {
      int f = p->verts[v].finds[i][j], c = 0;
      rs_assert(p->verts[v].finds[j][i] == f, "2-face labels are symmetric");
      for (int k = 0; k < NN; k++) { if (k != i && k != j) rs_assert(p->verts[v].finds[i][k] != f, "different 2-faces along an edge have different labels"); if (k != b && p->verts[w].finds[b][k] == f) c++; }
      rs_assert(c == 1, "every 2-face continues at the neighbour");
    }
  }
}
static void findN(const rNd_poly *p, double (*v)[NN], int n, int *at) {
  static int used[64]; int i, j, k;
  for (i = 0; i < n; i++) used[i] = 0;
  for (i = 0; i < n; i++) {
    for (j = 0; j < n; j++) { if (used[j]) continue; for (k = 0; k < NN; k++) if (!rs_same(p->verts[j].pos.xyz[k], v[i][k])) break; if (k == NN) break; }
    rs_assert(j < n, "exactly the given vertices"); at[i] = j < n ? j : 0; used[at[i]] = 1;
  }
}
/* follow a 2-face from vertex v along link i away from link j; returns its length */
static int walkN(const rNd_poly *p, int v, int i, int j, int *out, int max) {
  int s = v, n = 0, f = p->verts[v].finds[i][j], e = i, k, b, w;
  do { out[n++] = v; w = p->verts[v].pnbrs[e]; b = slotN(p, w, v); for (k = 0; k < NN; k++) if (k != b && p->verts[w].finds[b][k] == f) break; v = w; e = k; } while (v != s && n < max);
  return v == s ? n : -1;
}
static rNd_poly PN;
void h_init_simplexN(void) {
  rNd_rvec v[NN + 1]; double c[NN + 1][NN]; int at[64], i, j, k, o[8];
  rNd_poly P;
  for (i = 0; i <= NN; i++) for (k = 0; k < NN; k++) c[i][k] = v[i].xyz[k] = rs_real("c");
  rNd_init_simplex(&P, v);
  for (i = 0; i <= NN; i++) for (k = 0; k < NN; k++) rs_eq(v[i].xyz[k], c[i][k], "input unmodified");
  rs_assert(P.nverts == NN + 1, "number of vertices"); if (P.nverts != NN + 1) return;
  findN(&P, c, NN + 1, at);
  validN(&P, NN + 1);
  for (i = 0; i <= NN; i++) for (j = 0; j < NN; j++) for (k = 0; k < NN; k++) if (j != k) rs_assert(walkN(&P, i, j, k, o, 8) == 3, "2-faces are triangles");
}
void h_init_boxN(void) {
  rNd_rvec b[2]; static double c[1 << NN][NN]; static int at[64], inv[64]; int i, j, k, o[8];
  rNd_poly P;
  for (k = 0; k < NN; k++) { b[0].xyz[k] = rs_real("lo"); b[1].xyz[k] = rs_real("hi"); rs_assume(b[0].xyz[k] < b[1].xyz[k]); }
  for (i = 0; i < 1 << NN; i++) for (k = 0; k < NN; k++) c[i][k] = b[i >> k & 1].xyz[k];
  rNd_init_box(&P, b);
  for (k = 0; k < NN; k++) { rs_eq(b[0].xyz[k], c[0][k], "input unmodified"); rs_eq(b[1].xyz[k], c[(1 << NN) - 1][k], "input unmodified"); }
  rs_assert(P.nverts == 1 << NN, "number of vertices"); if (P.nverts != 1 << NN) return;
  findN(&P, c, 1 << NN, at); for (i = 0; i < 1 << NN; i++) inv[at[i]] = i;
  validN(&P, 1 << NN);
  for (i = 0; i < 1 << NN; i++) for (j = 0; j < NN; j++) { int d = inv[i] ^ inv[P.verts[i].pnbrs[j]]; rs_assert(d && !(d & (d - 1)), "edges join corners differing in one coordinate"); }
  for (i = 0; i < 1 << NN; i++) for (j = 0; j < NN; j++) for (k = 0; k < NN; k++) if (j != k) rs_assert(walkN(&P, i, j, k, o, 8) == 4, "2-faces are rectangles");
}
/* the volume the library itself reports */
void h_vol_simplex(void) { /* a simplex of any size (either orientation) anywhere */
  rNd_rvec v[NN + 1]; rNd_poly P; double m, r, s = rs_real("s"), t[NN]; int i, k, base = rs_param("base", 0), neg = rs_param("neg", 0);
  for (k = 0; k < NN; k++) t[k] = rs_real("t");
  rs_assume(s > 0);
  for (i = 0; i <= NN; i++) for (k = 0; k < NN; k++) v[i].xyz[k] = s * ((i == k + 1) * (k + 2) * (neg && k == 0 ? -1 : 1) + (base ? ((i * 3 + k) % 4) * 0.5 : 0)) + t[k];
  r = rNd_orient(v);
  rs_assert(r != 0, "nonzero for a proper simplex");
  rNd_init_simplex(&P, v); rNd_reduce(&P, &m, 0);
  if (r < 0) r = -r;
  rs_eq(m, r, "volume of the simplex");
}
void h_vol_box(void) {
  rNd_rvec b[2]; rNd_poly P; double m, r = 1; int k, mk_ = rs_param("mask", 31);
  for (k = 0; k < NN; k++) { b[0].xyz[k] = lin("lo", mk_ >> k & 1, k - 2); b[1].xyz[k] = lin("hi", mk_ >> k & 1, k + 1); rs_assume(b[0].xyz[k] < b[1].xyz[k]); r *= b[1].xyz[k] - b[0].xyz[k]; }
  rNd_init_box(&P, b); rNd_reduce(&P, &m, 0);
  rs_eq(m, r, "volume of the box");
}
