/* Reference (oracle) geometry for the 2D harnesses: independent of the code under test. */
#ifndef REF2_H
#define REF2_H
#include "rs.h"
#ifndef REF_ONLY
#include "r2d.h"
#endif
#include <string.h>
#define NMOM2(o) (((o) + 1) * ((o) + 2) / 2)
#ifdef HUGE_REF
#define M2V 300
#define M2L 90
#else
#define M2V 140
#define M2L 40
#endif
typedef struct { double x, y; } p2;
/* a region bounded by oriented loops (counter-clockwise around material) */
typedef struct { int nv; p2 v[M2V]; int nl; int ln[M2L]; int li[M2L][M2V]; } rgn;
static inline p2 m2(double x, double y) { p2 p; p.x = x; p.y = y; return p; }
#define GO2 40
static void tri_mom(double *m, p2 o, p2 a, p2 b, int order) {
  static double A[GO2 + 1][GO2 + 1];
  p2 P[3] = {o, a, b};
  double t2 = (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x), f[GO2 + 3];
  int i, j, n, q, w;
  for (f[0] = 1, i = 1; i < order + 3; i++) f[i] = f[i - 1] * i;
  for (i = 0; i <= order; i++) for (j = 0; i + j <= order; j++) A[i][j] = (i + j == 0);
  for (w = 0; w < 3; w++)
    for (i = 0; i <= order; i++) for (j = 0; i + j <= order; j++) {
      double t = A[i][j];
      if (i) t += P[w].x * A[i - 1][j];
      if (j) t += P[w].y * A[i][j - 1];
      A[i][j] = t;
    }
  for (q = 0, n = 0; n <= order; n++)
    for (i = n; i >= 0; i--, q++) { j = n - i; m[q] += t2 * A[i][j] * f[i] * f[j] / f[n + 2]; }
}
static void rgn_mom(double *m, const rgn *s, p2 o, int order) {
  for (int i = 0; i < NMOM2(order); i++) m[i] = 0;
  for (int l = 0; l < s->nl; l++)
    for (int i = 0; i < s->ln[l]; i++) tri_mom(m, o, s->v[s->li[l][i]], s->v[s->li[l][(i + 1) % s->ln[l]]], order);
}
#ifndef REF_ONLY
/* closed loops of length >= 3 with reciprocal links (next = pnbrs[0], previous = pnbrs[1]) */
static int valid2(const r2d_poly *p) {
  if (p->nverts < 0 || p->nverts > R2D_MAX_VERTS) return 0;
  for (int v = 0; v < p->nverts; v++) {
    int a = p->verts[v].pnbrs[0], b = p->verts[v].pnbrs[1];
    if (a < 0 || a >= p->nverts || b < 0 || b >= p->nverts || a == v || b == v || a == b) return 0;
    if (p->verts[a].pnbrs[1] != v || p->verts[b].pnbrs[0] != v) return 0;
  }
  return 1;
}
static inline p2 vp2(const r2d_poly *p, int v) { return m2(p->verts[v].pos.x, p->verts[v].pos.y); }
static void poly_to_rgn(const r2d_poly *p, rgn *s) {
  static char mark[R2D_MAX_VERTS];
  s->nv = p->nverts; s->nl = 0;
  for (int v = 0; v < p->nverts; v++) { s->v[v] = vp2(p, v); mark[v] = 0; }
  for (int v = 0; v < p->nverts; v++) {
    if (mark[v]) continue;
    int c = v, k = 0;
    if (s->nl >= M2L) { rs_assert(0, "harness capacity"); return; }
    do { mark[c] = 1; s->li[s->nl][k++] = c; c = p->verts[c].pnbrs[0]; } while (c != v && !mark[c]);
    s->ln[s->nl++] = k;
  }
}
#endif
static inline double sd2(p2 n, double d, p2 a) { return n.x * a.x + n.y * a.y + d; }
static inline p2 cut2(p2 a, double sa, p2 b, double sb) { double w = sa - sb; return m2((sa * b.x - sb * a.x) / w, (sa * b.y - sb * a.y) / w); }
/* keep n.x+d >= 0 (> 0 when strict): every kept chain of a loop becomes a loop closed along the line */
static void ref_clip_rgn(rgn *s, p2 n, double d, int strict) {
  static rgn t;
  static double sv[M2V];
  static int kp[M2V], mp[M2V];
  int i, l, nk = 0;
  for (i = 0; i < s->nv; i++) { sv[i] = sd2(n, d, s->v[i]); kp[i] = strict ? sv[i] > 0.0 : sv[i] >= 0.0; nk += kp[i]; }
  if (nk == s->nv) return;
  t.nv = 0; t.nl = 0;
  for (i = 0; i < s->nv; i++) if (kp[i]) { mp[i] = t.nv; t.v[t.nv++] = s->v[i]; }
  for (l = 0; l < s->nl; l++) {
    int N = s->ln[l], st = -1, k, c = 0;
    for (k = 0; k < N; k++) { c += kp[s->li[l][k]]; if (kp[s->li[l][k]] && !kp[s->li[l][(k + N - 1) % N]]) st = k; }
    if (c == 0) continue;
    if (c == N) { for (k = 0; k < N; k++) t.li[t.nl][k] = mp[s->li[l][k]]; t.ln[t.nl++] = N; continue; }
    int w = 0;
    for (k = 0; k < N; k++) {
      int p = s->li[l][(st + k + N - 1) % N], a = s->li[l][(st + k) % N], b = s->li[l][(st + k + 1) % N];
      if (!kp[a]) continue;
      if (!kp[p]) { w = 0; t.v[t.nv] = cut2(s->v[a], sv[a], s->v[p], sv[p]); t.li[t.nl][w++] = t.nv++; }
      t.li[t.nl][w++] = mp[a];
      if (!kp[b]) { t.v[t.nv] = cut2(s->v[a], sv[a], s->v[b], sv[b]); t.li[t.nl][w++] = t.nv++; t.ln[t.nl++] = w; }
    }
  }
  s->nv = t.nv; s->nl = t.nl;
  for (i = 0; i < t.nv; i++) s->v[i] = t.v[i];
  for (l = 0; l < t.nl; l++) { s->ln[l] = t.ln[l]; for (i = 0; i < t.ln[l]; i++) s->li[l][i] = t.li[l][i]; }
}
/* same vertices and loops up to relabelling */
static void eq_rgn(const rgn *a, const rgn *b, const char *msg) {
  static int ca[M2V], cb[M2V], na[M2V], nb[M2V];
  unsigned ha = 0, hb = 0, ga = 0, gb = 0;
  int i, j, k;
  rs_assert(a->nv == b->nv, "number of vertices");
  rs_assert(a->nl == b->nl, "number of loops");
  for (i = 0; i < b->nv; i++) {
    for (j = 0; j < i; j++) if (rs_same(b->v[i].x, b->v[j].x) && rs_same(b->v[i].y, b->v[j].y)) break;
    cb[i] = j == i ? i : cb[j]; na[i] = nb[i] = 0;
  }
  for (i = 0; i < a->nv; i++) {
    for (k = 0; k < b->nv; k++) { j = (i + k) % b->nv; if (cb[j] == j && rs_same(a->v[i].x, b->v[j].x) && rs_same(a->v[i].y, b->v[j].y)) break; }
    if (k == b->nv) for (k = 0; k < b->nv; k++) { j = (i + k) % b->nv; if (cb[j] == j && a->v[i].x == b->v[j].x && a->v[i].y == b->v[j].y) break; }
    rs_assert(k < b->nv, "every vertex is a kept vertex or lies where the line cuts an edge");
    if (k == b->nv) return;
    ca[i] = j;
  }
  for (i = 0; i < a->nv; i++) { na[ca[i]]++; nb[cb[i]]++; }
  for (i = 0; i < a->nv; i++) rs_assert(na[i] == nb[i], "every vertex present exactly as often as expected");
#define TRIP2(s, c, h, g) for (i = 0; i < s->nl; i++) for (k = 0; k < s->ln[i]; k++) { \
    unsigned x = c[s->li[i][k]], y = c[s->li[i][(k + 1) % s->ln[i]]], z = c[s->li[i][(k + 2) % s->ln[i]]]; \
    unsigned w = (x * 131 + y) * 151 + z; h += w * 2654435761u ^ (w * 40503u >> 7); g += (w + 17) * (w * 7 + 5) + (w >> 3) * 97; }
  TRIP2(a, ca, ha, ga) TRIP2(b, cb, hb, gb)
  rs_assert(ha == hb && ga == gb, msg);
}
static void eq_mom2(const double *a, const double *b, int order, const char *msg) { for (int i = 0; i < NMOM2(order); i++) rs_eq(a[i], b[i], msg); }
#ifndef REF_ONLY
static void own_reduce2(const r2d_poly *p, double *m, int order, p2 o) { static rgn t; poly_to_rgn(p, &t); rgn_mom(m, &t, o, order); }
static r2d_rvec2 rv2(p2 a) { r2d_rvec2 r; r.x = a.x; r.y = a.y; return r; }
#endif
/* ---- catalogue ---- */
static void loop_from(rgn *s, const double (*c)[2], int n) {
  s->ln[s->nl] = n;
  for (int i = 0; i < n; i++) { s->li[s->nl][i] = s->nv; s->v[s->nv++] = m2(c[i][0], c[i][1]); }
  s->nl++;
}
static void get_rgn(rgn *s, int which) {
  static const double tri[3][2] = {{0, 0}, {4, 1}, {1, 3}}, sq[4][2] = {{-1, 0}, {3, 0}, {3, 2}, {-1, 2}}, pent[5][2] = {{0, 0}, {3, -1}, {5, 1}, {3, 4}, {-1, 2}};
  static const double Ls[6][2] = {{0, 0}, {3, 0}, {3, 1}, {1, 1}, {1, 3}, {0, 3}}, comb[8][2] = {{0, 0}, {6, 0}, {6, 3}, {4, 1}, {3, 3}, {2, 1}, {1, 4}, {-1, 1}};
  static const double star[10][2] = {{0, 6}, {-1, 2}, {-5, 2}, {-2, -1}, {-3, -5}, {0, -2}, {3, -5}, {2, -1}, {5, 2}, {1, 2}};
  static const double hole[4][2] = {{0, 1.5}, {2, 1.5}, {2, 0.5}, {0, 0.5}}, far[3][2] = {{5, 1}, {8, 1}, {6, 3}};
  s->nv = 0; s->nl = 0;
  if (which >= 1000) { /* many loops in a row: triangles and squares in turn */
    for (int i = 0; i < which - 1000; i++) {
      double c[4][2] = {{2 * i, 0}, {2 * i + 1, i % 3}, {2 * i + 1, 2 + i % 2}, {2 * i, 4}};
      loop_from(s, c, i % 2 ? 4 : 3);
    }
    return;
  }
  if (which >= 100) {
    int n = which - 100;
    s->ln[0] = n; s->nl = 1;
    for (int i = 0; i < n; i++) { s->li[0][i] = i; s->v[s->nv++] = m2(i, i * i / 8.0); }
    return;
  }
  switch (which) {
    case 0: loop_from(s, tri, 3); break;
    case 1: loop_from(s, sq, 4); break;
    case 2: loop_from(s, pent, 5); break;
    case 3: loop_from(s, Ls, 6); break;
    case 4: loop_from(s, comb, 8); break;
    case 5: loop_from(s, star, 10); break;
    case 6: loop_from(s, sq, 4); loop_from(s, hole, 4); break; /* square with a hole */
    case 7: loop_from(s, sq, 4); loop_from(s, far, 3); break;  /* two components */
    default: loop_from(s, sq, 4); loop_from(s, hole, 4); loop_from(s, far, 3); break;
  }
}
#ifndef REF_ONLY
/* through the public API; extra loops are appended as r2d's own doubly linked vertices */
static void init_rgn(r2d_poly *p, const rgn *s, int which) {
  if (which == 1) { r2d_rvec2 b[2] = {rv2(s->v[0]), rv2(s->v[2])}; r2d_init_box(p, b); return; }
  r2d_rvec2 v[M2V];
  for (int i = 0; i < s->ln[0]; i++) v[i] = rv2(s->v[s->li[0][i]]);
  r2d_init_poly(p, v, s->ln[0]);
  for (int l = 1; l < s->nl; l++) {
    int n = s->ln[l], b = p->nverts;
    for (int i = 0; i < n; i++) {
      p->verts[b + i].pos = rv2(s->v[s->li[l][i]]);
      p->verts[b + i].pnbrs[0] = b + (i + 1) % n;
      p->verts[b + i].pnbrs[1] = b + (i + n - 1) % n;
    }
    p->nverts += n;
  }
}
#endif
#endif
