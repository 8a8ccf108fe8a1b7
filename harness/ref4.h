/* Reference geometry for the rNd harnesses (any RND_DIM): simple polytopes as vertices plus the set of facets each lies on. */
#ifndef REF4_H
#define REF4_H
#include "rs.h"
#include "rNd.h"
#include <string.h>
#define ND RND_DIM
#ifdef HUGE_REF
#define M4V 520
#else
#define M4V 100
#endif
typedef struct { double c[ND]; } p4;
typedef struct { int nv, nf; p4 v[M4V]; int f[M4V][ND]; } pt4; /* f: the facets of the vertex, ascending */
static int shared(const int *a, const int *b, int *out) {
  int i = 0, j = 0, n = 0;
  while (i < ND && j < ND) { if (a[i] == b[j]) { if (out) out[n] = a[i]; n++; i++; j++; } else if (a[i] < b[j]) i++; else j++; }
  return n;
}
static double sd4(const double *n, double d, const p4 *a) { for (int i = 0; i < ND; i++) d += n[i] * a->c[i]; return d; }
static void ref_simplex(pt4 *s, const rNd_rvec *v) {
  s->nv = ND + 1; s->nf = ND + 1;
  for (int i = 0; i <= ND; i++) { for (int k = 0; k < ND; k++) s->v[i].c[k] = v[i].xyz[k]; for (int k = 0, n = 0; k <= ND; k++) if (k != i) s->f[i][n++] = k; }
}
static void ref_box(pt4 *s, const rNd_rvec *b) {
  s->nv = 1 << ND; s->nf = 2 * ND;
  for (int i = 0; i < 1 << ND; i++) for (int k = 0; k < ND; k++) { s->v[i].c[k] = b[i >> k & 1].xyz[k]; s->f[i][k] = 2 * k + (i >> k & 1); }
}
static int adj4(const pt4 *s, int a, int b) { return a != b && shared(s->f[a], s->f[b], 0) == ND - 1; }
static void cp4(pt4 *t, const pt4 *s) { t->nv = s->nv; t->nf = s->nf; for (int i = 0; i < s->nv; i++) { t->v[i] = s->v[i]; for (int k = 0; k < ND; k++) t->f[i][k] = s->f[i][k]; } }
static int ref4_general = 0; /* restrict to general position: no vertex on a clip plane */
/* keep n.x+d >= 0 (strict: > 0); returns 0 if untouched, 1 if cut, 2 if emptied */
static int ref_clip4(pt4 *s, const double *n, double d, int strict) {
  static pt4 t; static double sv[M4V]; static int kp[M4V];
  int i, j, k, nk = 0;
  for (i = 0; i < s->nv; i++) { sv[i] = sd4(n, d, &s->v[i]); if (ref4_general) rs_assume(sv[i] != 0); kp[i] = strict ? sv[i] > 0 : sv[i] >= 0; nk += kp[i]; }
  if (nk == s->nv) return 0;
  t.nv = 0;
  for (i = 0; i < s->nv; i++) if (kp[i]) { t.v[t.nv] = s->v[i]; for (k = 0; k < ND; k++) t.f[t.nv][k] = s->f[i][k]; t.nv++; }
  for (i = 0; i < s->nv; i++) if (kp[i]) for (j = 0; j < s->nv; j++) if (!kp[j] && shared(s->f[i], s->f[j], 0) == ND - 1) {
    if (t.nv >= M4V) { rs_assert(0, "harness capacity"); return 0; }
    shared(s->f[i], s->f[j], t.f[t.nv]); t.f[t.nv][ND - 1] = s->nf;
    for (k = 0; k < ND; k++) t.v[t.nv].c[k] = (sv[i] * s->v[j].c[k] - sv[j] * s->v[i].c[k]) / (sv[i] - sv[j]);
    t.nv++;
  }
  t.nf = s->nf + 1;
  cp4(s, &t);
  return s->nv ? 1 : 2;
}
#if ND == 4
static double det4(double m[4][4]) {
  double r = 0;
  for (int j = 0; j < 4; j++) {
    int a = j == 0, b = j <= 1 ? 2 : 1, c = j <= 2 ? 3 : 2;
    double d = m[1][a] * (m[2][b] * m[3][c] - m[2][c] * m[3][b]) - m[1][b] * (m[2][a] * m[3][c] - m[2][c] * m[3][a]) + m[1][c] * (m[2][a] * m[3][b] - m[2][b] * m[3][a]);
    r += (j % 2 ? -1 : 1) * m[0][j] * d;
  }
  return r;
}
#else
static double detr(double m[ND][ND], const int *cols, int r) { /* expansion along row r of the listed columns */
  double s = 0; int n = ND - r, q[ND];
  if (n == 1) return m[r][cols[0]];
  for (int j = 0; j < n; j++) {
    for (int k = 0, w = 0; k < n; k++) if (k != j) q[w++] = cols[k];
    s += (j % 2 ? -1 : 1) * m[r][cols[j]] * detr(m, q, r + 1);
  }
  return s;
}
static double det4(double m[ND][ND]) { int q[ND]; for (int i = 0; i < ND; i++) q[i] = i; return detr(m, q, 0); }
#endif
/* volume of a simple polytope by Brion's formula: 1/D! sum_v (c.v)^D |det E_v| / prod(-c.e_i), c generic */
static const double GC[3][6] = {{3, 7, -11, 5, 19, -23}, {17, -5, 3, 29, -37, 11}, {1, 13, 9, -31, 7, 41}};
static double ref_vol4(const pt4 *s, int gc) {
  double vol = 0;
  for (int v = 0; v < s->nv; v++) {
    double E[ND][ND], den = 1, cv = 0;
    int n = 0;
    for (int w = 0; w < s->nv && n <= ND; w++) if (adj4(s, v, w)) { if (n < ND) for (int k = 0; k < ND; k++) E[n][k] = s->v[w].c[k] - s->v[v].c[k]; n++; }
    rs_assert(n == ND, "reference polytope is simple");
    for (int i = 0; i < ND; i++) { double t = 0; for (int k = 0; k < ND; k++) t += GC[gc][k] * E[i][k]; rs_assume(t != 0); den = den * -t; }
    for (int k = 0; k < ND; k++) cv += GC[gc][k] * s->v[v].c[k];
    double d = det4(E);
    if (d < 0) d = -d;
    double pw = 1;
    for (int i = 0; i < ND; i++) pw = pw * cv;
    vol += pw * d / den;
  }
  for (int i = 2; i <= ND; i++) vol = vol / i;
  return vol;
}
/* RND_DIM distinct reciprocal links; face labels symmetric, distinct per edge, and the same at both ends of an edge */
static int slot4(const rNd_poly *p, int v, int w) { for (int i = 0; i < ND; i++) if (p->verts[v].pnbrs[i] == w) return i; return -1; }
static int valid4(const rNd_poly *p, int labels) {
  if (p->nverts < 0 || p->nverts > RND_MAX_VERTS) return 0;
  for (int v = 0; v < p->nverts; v++)
    for (int i = 0; i < ND; i++) {
      int w = p->verts[v].pnbrs[i];
      if (w < 0 || w >= p->nverts || w == v) return 0;
      for (int j = 0; j < i; j++) if (p->verts[v].pnbrs[j] == w) return 0;
      if (slot4(p, w, v) < 0) return 0;
    }
  if (!labels) return 1;
  for (int v = 0; v < p->nverts; v++)
    for (int i = 0; i < ND; i++) {
      int w = p->verts[v].pnbrs[i], b = slot4(p, w, v);
      for (int j = 0; j < ND; j++) {
        if (j == i) continue;
        int f = p->verts[v].finds[i][j], n = 0;
        if (p->verts[v].finds[j][i] != f) return 0;
        for (int k = 0; k < ND; k++) { if (k != i && k != j && p->verts[v].finds[i][k] == f) return 0; if (k != b && p->verts[w].finds[b][k] == f) n++; }
        if (n != 1) return 0;
      }
    }
  return 1;
}
static int samept(const rNd_vertex *a, const p4 *b) { for (int k = 0; k < ND; k++) if (!rs_same(a->pos.xyz[k], b->c[k])) return 0; return 1; }
static int eqpt(const rNd_vertex *a, const p4 *b) { for (int k = 0; k < ND; k++) if (a->pos.xyz[k] != b->c[k]) return 0; return 1; }
/* p (code under test) has the same vertices and edges as s; where all vertices are distinct, also the same 2-faces */
static void eq_p4(const rNd_poly *p, const pt4 *s, const char *msg) {
  static int ca[M4V], cb[M4V], na[M4V], nb[M4V];
  int i, j, k, dup = 0;
  rs_assert(p->nverts == s->nv, "number of vertices");
  for (i = 0; i < s->nv; i++) {
    for (j = 0; j < i; j++) { for (k = 0; k < ND; k++) if (!rs_same(s->v[i].c[k], s->v[j].c[k])) break; if (k == ND) break; }
    cb[i] = j == i ? i : cb[j]; na[i] = nb[i] = 0; dup |= j != i;
  }
  for (i = 0; i < s->nv; i++) {
    for (k = 0; k < s->nv; k++) { j = (i + k) % s->nv; if (cb[j] == j && samept(&p->verts[i], &s->v[j])) break; }
    if (k == s->nv) for (k = 0; k < s->nv; k++) { j = (i + k) % s->nv; if (cb[j] == j && eqpt(&p->verts[i], &s->v[j])) break; }
    rs_assert(k < s->nv, "every vertex is a kept vertex or lies where the hyperplane cuts an edge");
    if (k == s->nv) return;
    ca[i] = j;
  }
  for (i = 0; i < s->nv; i++) { na[ca[i]]++; nb[cb[i]]++; }
  for (i = 0; i < s->nv; i++) { rs_assert(na[i] == nb[i], "every vertex present exactly as often as expected"); if (nb[i] > 1) dup = 1; }
  unsigned ha = 0, hb = 0;
  for (i = 0; i < s->nv; i++) for (k = 0; k < ND; k++) { unsigned w = ca[i] * 131 + ca[p->verts[i].pnbrs[k]]; ha += w * 2654435761u ^ (w * 40503u >> 3); }
  for (i = 0; i < s->nv; i++) for (j = 0; j < s->nv; j++) if (adj4(s, i, j)) { unsigned w = cb[i] * 131 + cb[j]; hb += w * 2654435761u ^ (w * 40503u >> 3); }
  rs_assert(ha == hb, msg);
  if (dup) return;
  /* walk every 2-face by its labels: it closes up and its vertices share exactly two facets */
  for (i = 0; i < s->nv; i++) for (j = 0; j < ND; j++) for (k = 0; k < ND; k++) {
    if (j == k) continue;
    int f = p->verts[i].finds[j][k], v = i, in = j, out = k, g = 0, com[ND], nc = ND, q;
    for (q = 0; q < ND; q++) com[q] = s->f[ca[i]][q];
    do {
      int w = p->verts[v].pnbrs[out];
      in = slot4(p, w, v);
      for (out = 0; out < ND; out++) if (out != in && p->verts[w].finds[in][out] == f) break;
      v = w;
      int m = 0; for (int a = 0; a < nc; a++) for (int b = 0; b < ND; b++) if (com[a] == s->f[ca[v]][b]) { com[m++] = com[a]; break; }
      nc = m;
    } while ((v != i) && ++g <= s->nv && out < ND);
    rs_assert(v == i && in == j && nc == ND - 2 && g >= 2, "2-face labels trace out the 2-faces");
  }
}
#endif
