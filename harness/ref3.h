/* Reference (oracle) geometry for the 3D harnesses: independent of the code under test. */
#ifndef REF3_H
#define REF3_H
#include "rs.h"
#ifndef REF_ONLY
#include "r3d.h"
#endif
#include <string.h>
#define NMOM(o) (((o) + 1) * ((o) + 2) * ((o) + 3) / 6)
#ifdef HUGE_REF /* reference structures for the largest polyhedra the default build holds */
#define MAXSV 520
#define MAXF 520
#define MAXFV 264
#else
#define MAXSV 200
#define MAXF 120
#define MAXFV 64
#endif
typedef struct { double x, y, z; } pt;
/* a polyhedron given by oriented faces (counter-clockwise seen from outside) */
typedef struct { int nv; pt v[MAXSV]; int nf; int fn[MAXF]; int fi[MAXF][MAXFV]; } solid;
static inline pt mk(double x, double y, double z) { pt p; p.x = x; p.y = y; p.z = z; return p; }
static inline double det3(pt a, pt b, pt c) {
  return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
}
static inline pt sub(pt a, pt b) { return mk(a.x - b.x, a.y - b.y, a.z - b.z); }
/* moments up to order 2 of the tetrahedron (o,a,b,c), signed, added to m (row-major order) */
static void tet_mom(double *m, pt o, pt a, pt b, pt c, int order) {
  double v = det3(sub(a, o), sub(b, o), sub(c, o)) / 6.0;
  double P[4][3] = {{o.x, o.y, o.z}, {a.x, a.y, a.z}, {b.x, b.y, b.z}, {c.x, c.y, c.z}};
  double s[3];
  int i, j, k, q;
  m[0] += v;
  if (order < 1) return;
  for (i = 0; i < 3; i++) { s[i] = P[0][i] + P[1][i] + P[2][i] + P[3][i]; m[1 + i] += v * s[i] / 4.0; }
  if (order < 2) return;
  for (q = 4, i = 0; i < 3; i++)
    for (j = i; j < 3; j++, q++) {
      double t = s[i] * s[j];
      for (k = 0; k < 4; k++) t += P[k][i] * P[k][j];
      m[q] += v * t / 20.0;
    }
}
/* all monomials up to any order of the tetrahedron (o,a,b,c), by the generating function
   integral x^a = 6V a!/(|a|+3)! [t^a] prod_v 1/(1-<t,p_v>); added to m */
#define GO 24
static void tet_mom_gen(double *m, pt o, pt a, pt b, pt c, int order) {
  static double A[GO + 1][GO + 1][GO + 1];
  pt P[4] = {o, a, b, c};
  double v6 = det3(sub(a, o), sub(b, o), sub(c, o)), f[GO + 4];
  int i, j, k, n, q, w;
  for (f[0] = 1, i = 1; i < order + 4; i++) f[i] = f[i - 1] * i;
  for (i = 0; i <= order; i++) for (j = 0; i + j <= order; j++) for (k = 0; i + j + k <= order; k++) A[i][j][k] = (i + j + k == 0);
  for (w = 0; w < 4; w++)
    for (i = 0; i <= order; i++) for (j = 0; i + j <= order; j++) for (k = 0; i + j + k <= order; k++) {
      double t = A[i][j][k];
      if (i) t += P[w].x * A[i - 1][j][k];
      if (j) t += P[w].y * A[i][j - 1][k];
      if (k) t += P[w].z * A[i][j][k - 1];
      A[i][j][k] = t;
    }
  for (q = 0, n = 0; n <= order; n++)
    for (i = n; i >= 0; i--)
      for (j = n - i; j >= 0; j--, q++) { k = n - i - j; m[q] += v6 * A[i][j][k] * f[i] * f[j] * f[k] / f[n + 3]; }
}
/* polygon (fan) with apex o */
static void fan_mom(double *m, pt o, const pt *p, int n, int order) {
  for (int i = 1; i + 1 < n; i++) { if (order <= 2) tet_mom(m, o, p[0], p[i], p[i + 1], order); else tet_mom_gen(m, o, p[0], p[i], p[i + 1], order); }
}
#ifndef REF_ONLY /* the rest needs the library's own types */
/* structural validity of a polyhedron buffer: closed, trivalent, reciprocal, no loops or multi-edges */
static int valid3(const r3d_poly *p) {
  int v, i, j, k, back;
  if (p->nverts < 0 || p->nverts > R3D_MAX_VERTS) return 0;
  for (v = 0; v < p->nverts; v++)
    for (i = 0; i < 3; i++) {
      k = p->verts[v].pnbrs[i];
      if (k < 0 || k >= p->nverts || k == v) return 0;
      if (k == p->verts[v].pnbrs[(i + 1) % 3]) return 0;
      for (back = 0, j = 0; j < 3; j++) if (p->verts[k].pnbrs[j] == v) back++;
      if (back != 1) return 0;
    }
  return 1;
}
static inline pt vp(const r3d_poly *p, int v) { return mk(p->verts[v].pos.x, p->verts[v].pos.y, p->verts[v].pos.z); }
/* own integration of a polyhedron buffer (order <= 2): walk every directed edge's face once.
   Faces are traversed with the stored clockwise neighbour order, which makes them clockwise
   from outside, hence the swapped orientation in the fan. Requires valid3(). Also counts faces. */
static int own_reduce3(const r3d_poly *p, double *m, int order, pt o) {
  static char mark[R3D_MAX_VERTS][3];
  int v, i, j, k, q, nf = 0, guard;
  for (q = 0; q < NMOM(order); q++) m[q] = 0.0;
  for (v = 0; v < p->nverts; v++) for (i = 0; i < 3; i++) mark[v][i] = 0;
  for (v = 0; v < p->nverts; v++)
    for (i = 0; i < 3; i++) {
      if (mark[v][i]) continue;
      nf++;
      int cur = v, e = i, first = v, prev = -1;
      guard = 0;
      do {
        int nx = p->verts[cur].pnbrs[e];
        mark[cur][e] = 1;
        if (prev >= 0 && nx != first) tet_mom(m, o, vp(p, first), vp(p, nx), vp(p, cur), order);
        prev = cur;
        for (j = 0; j < 3; j++) if (p->verts[nx].pnbrs[j] == cur) break;
        cur = nx;
        e = (j + 1) % 3;
        if (++guard > 3 * R3D_MAX_VERTS) { rs_assert(0, "face walk does not close"); return -1; }
      } while (cur != first || e != i);
      (void)k;
    }
  return nf;
}
/* faces of a (valid3) polyhedron buffer as oriented polygons, counter-clockwise from outside */
static void poly_to_solid(const r3d_poly *p, solid *s) {
  static char mark[R3D_MAX_VERTS][3];
  int v, i, j;
  s->nv = p->nverts; s->nf = 0;
  for (v = 0; v < p->nverts; v++) { s->v[v] = vp(p, v); for (i = 0; i < 3; i++) mark[v][i] = 0; }
  for (v = 0; v < p->nverts; v++)
    for (i = 0; i < 3; i++) {
      if (mark[v][i]) continue;
      int cur = v, e = i, k = 0;
      do {
        int nx = p->verts[cur].pnbrs[e];
        mark[cur][e] = 1;
        if (k >= MAXFV || s->nf >= MAXF) { rs_assert(0, "harness capacity"); return; }
        s->fi[s->nf][k++] = cur;
        for (j = 0; j < 3; j++) if (p->verts[nx].pnbrs[j] == cur) break;
        cur = nx;
        e = (j + 2) % 3;
      } while (cur != v || e != i);
      s->fn[s->nf++] = k;
    }
}
/* Euler characteristic per the graph: V - E + F */
static int euler3(const r3d_poly *p, int nf) { return p->nverts - 3 * p->nverts / 2 + nf; }

static r3d_rvec3 rv(pt a) { r3d_rvec3 r; r.x = a.x; r.y = a.y; r.z = a.z; return r; }
static int make_poly(r3d_poly *p, const solid *s) {
  r3d_rvec3 v[MAXSV];
  r3d_int *fi[MAXF];
  r3d_int nf[MAXF];
  for (int i = 0; i < s->nv; i++) v[i] = rv(s->v[i]);
  for (int f = 0; f < s->nf; f++) { fi[f] = (r3d_int *)s->fi[f]; nf[f] = s->fn[f]; }
  return r3d_init_poly(p, v, s->nv, fi, nf, s->nf);
}
#endif
static inline double sd(pt n, double d, pt a) { return n.x * a.x + n.y * a.y + n.z * a.z + d; }
static inline pt cut(pt a, double sa, pt b, double sb) {
  double w = sa - sb;
  return mk((sa * b.x - sb * a.x) / w, (sa * b.y - sb * a.y) / w, (sa * b.z - sb * a.z) / w);
}
/* moments of  solid ∩ { n.x + d >= 0 }, apex o must lie on the plane (any point if the plane
   misses the solid is fine too: the faces still close up because the cap contributes zero). */
static int ref_strict = 0; /* keep only strictly positive vertices (same moments) */
static void ref_clip_mom(double *m, const solid *s, pt n, double d, pt o, int order) {
  double sv[MAXSV]; int kp[MAXSV];
  pt q[2 * MAXFV];
  for (int i = 0; i < NMOM(order); i++) m[i] = 0.0;
  for (int i = 0; i < s->nv; i++) { sv[i] = sd(n, d, s->v[i]); kp[i] = ref_strict ? sv[i] > 0.0 : sv[i] >= 0.0; }
  for (int f = 0; f < s->nf; f++) {
    int k = 0, N = s->fn[f];
    for (int i = 0; i < N; i++) {
      int a = s->fi[f][i], b = s->fi[f][(i + 1) % N];
      if (kp[a]) {
        q[k++] = s->v[a];
        if (!kp[b]) q[k++] = cut(s->v[a], sv[a], s->v[b], sv[b]);
      } else if (kp[b]) q[k++] = cut(s->v[b], sv[b], s->v[a], sv[a]);
    }
    fan_mom(m, o, q, k, order);
  }
}
static void solid_mom(double *m, const solid *s, pt o, int order) {
  pt q[MAXFV];
  for (int i = 0; i < NMOM(order); i++) m[i] = 0.0;
  for (int f = 0; f < s->nf; f++) {
    for (int i = 0; i < s->fn[f]; i++) q[i] = s->v[s->fi[f][i]];
    fan_mom(m, o, q, s->fn[f], order);
  }
}
/* reference clip of a solid: keeps { n.x+d >= 0 } (or > 0 when strict). Every kept chain of a face
   is closed by one cap edge; cap edges are linked up into cap faces. */
static void ref_clip_solid(solid *s, pt n, double d, int strict) {
  static int keep[MAXSV], mapv[MAXSV], ea[MAXSV], eb[MAXSV], nxt[MAXSV], seen[MAXSV];
  static double sv[MAXSV];
  static solid t;
  int i, f, nk = 0, ne = 0;
  for (i = 0; i < s->nv; i++) { sv[i] = sd(n, d, s->v[i]); keep[i] = strict ? sv[i] > 0.0 : sv[i] >= 0.0; nk += keep[i]; }
  if (nk == s->nv) return;
  t.nv = 0; t.nf = 0;
  if (nk == 0) { s->nv = 0; s->nf = 0; return; }
  for (i = 0; i < s->nv; i++) if (keep[i]) { mapv[i] = t.nv; t.v[t.nv++] = s->v[i]; }
  int base = t.nv;
  for (f = 0; f < s->nf; f++) {
    int N = s->fn[f], st = -1, k, cnt = 0;
    for (k = 0; k < N; k++) { cnt += keep[s->fi[f][k]]; if (keep[s->fi[f][k]] && !keep[s->fi[f][(k + N - 1) % N]]) st = k; }
    if (cnt == 0) continue;
    if (cnt == N) { for (k = 0; k < N; k++) t.fi[t.nf][k] = mapv[s->fi[f][k]]; t.fn[t.nf++] = N; continue; }
    int w = 0, in = -1;
    for (k = 0; k < N; k++) {
      int a = s->fi[f][(st + k) % N], b = s->fi[f][(st + k + 1) % N], p = s->fi[f][(st + k + N - 1) % N];
      if (!keep[a]) continue;
      if (!keep[p]) { /* a chain starts: entering cut vertex on edge (a,p) */
        for (in = 0; in < ne; in++) if (ea[in] == a && eb[in] == p) break;
        if (in == ne) { ea[ne] = a; eb[ne] = p; t.v[base + ne] = cut(s->v[a], sv[a], s->v[p], sv[p]); ne++; }
        w = 0; t.fi[t.nf][w++] = base + in;
      }
      t.fi[t.nf][w++] = mapv[a];
      if (!keep[b]) {
        int out;
        for (out = 0; out < ne; out++) if (ea[out] == a && eb[out] == b) break;
        if (out == ne) { ea[ne] = a; eb[ne] = b; t.v[base + ne] = cut(s->v[a], sv[a], s->v[b], sv[b]); ne++; }
        t.fi[t.nf][w++] = base + out; t.fn[t.nf++] = w;
        nxt[in] = out; /* the cap runs opposite to out->in */
      }
    }
  }
  t.nv = base + ne;
  for (i = 0; i < ne; i++) seen[i] = 0;
  for (i = 0; i < ne; i++) {
    if (seen[i]) continue;
    int w = 0, c = i;
    do { seen[c] = 1; t.fi[t.nf][w++] = base + c; c = nxt[c]; } while (c != i && !seen[c]);
    t.fn[t.nf++] = w;
  }
  s->nv = t.nv; s->nf = t.nf;
  for (i = 0; i < t.nv; i++) s->v[i] = t.v[i];
  for (f = 0; f < t.nf; f++) { s->fn[f] = t.fn[f]; for (i = 0; i < t.fn[f]; i++) s->fi[f][i] = t.fi[f][i]; }
}
/* a (from the code under test) and b (reference) have the same vertices, faces and orientation,
   up to relabelling: vertices are identified by position, faces by their consecutive triples */
static void eq_fp(const solid *a, const solid *b, const char *msg) {
  static int ca[MAXSV], cb[MAXSV], na[MAXSV], nb[MAXSV];
  unsigned ha = 0, hb = 0, ga = 0, gb = 0;
  int i, j, k;
  rs_assert(a->nv == b->nv, "number of vertices");
  rs_assert(a->nf == b->nf, "number of faces");
  for (i = 0; i < b->nv; i++) {
    for (j = 0; j < i; j++) if (rs_same(b->v[i].x, b->v[j].x) && rs_same(b->v[i].y, b->v[j].y) && rs_same(b->v[i].z, b->v[j].z)) break;
    cb[i] = j == i ? i : cb[j]; na[i] = nb[i] = 0;
  }
  for (i = 0; i < a->nv; i++) {
    for (k = 0; k < b->nv; k++) { j = (i + k) % b->nv; if (cb[j] == j && rs_same(a->v[i].x, b->v[j].x) && rs_same(a->v[i].y, b->v[j].y) && rs_same(a->v[i].z, b->v[j].z)) break; }
    if (k == b->nv) for (k = 0; k < b->nv; k++) { j = (i + k) % b->nv; if (cb[j] == j && a->v[i].x == b->v[j].x && a->v[i].y == b->v[j].y && a->v[i].z == b->v[j].z) break; }
    rs_assert(k < b->nv, "every vertex is a kept vertex or lies where the plane cuts an edge");
    if (k == b->nv) return;
    ca[i] = j;
  }
  for (i = 0; i < a->nv; i++) { na[ca[i]]++; nb[cb[i]]++; }
  for (i = 0; i < a->nv; i++) rs_assert(na[i] == nb[i], "every vertex present exactly as often as expected");
#define TRIP(s, c, h, g) for (i = 0; i < s->nf; i++) for (k = 0; k < s->fn[i]; k++) { \
    unsigned x = c[s->fi[i][k]], y = c[s->fi[i][(k + 1) % s->fn[i]]], z = c[s->fi[i][(k + 2) % s->fn[i]]]; \
    unsigned w = (x * 131 + y) * 151 + z; h += w * 2654435761u ^ (w * 40503u >> 7); g += (w + 17) * (w * 7 + 5) + (w >> 3) * 97; }
  TRIP(a, ca, ha, ga) TRIP(b, cb, hb, gb)
  rs_assert(ha == hb && ga == gb, msg);
}
static void eq_moms(const double *a, const double *b, int order, const char *msg) {
  for (int i = 0; i < NMOM(order); i++) rs_eq(a[i], b[i], msg);
}
/* ---- catalogue of solids (combinatorics; concrete coordinates) ---- */
static void add_face(solid *s, int n, int a, int b, int c, int d, int e, int f) {
  int t[6] = {a, b, c, d, e, f};
  s->fn[s->nf] = n;
  for (int i = 0; i < n; i++) s->fi[s->nf][i] = t[i];
  s->nf++;
}
static void solid_tet(solid *s, pt a, pt b, pt c, pt d) {
  s->nv = 4; s->nf = 0; s->v[0] = a; s->v[1] = b; s->v[2] = c; s->v[3] = d;
  /* positively oriented when det(b-a,c-a,d-a) > 0 */
  add_face(s, 3, 0, 2, 1, 0, 0, 0); add_face(s, 3, 0, 1, 3, 0, 0, 0);
  add_face(s, 3, 1, 2, 3, 0, 0, 0); add_face(s, 3, 2, 0, 3, 0, 0, 0);
}
static void solid_box(solid *s, pt lo, pt hi) {
  s->nv = 8; s->nf = 0;
  for (int i = 0; i < 8; i++) s->v[i] = mk((i & 1) ? hi.x : lo.x, (i & 2) ? hi.y : lo.y, (i & 4) ? hi.z : lo.z);
  add_face(s, 4, 0, 2, 3, 1, 0, 0); add_face(s, 4, 4, 5, 7, 6, 0, 0);
  add_face(s, 4, 0, 1, 5, 4, 0, 0); add_face(s, 4, 2, 6, 7, 3, 0, 0);
  add_face(s, 4, 0, 4, 6, 2, 0, 0); add_face(s, 4, 1, 3, 7, 5, 0, 0);
}
static void solid_prism(solid *s) { /* triangular prism */
  static const double t[3][2] = {{0, 0}, {3, 0}, {1, 2}};
  s->nv = 6; s->nf = 0;
  for (int i = 0; i < 3; i++) { s->v[i] = mk(t[i][0], t[i][1], 0); s->v[i + 3] = mk(t[i][0], t[i][1], 2); }
  add_face(s, 3, 0, 2, 1, 0, 0, 0); add_face(s, 3, 3, 4, 5, 0, 0, 0);
  for (int i = 0; i < 3; i++) add_face(s, 4, i, (i + 1) % 3, 3 + (i + 1) % 3, 3 + i, 0, 0);
}
static void solid_pyramid(solid *s) { /* square pyramid: apex has degree 4 */
  s->nv = 5; s->nf = 0;
  s->v[0] = mk(0, 0, 0); s->v[1] = mk(2, 0, 0); s->v[2] = mk(2, 2, 0); s->v[3] = mk(0, 2, 0); s->v[4] = mk(1, 0.5, 3);
  add_face(s, 4, 0, 3, 2, 1, 0, 0);
  for (int i = 0; i < 4; i++) add_face(s, 3, i, (i + 1) % 4, 4, 0, 0, 0);
}
static void solid_octa(solid *s) { /* octahedron: all vertices of degree 4 */
  s->nv = 6; s->nf = 0;
  s->v[0] = mk(2, 0, 0); s->v[1] = mk(0, 2, 0); s->v[2] = mk(-2, 0, 0); s->v[3] = mk(0, -2, 0); s->v[4] = mk(0, 0, 1); s->v[5] = mk(0, 0, -3);
  for (int i = 0; i < 4; i++) { add_face(s, 3, i, (i + 1) % 4, 4, 0, 0, 0); add_face(s, 3, (i + 1) % 4, i, 5, 0, 0, 0); }
}
static void solid_Lprism(solid *s) { /* L-shaped prism: nonconvex faces */
  static const double t[6][2] = {{0, 0}, {3, 0}, {3, 1}, {1, 1}, {1, 3}, {0, 3}};
  s->nv = 12; s->nf = 0;
  for (int i = 0; i < 6; i++) { s->v[i] = mk(t[i][0], t[i][1], 0); s->v[i + 6] = mk(t[i][0], t[i][1], 2); }
  add_face(s, 6, 5, 4, 3, 2, 1, 0); add_face(s, 6, 6, 7, 8, 9, 10, 11);
  for (int i = 0; i < 6; i++) add_face(s, 4, i, (i + 1) % 6, 6 + (i + 1) % 6, 6 + i, 0, 0);
}
static void solid_dart(solid *s) { /* nonconvex simplicial solid (5 vertices, 2 of degree 3, 3 of degree 4) */
  s->nv = 5; s->nf = 0;
  s->v[0] = mk(0, 0, 0); s->v[1] = mk(4, 0, 0); s->v[2] = mk(0, 4, 0); s->v[3] = mk(1, 1, 1); s->v[4] = mk(1, 1, 4);
  /* region between the two caps over triangle 0,1,2 */
  add_face(s, 3, 0, 1, 4, 0, 0, 0); add_face(s, 3, 1, 2, 4, 0, 0, 0); add_face(s, 3, 2, 0, 4, 0, 0, 0);
  add_face(s, 3, 1, 0, 3, 0, 0, 0); add_face(s, 3, 2, 1, 3, 0, 0, 0); add_face(s, 3, 0, 2, 3, 0, 0, 0);
}
static void solid_join(solid *a, const solid *b, pt off) { /* disjoint union */
  for (int f = 0; f < b->nf; f++) {
    a->fn[a->nf] = b->fn[f];
    for (int i = 0; i < b->fn[f]; i++) a->fi[a->nf][i] = b->fi[f][i] + a->nv;
    a->nf++;
  }
  for (int i = 0; i < b->nv; i++) a->v[a->nv++] = mk(b->v[i].x + off.x, b->v[i].y + off.y, b->v[i].z + off.z);
}
static void solid_two(solid *s) { solid t; solid_box(s, mk(0, 0, 0), mk(1, 2, 1)); solid_tet(&t, mk(0, 0, 0), mk(2, 0, 0), mk(0, 2, 0), mk(0, 0, 2)); solid_join(s, &t, mk(3, 0, 0)); }
static void solid_hexprism(solid *s) {
  static const double t[6][2] = {{2, 0}, {4, 0}, {6, 2}, {4, 4}, {2, 4}, {0, 2}};
  s->nv = 12; s->nf = 0;
  for (int i = 0; i < 6; i++) { s->v[i] = mk(t[i][0], t[i][1], 0); s->v[i + 6] = mk(t[i][0], t[i][1], 3); }
  add_face(s, 6, 5, 4, 3, 2, 1, 0); add_face(s, 6, 6, 7, 8, 9, 10, 11);
  for (int i = 0; i < 6; i++) add_face(s, 4, i, (i + 1) % 6, 6 + (i + 1) % 6, 6 + i, 0, 0);
}
static void solid_ngon(solid *s, int n) { /* prism over a convex n-gon on a parabola: 2n vertices */
  s->nv = 2 * n; s->nf = 0;
  for (int i = 0; i < n; i++) { s->v[i] = mk(i, i * i / 8.0, 0); s->v[i + n] = mk(i, i * i / 8.0, 2); }
  s->fn[0] = s->fn[1] = n; s->nf = 2;
  for (int i = 0; i < n; i++) { s->fi[0][i] = n - 1 - i; s->fi[1][i] = n + i; }
  for (int i = 0; i < n; i++) add_face(s, 4, i, (i + 1) % n, n + (i + 1) % n, n + i, 0, 0);
}
static void solid_bipyr(solid *s, int n) { /* bipyramid over an n-gon: two vertices of degree n */
  s->nv = n + 2; s->nf = 0;
  for (int i = 0; i < n; i++) s->v[i] = mk(i, i * i / 8.0, 0);
  s->v[n] = mk((n - 1) / 2.0, (n - 1) * (n - 1) / 5.0, 2); s->v[n + 1] = mk((n - 1) / 2.0, (n - 1) * (n - 1) / 6.0, -1);
  for (int i = 0; i < n; i++) { add_face(s, 3, i, (i + 1) % n, n, 0, 0, 0); add_face(s, 3, (i + 1) % n, i, n + 1, 0, 0, 0); }
}
static void solid_ring(solid *s) { /* square ring (genus 1), all vertices of degree 4 */
  static const double o[4][2] = {{0, 0}, {4, 0}, {4, 4}, {0, 4}}, q[4][2] = {{1, 1}, {3, 1}, {3, 3}, {1, 3}};
  s->nv = 16; s->nf = 0; /* 0-3 outer bottom, 4-7 outer top, 8-11 inner bottom, 12-15 inner top */
  for (int i = 0; i < 4; i++) {
    s->v[i] = mk(o[i][0], o[i][1], 0); s->v[4 + i] = mk(o[i][0], o[i][1], 1);
    s->v[8 + i] = mk(q[i][0], q[i][1], 0); s->v[12 + i] = mk(q[i][0], q[i][1], 1);
  }
  for (int i = 0; i < 4; i++) {
    int j = (i + 1) % 4;
    add_face(s, 4, i, j, 4 + j, 4 + i, 0, 0);
    add_face(s, 4, 8 + j, 8 + i, 12 + i, 12 + j, 0, 0);
    add_face(s, 4, 4 + i, 4 + j, 12 + j, 12 + i, 0, 0);
    add_face(s, 4, j, i, 8 + i, 8 + j, 0, 0);
  }
}
static void solid_three(solid *s) {
  solid t;
  solid_box(s, mk(0, 0, 0), mk(1, 2, 1));
  solid_tet(&t, mk(0, 0, 0), mk(2, 0, 0), mk(0, 2, 0), mk(0, 0, 2)); solid_join(s, &t, mk(3, 0, 0));
  solid_prism(&t); solid_join(s, &t, mk(-5, 1, 1));
}
static void solid_cavity(solid *s) { /* box with a box-shaped cavity: the second shell is oriented inwards */
  solid t;
  solid_box(s, mk(0, 0, 0), mk(4, 3, 3)); solid_box(&t, mk(1, 1, 1), mk(2, 2, 2));
  for (int f = 0; f < t.nf; f++) for (int i = 0; i < 2; i++) { int x = t.fi[f][i]; t.fi[f][i] = t.fi[f][3 - i]; t.fi[f][3 - i] = x; }
  solid_join(s, &t, mk(0, 0, 0));
}
static void solid_comb(solid *s) { /* prism over a comb with three prongs: cutting it gives up to three components */
  static const double c[8][2] = {{0, 0}, {6, 0}, {6, 3}, {4, 1}, {3, 3}, {2, 1}, {1, 4}, {-1, 1}};
  s->nv = 16; s->nf = 2; s->fn[0] = s->fn[1] = 8;
  for (int i = 0; i < 8; i++) { s->v[i] = mk(c[i][0], c[i][1], 0); s->v[i + 8] = mk(c[i][0], c[i][1], 2); s->fi[0][i] = 7 - i; s->fi[1][i] = 8 + i; }
  for (int i = 0; i < 8; i++) add_face(s, 4, i, (i + 1) % 8, 8 + (i + 1) % 8, 8 + i, 0, 0);
}
static void solid_five(solid *s) { /* five components */
  solid t;
  solid_octa(s);
  for (int k = 1; k < 5; k++) { if (k % 2) solid_tet(&t, mk(0, 0, 0), mk(2, 0, 0), mk(0, 2, 0), mk(0, 0, 2)); else solid_pyramid(&t); solid_join(s, &t, mk(4 * k, k, -k)); }
}
static void solid_npyr(solid *s, int n) { /* pyramid over an n-gon: a face with n vertices and an apex of degree n */
  s->nv = n + 1; s->nf = 0;
  for (int i = 0; i < n; i++) s->v[i] = mk(i, i * i / 8.0, 0);
  s->v[n] = mk((n - 1) / 2.0, (n - 1) * (n - 1) / 5.0, 2);
  s->fn[0] = n; s->nf = 1;
  for (int i = 0; i < n; i++) s->fi[0][i] = n - 1 - i;
  for (int i = 0; i < n; i++) add_face(s, 3, i, (i + 1) % n, n, 0, 0, 0);
}
static void solid_many(solid *s, int k) { /* k components: tetrahedra and boxes in a row */
  solid t;
  s->nv = s->nf = 0;
  for (int i = 0; i < k; i++) {
    if (i % 5 == 3 && k <= 40) solid_box(&t, mk(0, 0, 0), mk(1, 2, 1)); else solid_tet(&t, mk(0, 0, 0), mk(1, 0, 0), mk(0, 1 + i % 3, 0), mk(0, 0, 2));
    solid_join(s, &t, mk(2 * i, 0, 0));
  }
}
static void get_solid(solid *s, int which) {
  if (which >= 4000) { solid_many(s, which - 4000); return; }
  if (which >= 3000) { solid_npyr(s, which - 3000); return; }
  if (which >= 2000) { solid_bipyr(s, which - 2000); return; }
  if (which >= 1000) { solid_ngon(s, which - 1000); return; }
  if (which >= 200) { solid_bipyr(s, which - 200); return; }
  if (which >= 100) { solid_ngon(s, which - 100); return; }
  switch (which) {
    case 0: solid_tet(s, mk(0, 0, 0), mk(3, 0, 0), mk(0, 2, 0), mk(1, 1, 3)); break;
    case 1: solid_box(s, mk(-1, 0, 0), mk(1, 3, 2)); break;
    case 2: solid_prism(s); break;
    case 3: solid_pyramid(s); break;
    case 4: solid_octa(s); break;
    case 5: solid_dart(s); break;
    case 6: solid_Lprism(s); break;
    case 7: solid_two(s); break;
    case 8: solid_hexprism(s); break;
    case 9: solid_ring(s); break;
    case 10: solid_three(s); break;
    case 12: solid_comb(s); break;
    case 13: solid_five(s); break;
    default: solid_cavity(s); break;
  }
}
#ifndef REF_ONLY
/* canonical constructor for a solid through the public API */
static void init_solid(r3d_poly *p, const solid *s, int which) {
  if (which == 0) { r3d_rvec3 v[4]; for (int i = 0; i < 4; i++) v[i] = rv(s->v[i]); r3d_init_tet(p, v); }
  else if (which == 1) { r3d_rvec3 b[2] = {rv(s->v[0]), rv(s->v[7])}; r3d_init_box(p, b); }
  else make_poly(p, s);
}
#endif
#endif
