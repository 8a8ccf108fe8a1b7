#include "vNd.h"
#include "ref4.h"
static rNd_poly P, P0;
static pt4 S, T, U;
static void nice_simplex(rNd_rvec *v, int which) {
  static const double c[3][5][4] = {{{0, 0, 0, 0}, {3, 0, 0, 0}, {0, 2, 0, 0}, {0, 0, 4, 0}, {0, 0, 0, 3}},
                                    {{0, 0, 0, 0}, {3, 1, 0, 0}, {0, 2, 1, 0}, {1, 0, 4, 1}, {1, 1, 0, 3}},
                                    {{1, 1, 1, 1}, {2, 0, 0, 1}, {0, 2, 0, 1}, {0, 0, 2, 1}, {1, 1, 1, 3}}};
  for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) v[i].xyz[k] = c[which][i][k];
}
static const double N4[10][4] = {{1, 0, 0, 0}, {0, -1, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 0}, {1, -1, 0, 2}, {0, 0, 0, -1}, {-1, 0, 0, 0}, {0, 1, 0, 0}, {-1, -1, 0, 0}, {0, 2, -1, 1}};
/* product of a convex n-gon and a convex m-gon: n*m vertices, any count a long run of clips can produce */
static void duoprism(pt4 *s, rNd_poly *p, int n, int m) {
  s->nv = n * m; s->nf = n + m; p->nverts = n * m; p->nfaces = n * m + n + m;
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
    int v = i * m + j, ip = (i + n - 1) % n, jp = (j + m - 1) % m;
    double c[4] = {i, i * i / 8.0, j, j * j / 8.0};
    rNd_vertex *w = &p->verts[v];
    for (int k = 0; k < 4; k++) { s->v[v].c[k] = c[k]; w->pos.xyz[k] = c[k]; }
    int a = ip < i ? ip : i, b = ip < i ? i : ip, e = jp < j ? jp : j, f = jp < j ? j : jp;
    s->f[v][0] = a; s->f[v][1] = b; s->f[v][2] = n + e; s->f[v][3] = n + f;
    w->pnbrs[0] = (i + 1) % n * m + j; w->pnbrs[1] = ip * m + j; w->pnbrs[2] = i * m + (j + 1) % m; w->pnbrs[3] = i * m + jp;
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) w->finds[x][y] = -1;
    w->finds[0][1] = w->finds[1][0] = n * m + j;      /* n-gon at j */
    w->finds[2][3] = w->finds[3][2] = n * m + m + i;  /* m-gon at i */
    for (int x = 0; x < 2; x++) for (int y = 2; y < 4; y++) w->finds[x][y] = w->finds[y][x] = (x ? ip : i) * m + (y == 3 ? jp : j);
  }
}
static void get4(pt4 *s, rNd_poly *p, int which) { /* 0,1: simplices; 10: box; 100*n+m with n,m >= 3: product of polygons */
  rNd_rvec v[5];
  if (which >= 300) { duoprism(s, p, which / 100, which % 100); return; }
  if (which < 10) { nice_simplex(v, which); rNd_init_simplex(p, v); ref_simplex(s, v); }
  else {
    static const double b[2][4] = {{-1, 0, 0, 0.5}, {1, 3, 2, 2}};
    for (int k = 0; k < 4; k++) { v[0].xyz[k] = b[0][k]; v[1].xyz[k] = b[1][k]; }
    rNd_init_box(p, v); ref_box(s, v);
  }
}
static void check4(const rNd_poly *p) {
  rs_assert(p->nverts >= 0 && p->nverts <= RND_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid4(p, 1), "four distinct reciprocal links per vertex with consistent 2-face labels");
}
static void inside4(const rNd_poly *p, const double *n, double d) {
  for (int v = 0; v < p->nverts; v++) { double s = d; for (int k = 0; k < 4; k++) s += n[k] * p->verts[v].pos.xyz[k]; rs_le(0.0, s, "vertex inside the half-space"); }
}
static void clip_and_check(const double (*n)[4], const double *d, int k, int together, int exact) {
  rNd_plane pl[16];
  int touch = 0;
  for (int i = 0; i < k; i++) { for (int a = 0; a < 4; a++) pl[i].n.xyz[a] = n[i][a]; pl[i].d = d[i]; }
  if (together) rs_assert(rNd_clip(&P, pl, k) == 1, "clip succeeds");
  else for (int i = 0; i < k; i++) { int st = rNd_clip(&P, &pl[i], 1); rs_assert(st == 1 || P.nverts == 0, "clip succeeds"); }
  check4(&P);
  for (int i = 0; i < k; i++) {
    int np = 0;
    inside4(&P, n[i], d[i]);
    for (int v = 0; v < S.nv; v++) np += sd4(n[i], d[i], &S.v[v]) > 0;
    if (np == 0 && S.nv) { int nn = 0; for (int v = 0; v < S.nv; v++) nn += sd4(n[i], d[i], &S.v[v]) < 0; if (nn) { rs_assert(P.nverts == 0, "nothing strictly inside: empty"); return; } touch = 1; }
    ref_clip4(&S, n[i], d[i], 0);
  }
  if (exact) eq_p4(&P, &S, "edges of the clipped polytope");
  (void)touch;
}
/* simplex or box with every position along the clip axis */
void h4_clip_signs(void) {
  int ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), which = rs_param("poly", 1);
  rNd_rvec v[5];
  if (which < 10) {
    nice_simplex(v, which);
    for (int i = 0; i < 5; i++) v[i].xyz[ax] = rs_real("c");
    rNd_init_simplex(&P, v); ref_simplex(&S, v);
  } else {
    for (int k = 0; k < 4; k++) { v[0].xyz[k] = k == ax ? rs_real("lo") : k - 2; v[1].xyz[k] = k == ax ? rs_real("hi") : k + 1; }
    rNd_init_box(&P, v); ref_box(&S, v);
  }
  check4(&P);
  double n[1][4] = {{0, 0, 0, 0}}, d[1] = {off};
  n[0][ax] = dir;
  clip_and_check(n, d, 1, 1, 1);
}
/* arbitrary hyperplane through a point */
void h4_clip_plane(void) {
  int which = rs_param("poly", 10), m = rs_param("mask", 15);
  double n[1][4], d[1], o[4] = {rs_param("o0", 1) / 4.0, rs_param("o1", 2) / 4.0, rs_param("o2", 3) / 4.0, rs_param("o3", 5) / 4.0};
  get4(&S, &P, which);
  d[0] = 0;
  for (int k = 0; k < 4; k++) { n[0][k] = (m >> k & 1) ? rs_real("n") : k - 1; d[0] -= n[0][k] * o[k]; }
  if (rs_param("zn", 0)) { for (int k = 0; k < 4; k++) n[0][k] = 0; d[0] = rs_real("d"); }
  clip_and_check(n, d, 1, 1, 1);
}
/* sequence of hyperplanes with fixed normals and symbolic offsets; optionally the volume of the result */
static void seq_planes(double (*n)[4], double *d, int k, int first, int step, int nsym, int box) {
  double c[4];
  for (int a = 0; a < 4; a++) { c[a] = 0; for (int v = 0; v < S.nv; v++) c[a] += S.v[v].c[a] / S.nv; }
  for (int i = 0; i < k; i++) {
    double t = 0;
    for (int a = 0; a < 4; a++) { n[i][a] = N4[(first + i * step) % 10][a]; t -= n[i][a] * c[a]; }
    d[i] = i >= k - nsym ? rs_real("d") : t + (3 + i + box) / 8.0;
  }
}
void h4_clip_seq(void) {
  int which = rs_param("poly", 0), k = rs_param("k", 2), together = rs_param("together", 1);
  double n[16][4], d[16];
  get4(&S, &P, which);
  seq_planes(n, d, k, rs_param("n0", 0), rs_param("ns", 1), rs_param("nsym", 99), rs_param("off", 0));
  clip_and_check((const double (*)[4])n, d, k, together, 1);
  if (rs_param("good", 0)) rs_assert(rNd_is_good(&P), "accepted by the validity check");
}
/* polytopes with many vertices: fixed normals, the offset of the last hyperplane free within a window */
void h4_clip_many(void) {
  int which = rs_param("poly", 1717), q = rs_param("n0", 0), k = rs_param("k", 1);
  double n[2][4], d[2] = {0, 0}, c[4];
  get4(&S, &P, which);
  check4(&P);
  for (int a = 0; a < 4; a++) { c[a] = 0; for (int v = 0; v < S.nv; v++) c[a] += S.v[v].c[a] / S.nv; }
  for (int i = 0; i < k; i++) for (int a = 0; a < 4; a++) { n[i][a] = N4[(q + 3 * i) % 10][a]; d[i] -= n[i][a] * c[a]; }
  if (k > 1) d[0] += 0.375;
  double t = rs_real("t"); rs_assume(t >= rs_param("lo", 0)); rs_assume(t <= rs_param("lo", 0) + rs_param("win", 64) / 64.0);
  d[k - 1] += t;
  clip_and_check((const double (*)[4])n, d, k, 1, 1);
}
void h4_reduce_many(void) {
  int which = rs_param("poly", 1717), n = which / 100, m = which % 100; double g[2] = {0, -7}, a = 0, b = 0, x[4];
  get4(&S, &P, which);
  for (int k = 0; k < 4; k++) x[k] = rs_param("t", 1) >> k & 1 ? rs_real("t") : 0;
  for (int v = 0; v < P.nverts; v++) for (int k = 0; k < 4; k++) P.verts[v].pos.xyz[k] += x[k];
  for (int i = 1; i + 1 < n; i++) a += (i * ((i + 1) * (i + 1) / 8.0) - (i + 1) * (i * i / 8.0)) / 2;
  for (int i = 1; i + 1 < m; i++) b += (i * ((i + 1) * (i + 1) / 8.0) - (i + 1) * (i * i / 8.0)) / 2;
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], a * b, "volume of the product of the polygons"); rs_assert(g[1] == -7, "one entry written");
}
/* ---- volumes ---- */
void h4_reduce_simplex(void) { /* any simplex of the parametrised family */
  int which = rs_param("poly", 0), m = rs_param("mask", 1), t = rs_param("t", 0);
  rNd_rvec v[5]; double M[4][4], g[3] = {-7, -7, -7}, vol, sh[4];
  nice_simplex(v, which);
  double us = rs_param("u", 0) ? rs_real("u") : 1.0;
  if (rs_param("u", 0)) rs_assume(us != 0);
  for (int i = 0; i < 5; i++) for (int k = 0; k < 4; k++) v[i].xyz[k] *= us;
  for (int k = 0; k < 4; k++) { double s = (m >> k & 1) ? rs_real("s") : 1.0; sh[k] = (t >> k & 1) ? rs_real("t") : 0.0; if (m >> k & 1) rs_assume(s != 0); for (int i = 0; i < 5; i++) v[i].xyz[k] = v[i].xyz[k] * s + sh[k]; }
  rNd_init_simplex(&P, v);
  for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) M[i][k] = v[i + 1].xyz[k] - v[0].xyz[k];
  vol = det4(M) / 24;
  if (vol < 0) vol = -vol;
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], vol, "volume of the simplex");
  rs_assert(g[1] == -7 && g[2] == -7, "one entry written");
}
void h4_reduce_box(void) {
  int m = rs_param("mask", 15);
  rNd_rvec b[2]; double g[3] = {-7, -7, -7}, vol = 1;
  for (int k = 0; k < 4; k++) {
    b[0].xyz[k] = (m >> k & 1) ? rs_real("lo") : k - 1; b[1].xyz[k] = (m >> k & 1) ? rs_real("hi") : k + 1.5;
    rs_assume(b[0].xyz[k] < b[1].xyz[k]); vol *= b[1].xyz[k] - b[0].xyz[k];
  }
  rNd_init_box(&P, b);
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], vol, "volume of the box");
  rs_assert(g[1] == -7 && g[2] == -7, "one entry written");
}
/* clipped polytopes: fixed normals, symbolic offsets in general position (touch=0) */
void h4_reduce_clipped(void) {
  int which = rs_param("poly", 10), k = rs_param("k", 1), gc = rs_param("gc", 0);
  double n[16][4], d[16], g[1];
  rNd_plane pl[16];
  get4(&S, &P, which);
  seq_planes(n, d, k, rs_param("n0", 2), rs_param("ns", 1), rs_param("nsym", 1), rs_param("off", 0));
  for (int i = 0; i < k; i++) {
    for (int v = 0; v < S.nv; v++) { double s = sd4(n[i], d[i], &S.v[v]); if (rs_param("touch", 0)) { if (s == 0) rs_reach("touching"); } else rs_assume(s != 0); }
    for (int a = 0; a < 4; a++) pl[i].n.xyz[a] = n[i][a];
    pl[i].d = d[i];
    ref_clip4(&S, n[i], d[i], 0);
  }
  rs_assert(rNd_clip(&P, pl, k) == 1, "clip succeeds");
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], ref_vol4(&S, gc), "volume of the clipped polytope");
}
/* a hyperplane through vertices makes neighbouring vertices coincide (see known-findings) */
void h4_reduce_touch(void) {
  rNd_rvec v[5]; rNd_plane pl; double g[1], M[4][4], s = rs_real("s"), vol; int i, k;
  rs_assume(s > 0);
  nice_simplex(v, 0);
  for (i = 0; i < 5; i++) for (k = 0; k < 4; k++) v[i].xyz[k] *= s;
  v[2].xyz[1] = v[1].xyz[0];
  rNd_init_simplex(&P, v);
  for (i = 0; i < 4; i++) for (k = 0; k < 4; k++) M[i][k] = v[i + 1].xyz[k] - v[0].xyz[k];
  vol = det4(M) / 48; if (vol < 0) vol = -vol;
  pl.n.xyz[0] = 1; pl.n.xyz[1] = -1; pl.n.xyz[2] = pl.n.xyz[3] = 0; pl.d = 0;
  rs_assert(rNd_clip(&P, &pl, 1) == 1, "clip succeeds");
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], vol, "half of the simplex");
}
void h4_reduce_empty(void) { double g[2] = {5, -7}; P.nverts = 0; P.nfaces = 0; rNd_reduce(&P, g, 0); rs_eq(g[0], 0, "volume of the empty polytope"); rs_assert(g[1] == -7, "one entry written"); }
/* ---- voxelization ---- */
#define GUARD 8
static double G[2000], I[2000];
static void same4(const rNd_poly *a, const rNd_poly *b) {
  rs_assert(a->nverts == b->nverts && a->nfaces == b->nfaces, "input unmodified");
  for (int v = 0; v < a->nverts; v++) for (int k = 0; k < 4; k++) {
    rs_assert(a->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "input links unmodified");
    for (int j = 0; j < 4; j++) if (j != k) rs_assert(a->verts[v].finds[k][j] == b->verts[v].finds[k][j], "input face labels unmodified");
    rs_eq(a->verts[v].pos.xyz[k], b->verts[v].pos.xyz[k], "input positions unmodified");
  }
}
static pt4 C[5];
static double E[2000];
static void cells(int ax, const int *N, const int *O, const rNd_rvec *d, int idx, int gc) {
  if (ax == 4) {
    double v = C[4].nv ? ref_vol4(&C[4], gc) : 0.0;
    E[idx] = v;
    return;
  }
  for (int i = 0; i < N[ax]; i++) {
    double n[4] = {0, 0, 0, 0};
    cp4(&C[ax + 1], &C[ax]);
    n[ax] = 1; if (i) ref_clip4(&C[ax + 1], n, -d->xyz[ax] * (O[ax] + i), 0);
    n[ax] = -1; if (i < N[ax] - 1) ref_clip4(&C[ax + 1], n, d->xyz[ax] * (O[ax] + i + 1), 0);
    cells(ax + 1, N, O, d, idx * N[ax] + i, gc);
  }
}
void h4_vox(void) {
  int which = rs_param("poly", 10), tm = rs_param("t", 0), vm = rs_param("v", 0), dm = rs_param("d", 0), a, i, tot, q, gc = rs_param("gc", 0);
  int N[4] = {rs_param("n0", 2), rs_param("n1", 1), rs_param("n2", 1), rs_param("n3", 1)}, O[4] = {rs_param("o0", 0), rs_param("o1", 0), rs_param("o2", 0), rs_param("o3", 0)};
  static const double dc[4] = {1, 0.5, 2, 0.75};
  rNd_rvec d, v[5]; rNd_dvec ib[2];
  for (a = 0; a < 4; a++) {
    d.xyz[a] = dc[a]; if (dm >> a & 1) { d.xyz[a] = rs_real("d"); rs_assume(d.xyz[a] > 0); }
    ib[0].ijk[a] = O[a]; ib[1].ijk[a] = O[a] + N[a];
  }
  if (which < 10) {
    nice_simplex(v, which);
    for (a = 0; a < 4; a++) {
      double t = (tm >> a & 1) ? rs_real("t") : 0, lo = 100, hi = -100;
      for (i = 0; i < 5; i++) { if (v[i].xyz[a] < lo) lo = v[i].xyz[a]; if (v[i].xyz[a] > hi) hi = v[i].xyz[a]; }
      for (i = 0; i < 5; i++) v[i].xyz[a] = t + dc[a] * (O[a] + N[a] * ((tm >> a & 1 ? 11 : 3) / 64.0 + (v[i].xyz[a] - lo) / (hi - lo) * (tm >> a & 1 ? 43 : 57) / 64.0));
    }
    rNd_init_simplex(&P, v); ref_simplex(&C[0], v);
  } else {
    for (a = 0; a < 4; a++) {
      v[0].xyz[a] = dc[a] * (O[a] + 0.25); v[1].xyz[a] = dc[a] * (O[a] + N[a] - 0.125);
      if (vm >> a & 1) { v[0].xyz[a] = rs_real("lo"); v[1].xyz[a] = rs_real("hi"); rs_assume(v[0].xyz[a] < v[1].xyz[a]); }
    }
    rNd_init_box(&P, v); ref_box(&C[0], v);
  }
  for (a = 0; a < 4; a++) for (i = 0; i < C[0].nv; i++) {
    rs_assume(C[0].v[i].c[a] >= d.xyz[a] * O[a]); rs_assume(C[0].v[i].c[a] <= d.xyz[a] * (O[a] + N[a]));
  }
  ref4_general = which < 10; /* see known-findings: coincident neighbours */
  cells(0, N, O, &d, 0, gc);
  tot = N[0] * N[1] * N[2] * N[3];
  for (q = 0; q < tot + 2 * GUARD; q++) G[q] = I[q] = 0.5 * (q % 5) + 1;
  P0 = P;
  rs_assert(rNd_voxelize(&P, ib, G + GUARD, d, 0) == 1, "voxelization succeeds");
  same4(&P, &P0);
  for (q = 0; q < GUARD; q++) { rs_eq(G[q], I[q], "nothing written before the grid"); rs_eq(G[GUARD + tot + q], I[GUARD + tot + q], "nothing written after the grid"); }
  for (q = 0; q < tot; q++) rs_eq(G[GUARD + q], I[GUARD + q] + E[q], "cell holds its previous value plus the volume inside it");
}
void h4_vox_noop(void) {
  int q, a, mode = rs_param("mode", 0);
  rNd_rvec d; rNd_dvec ib[2];
  get4(&S, &P, 10);
  for (a = 0; a < 4; a++) { d.xyz[a] = rs_real("d"); rs_assume(d.xyz[a] > 0); ib[0].ijk[a] = a - 2; ib[1].ijk[a] = ib[0].ijk[a] + rs_int("n", mode == 1 ? -1 : 1, 2); }
  if (mode == 1) rs_assume(ib[1].ijk[0] <= ib[0].ijk[0] || ib[1].ijk[1] <= ib[0].ijk[1] || ib[1].ijk[2] <= ib[0].ijk[2] || ib[1].ijk[3] <= ib[0].ijk[3]);
  else if (mode == 0) P.nverts = 0;
  P0 = P;
  for (q = 0; q < 60; q++) G[q] = I[q] = 0.25 * q;
  if (mode == 2) { int w = rs_int("missing", 1, 3); rNd_voxelize(w & 1 ? 0 : &P, ib, w & 2 ? 0 : G + GUARD, d, 0); }
  else rNd_voxelize(&P, ib, G + GUARD, d, 0);
  same4(&P, &P0);
  for (q = 0; q < 60; q++) rs_eq(G[q], I[q], "grid untouched");
}
/* a long list of hyperplanes: all loose except the one at position `at` (free offset) */
void h4_clip_long(void) {
  static rNd_plane pl[1100];
  int which = rs_param("poly", 10), k = rs_param("k", 300), at = rs_param("at", 299), q = rs_param("n0", 2), nn = 0;
  double n[4], d = 0;
  get4(&S, &P, which);
  for (int i = 0; i < k; i++) {
    for (int a = 0; a < 4; a++) pl[i].n.xyz[a] = N4[(i == at ? q : i) % 10][a];
    pl[i].d = i == at ? (d = rs_real("d")) : 1000 + i;
  }
  for (int a = 0; a < 4; a++) n[a] = N4[q][a];
  rs_assert(rNd_clip(&P, pl, k) == 1, "clip succeeds");
  check4(&P); inside4(&P, n, d);
  for (int v = 0; v < S.nv; v++) { double s = sd4(n, d, &S.v[v]); nn += s > 0; }
  if (!nn && P.nverts == 0) return;
  ref_clip4(&S, n, d, 0);
  eq_p4(&P, &S, "edges of the clipped polytope");
}
