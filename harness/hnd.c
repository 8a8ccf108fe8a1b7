/* the rNd routines compiled for other numbers of dimensions (RND_DIM set by the job; reference geometry of any dimension) */
#include "vNd.h"
#include "ref4.h"
static rNd_poly P, P0;
static pt4 S, C[ND + 1];
static void nice(rNd_rvec *v, int which) {
  for (int i = 0; i <= ND; i++) for (int k = 0; k < ND; k++) {
    v[i].xyz[k] = i == k + 1 ? 2 + k % 3 : 0;
    if (which == 1 && i && i != k + 1) v[i].xyz[k] = (i * 3 + k * 2) % 4 == 0;
    if (which == 2) v[i].xyz[k] += i == 0 ? 1 : k == ND - 1 ? 1 - (i == ND) : 0;
  }
}
static const double NN[8][6] = {{1, 0, 0, 0, 0, 0}, {0, -1, 0, 0, 0, 0}, {1, 1, 1, 1, 1, 1}, {0, 0, 1, 0, 0, 0}, {1, -1, 2, 0, 1, -1}, {-1, 2, 0, 1, 0, 2}, {-1, -1, 0, 0, 0, 0}, {0, 2, -1, 1, 1, 0}};
static void get(int which) { /* 0..2: simplices; 10: box */
  rNd_rvec v[ND + 1];
  if (which < 10) { nice(v, which); rNd_init_simplex(&P, v); ref_simplex(&S, v); }
  else {
    for (int k = 0; k < ND; k++) { v[0].xyz[k] = k % 2 ? 0 : -1; v[1].xyz[k] = k % 3 + 1; }
    rNd_init_box(&P, v); ref_box(&S, v);
  }
}
static void check(void) {
  rs_assert(P.nverts >= 0 && P.nverts <= RND_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid4(&P, 1), "distinct reciprocal links with consistent 2-face labels");
}
static void clip_check(const double (*n)[ND], const double *d, int k) {
  rNd_plane pl[16];
  for (int i = 0; i < k; i++) { for (int a = 0; a < ND; a++) pl[i].n.xyz[a] = n[i][a]; pl[i].d = d[i]; }
  rs_assert(rNd_clip(&P, pl, k) == 1, "clip succeeds");
  check();
  for (int i = 0; i < k; i++) {
    int np = 0, nn = 0;
    for (int v = 0; v < P.nverts; v++) { double s = d[i]; for (int a = 0; a < ND; a++) s += n[i][a] * P.verts[v].pos.xyz[a]; rs_le(0.0, s, "vertex inside the half-space"); }
    for (int v = 0; v < S.nv; v++) { double s = sd4(n[i], d[i], &S.v[v]); np += s > 0; nn += s < 0; }
    if (np == 0 && nn) { rs_assert(P.nverts == 0, "nothing strictly inside: empty"); return; }
    ref_clip4(&S, n[i], d[i], 0);
  }
  eq_p4(&P, &S, "edges of the clipped polytope");
}
/* every position of the vertices along one axis */
void hn_clip_signs(void) {
  int ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), which = rs_param("poly", 1);
  rNd_rvec v[ND + 1];
  if (which < 10) {
    nice(v, which);
    for (int i = 0; i <= ND; i++) v[i].xyz[ax] = i < rs_param("nsym", 99) ? rs_real("c") : i % 3 - 1;
    rNd_init_simplex(&P, v); ref_simplex(&S, v);
  } else {
    for (int k = 0; k < ND; k++) { v[0].xyz[k] = k == ax ? rs_real("lo") : k - 2; v[1].xyz[k] = k == ax ? rs_real("hi") : k + 1; }
    rNd_init_box(&P, v); ref_box(&S, v);
  }
  check();
  double n[1][ND], d[1] = {off};
  for (int k = 0; k < ND; k++) n[0][k] = k == ax ? dir : 0;
  clip_check((const double (*)[ND])n, d, 1);
}
/* any hyperplane through a point */
void hn_clip_plane(void) {
  int m = rs_param("mask", 3), o = rs_param("o", 0x21321);
  double n[1][ND], d[1] = {0};
  get(rs_param("poly", 10));
  for (int k = 0; k < ND; k++) { n[0][k] = (m >> k & 1) ? rs_real("n") : k - 1; d[0] -= n[0][k] * ((o >> 4 * k & 15) / 4.0); }
  if (rs_param("zn", 0)) { for (int k = 0; k < ND; k++) n[0][k] = 0; d[0] = rs_real("d"); }
  clip_check((const double (*)[ND])n, d, 1);
}
static void planes(double (*n)[ND], double *d, int k, int first, int nsym) {
  double c[ND];
  for (int a = 0; a < ND; a++) { c[a] = 0; for (int v = 0; v < S.nv; v++) c[a] += S.v[v].c[a] / S.nv; }
  for (int i = 0; i < k; i++) {
    double t = 0;
    for (int a = 0; a < ND; a++) { n[i][a] = NN[(first + i) % 8][a]; t -= n[i][a] * c[a]; }
    d[i] = i >= k - nsym ? rs_real("d") : t + 3 / 8.0;
  }
}
void hn_clip_seq(void) {
  int k = rs_param("k", 2);
  double n[16][ND], d[16];
  get(rs_param("poly", 0));
  planes(n, d, k, rs_param("n0", 0), rs_param("nsym", 1));
  clip_check((const double (*)[ND])n, d, k);
  if (rs_param("good", 0)) rs_assert(rNd_is_good(&P), "accepted by the validity check");
}
/* volume of what is left; hyperplanes in general position */
void hn_reduce(void) {
  int k = rs_param("k", 1), gc = rs_param("gc", 0), t = rs_param("t", 0);
  double n[16][ND], d[16], g[2] = {3, -7};
  rNd_plane pl[16];
  get(rs_param("poly", 10));
  for (int a = 0; a < ND; a++) if (t >> a & 1) { double x = rs_real("t"); for (int v = 0; v < P.nverts; v++) P.verts[v].pos.xyz[a] = S.v[v].c[a] = S.v[v].c[a] + x; }
  planes(n, d, k, rs_param("n0", 2), rs_param("nsym", 1));
  for (int i = 0; i < k; i++) {
    for (int v = 0; v < S.nv; v++) rs_assume(sd4(n[i], d[i], &S.v[v]) != 0);
    for (int a = 0; a < ND; a++) pl[i].n.xyz[a] = n[i][a];
    pl[i].d = d[i];
    ref_clip4(&S, n[i], d[i], 0);
  }
  if (k) rs_assert(rNd_clip(&P, pl, k) == 1, "clip succeeds");
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], S.nv ? ref_vol4(&S, gc) : 0.0, "volume of the polytope");
  rs_assert(g[1] == -7, "one entry written");
}
/* ---- voxelization ---- */
#define GUARD 4
static double G[1500], I[1500], E[1500];
static void same(void) {
  rs_assert(P.nverts == P0.nverts && P.nfaces == P0.nfaces, "input unmodified");
  for (int v = 0; v < P.nverts; v++) for (int k = 0; k < ND; k++) {
    rs_assert(P.verts[v].pnbrs[k] == P0.verts[v].pnbrs[k], "input links unmodified");
    rs_eq(P.verts[v].pos.xyz[k], P0.verts[v].pos.xyz[k], "input positions unmodified");
  }
}
static double overlap(double a, double b, double lo, double hi) { double l = a > lo ? a : lo, h = b < hi ? b : hi; return h > l ? h - l : 0.0; }
static rNd_rvec B[2];
static void cells(int ax, const int *N, const int *O, const rNd_rvec *d, int idx, int gc, double vol) {
  if (ax == ND) { E[idx] = gc < 0 ? vol : C[ND].nv ? ref_vol4(&C[ND], gc) : 0.0; return; }
  for (int i = 0; i < N[ax]; i++) {
    double v = vol, n[ND];
    if (gc < 0) v = vol * overlap(B[0].xyz[ax], B[1].xyz[ax], d->xyz[ax] * (O[ax] + i), d->xyz[ax] * (O[ax] + i + 1));
    else {
      cp4(&C[ax + 1], &C[ax]);
      for (int k = 0; k < ND; k++) n[k] = 0;
      n[ax] = 1; if (i) ref_clip4(&C[ax + 1], n, -d->xyz[ax] * (O[ax] + i), 0);
      n[ax] = -1; if (i < N[ax] - 1) ref_clip4(&C[ax + 1], n, d->xyz[ax] * (O[ax] + i + 1), 0);
    }
    cells(ax + 1, N, O, d, idx * N[ax] + i, gc, v);
  }
}
void hn_vox(void) { /* n, o: hexadecimal digits per axis (offset minus 8); poly 10: box with the bounds in mask v free; else a simplex moved along the axes in mask t */
  int which = rs_param("poly", 10), vm = rs_param("v", 1), tm = rs_param("t", 0), dm = rs_param("d", 0), n = rs_param("n", 0x22111), o = rs_param("o", 0x88888), gc = rs_param("gc", 0), N[ND], O[ND], tot = 1, a, i, q;
  rNd_rvec d, v[ND + 1]; rNd_dvec ib[2];
  for (a = 0; a < ND; a++) {
    N[a] = n >> 4 * a & 15; O[a] = (o >> 4 * a & 15) - 8; tot *= N[a];
    d.xyz[a] = a % 2 ? 0.75 : 1; if (dm >> a & 1) { d.xyz[a] = rs_real("d"); rs_assume(d.xyz[a] > 0); }
    ib[0].ijk[a] = O[a]; ib[1].ijk[a] = O[a] + N[a];
  }
  if (which == 10) {
    for (a = 0; a < ND; a++) {
      B[0].xyz[a] = d.xyz[a] * (O[a] + 0.25); B[1].xyz[a] = d.xyz[a] * (O[a] + N[a] - 0.375);
      if (vm >> a & 1) { B[0].xyz[a] = rs_real("lo"); B[1].xyz[a] = rs_real("hi"); rs_assume(B[0].xyz[a] < B[1].xyz[a]); }
      rs_assume(B[0].xyz[a] >= d.xyz[a] * O[a]); rs_assume(B[1].xyz[a] <= d.xyz[a] * (O[a] + N[a]));
    }
    rNd_init_box(&P, B);
    cells(0, N, O, &d, 0, -1, 1.0);
  } else {
    nice(v, which);
    for (a = 0; a < ND; a++) {
      double lo = 100, hi = -100, t = (tm >> a & 1) ? rs_real("t") : 0;
      for (i = 0; i <= ND; i++) { if (v[i].xyz[a] < lo) lo = v[i].xyz[a]; if (v[i].xyz[a] > hi) hi = v[i].xyz[a]; }
      for (i = 0; i <= ND; i++) v[i].xyz[a] = t + d.xyz[a] * (O[a] + N[a] * ((tm >> a & 1 ? 11 : 3) / 64.0 + (v[i].xyz[a] - lo) / (hi - lo) * (tm >> a & 1 ? 43 : 57) / 64.0));
    }
    rNd_init_simplex(&P, v); ref_simplex(&C[0], v);
    for (a = 0; a < ND; a++) for (i = 0; i <= ND; i++) { rs_assume(C[0].v[i].c[a] >= d.xyz[a] * O[a]); rs_assume(C[0].v[i].c[a] <= d.xyz[a] * (O[a] + N[a])); }
    ref4_general = 1; /* see known-findings: coincident neighbours */
    cells(0, N, O, &d, 0, gc, 1.0);
  }
  for (q = 0; q < tot + 2 * GUARD; q++) G[q] = I[q] = 0.5 * (q % 5) + 1;
  P0 = P;
  rs_assert(rNd_voxelize(&P, ib, G + GUARD, d, 0) == 1, "voxelization succeeds");
  same();
  for (q = 0; q < GUARD; q++) { rs_eq(G[q], I[q], "nothing written before the grid"); rs_eq(G[GUARD + tot + q], I[GUARD + tot + q], "nothing written after the grid"); }
  for (q = 0; q < tot; q++) rs_eq(G[GUARD + q], I[GUARD + q] + E[q], "cell holds its previous value plus the volume inside it");
}
/* ---- index boxes ---- */
void hn_ibox(void) {
  int t = rs_param("t", 1), dm = rs_param("d", 0), a, i;
  rNd_rvec d; rNd_dvec ib[2];
  get(rs_param("poly", 0));
  for (a = 0; a < ND; a++) {
    d.xyz[a] = a % 2 ? 0.5 : 1.25; if (dm >> a & 1) { d.xyz[a] = rs_real("d"); rs_assume(d.xyz[a] >= 0.5); }
    if (t >> a & 1) { double x = rs_real("t"); rs_assume(x >= -2); rs_assume(x <= 2); for (i = 0; i < P.nverts; i++) P.verts[i].pos.xyz[a] = S.v[i].c[a] = S.v[i].c[a] + x; }
  }
  P0 = P;
  rNd_get_ibox(&P, ib, d);
  same();
  for (a = 0; a < ND; a++) {
    int nl = 0, nh = 0;
    for (i = 0; i < S.nv; i++) {
      rs_le(ib[0].ijk[a] * d.xyz[a], S.v[i].c[a], "box starts at or below every vertex");
      rs_le(S.v[i].c[a], ib[1].ijk[a] * d.xyz[a], "box ends at or above every vertex");
      nl += S.v[i].c[a] < (ib[0].ijk[a] + 1) * d.xyz[a]; nh += S.v[i].c[a] > (ib[1].ijk[a] - 1) * d.xyz[a];
    }
    rs_assert(nl > 0 && nh > 0, "box is the tightest");
  }
}
void hn_clamp(void) {
  int t = rs_param("t", 1), a, i, s, cut = 0, gone = 0, lo[ND], hi[ND]; double vol = 1, g[1];
  rNd_rvec d; rNd_dvec ib[2], cb[2];
  for (a = 0; a < ND; a++) {
    d.xyz[a] = a % 2 ? 0.5 : 1.25;
    B[0].xyz[a] = -0.4; B[1].xyz[a] = 1.1 + a;
    if (t >> a & 1) { double x = rs_real("x"), y = rs_real("y"); rs_assume(x < y); rs_assume(x >= -3); rs_assume(y <= 3); B[0].xyz[a] = x; B[1].xyz[a] = y; }
    cb[0].ijk[a] = -1 + a % 2; cb[1].ijk[a] = 2 - a % 2;
  }
  rNd_init_box(&P, B); ref_box(&S, B);
  rNd_get_ibox(&P, ib, d);
  for (a = 0; a < ND; a++) {
    lo[a] = ib[0].ijk[a]; hi[a] = ib[1].ijk[a];
    if (lo[a] >= cb[1].ijk[a] || hi[a] <= cb[0].ijk[a]) gone = 1;
    if (lo[a] < cb[0].ijk[a]) { lo[a] = cb[0].ijk[a]; cut = 1; }
    if (hi[a] > cb[1].ijk[a]) { hi[a] = cb[1].ijk[a]; cut = 1; }
    vol *= overlap(B[0].xyz[a], B[1].xyz[a], lo[a] * d.xyz[a], hi[a] * d.xyz[a]);
  }
  P0 = P;
  rs_assert(rNd_clamp_ibox(&P, ib, cb, d) == 1, "clamping succeeds");
  for (a = 0; a < ND; a++) rs_assert(cb[0].ijk[a] == -1 + a % 2 && cb[1].ijk[a] == 2 - a % 2, "clamp box unmodified");
  if (gone) {
    for (a = 0; a < ND; a++) for (s = 0; s < 2; s++) rs_assert(ib[s].ijk[a] == 0, "box cleared where nothing overlaps");
    rs_assert(P.nverts == 0, "polytope cleared where nothing overlaps");
    return;
  }
  for (a = 0; a < ND; a++) rs_assert(ib[0].ijk[a] == lo[a] && ib[1].ijk[a] == hi[a], "box is the intersection");
  if (!cut) same();
  check();
  for (i = 0; i < P.nverts; i++) for (a = 0; a < ND; a++) { rs_le(lo[a] * d.xyz[a], P.verts[i].pos.xyz[a], "kept part lies in the box"); rs_le(P.verts[i].pos.xyz[a], hi[a] * d.xyz[a], "kept part lies in the box"); }
  rNd_reduce(&P, g, 0);
  rs_eq(g[0], vol, "volume of the kept part");
}
/* the validity check accepts and rejects */
void hn_good(void) {
  get(rs_param("poly", 0));
  rs_assert(rNd_is_good(&P), "valid polytope accepted");
  int v = rs_int("v", 0, P.nverts - 1), k = rs_int("k", 0, ND - 1), w = rs_int("w", -1, P.nverts), was = P.verts[v].pnbrs[k];
  P.verts[v].pnbrs[k] = w;
  rs_assert(!!rNd_is_good(&P) == (w == was), "exactly the original links accepted");
}
