#include "ref2.h"
static r2d_poly P, L[4], A[4], B[4];
static rgn S, T, U, SL[4];
static void check2(const r2d_poly *p) {
  rs_assert(p->nverts >= 0 && p->nverts <= R2D_MAX_VERTS, "vertex count within the buffer");
  rs_assert(valid2(p), "closed, reciprocally linked loops");
}
static void inside2(const r2d_poly *p, p2 n, double d) { for (int v = 0; v < p->nverts; v++) rs_le(0.0, sd2(n, d, vp2(p, v)), "vertex inside the half-plane"); }
void h_clip2_signs(void) {
  int which = rs_param("rgn", 2), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), nsym = rs_param("nsym", 99);
  get_rgn(&S, which); init_rgn(&P, &S, which); check2(&P);
  int n0 = P.nverts;
  for (int v = 0; v < n0 && v < nsym; v++) P.verts[v].pos.xy[ax] = rs_real("c");
  poly_to_rgn(&P, &T);
  r2d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xy[ax] = dir; pl.d = off;
  p2 n = m2(pl.n.x, pl.n.y);
  rs_assert(r2d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check2(&P); inside2(&P, n, off);
  int np = 0, nn = 0;
  for (int v = 0; v < n0; v++) { double x = sd2(n, off, T.v[v]); np += x > 0; nn += x < 0; }
  if (nn && !np) { rs_assert(P.nverts == 0, "no interior point inside: empty"); return; }
  ref_clip_rgn(&T, n, off, 0);
  poly_to_rgn(&P, &U);
  eq_rgn(&U, &T, "loops of the clipped polygon");
}
/* triangle / quadrilateral with all coordinates symbolic, axis line at a symbolic offset */
void h_clip2_poly(void) {
  int n = rs_param("n", 3), ax = rs_param("ax", 0), order = rs_param("order", 1), dir = rs_param("dir", 1);
  double m[NMOM2(6)], r[NMOM2(6)];
  r2d_rvec2 v[8];
  for (int i = 0; i < n; i++) { v[i].x = rs_real("x"); v[i].y = rs_real("y"); }
  r2d_init_poly(&P, v, n);
  poly_to_rgn(&P, &S);
  r2d_plane pl; memset(&pl, 0, sizeof pl); pl.n.xy[ax] = dir; pl.d = rs_param("soff", 1) ? rs_real("d") : 0;
  rs_assert(r2d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check2(&P);
  ref_clip_rgn(&S, m2(pl.n.x, pl.n.y), pl.d, 0);
  p2 o = ax ? m2(0, -pl.d * dir) : m2(-pl.d * dir, 0);
  own_reduce2(&P, m, order, o); rgn_mom(r, &S, o, order);
  eq_mom2(m, r, order, "moments of the clipped polygon");
}
/* concrete region, any line through a point */
void h_clip2_line(void) {
  int which = rs_param("rgn", 5), order = rs_param("order", 2);
  double m[NMOM2(6)], r[NMOM2(6)];
  get_rgn(&S, which); init_rgn(&P, &S, which);
  p2 n = m2(rs_real("nx"), rs_real("ny")), o = m2(rs_param("ox", 1) / 4.0, rs_param("oy", 2) / 4.0);
  r2d_plane pl; pl.n = rv2(n); pl.d = -(n.x * o.x + n.y * o.y);
  if (rs_param("zn", 0)) { n = m2(0, 0); pl.n = rv2(n); pl.d = rs_real("d"); }
  int n0 = P.nverts;
  rs_assert(r2d_clip(&P, &pl, 1) == 1, "clip succeeds");
  check2(&P); inside2(&P, n, pl.d);
  rs_assert(r2d_is_good(&P), "accepted by the validity check");
  int np = 0, nn = 0;
  for (int v = 0; v < S.nv; v++) { double x = sd2(n, pl.d, S.v[v]); np += x > 0; nn += x < 0; }
  if (nn == 0) rs_assert(P.nverts == n0, "wholly inside: unchanged");
  else if (np == 0) rs_assert(P.nverts == 0, "no interior point inside: empty");
  ref_clip_rgn(&S, n, pl.d, 0);
  own_reduce2(&P, m, order, o); rgn_mom(r, &S, o, order);
  eq_mom2(m, r, order, "moments of the clipped region");
}
static const int N2[8][2] = {{1, 0}, {1, -2}, {0, 1}, {-3, 1}, {-1, 0}, {2, 1}, {0, -1}, {-1, -1}};
void h_clip2_seq(void) {
  int which = rs_param("rgn", 5), k = rs_param("k", 2), first = rs_param("n0", 0), order = rs_param("order", 1), nsym = rs_param("nsym", 99), together = rs_param("together", 1);
  double m[NMOM2(6)], r[NMOM2(6)];
  r2d_plane pl[16];
  get_rgn(&S, which); init_rgn(&P, &S, which); T = S;
  p2 c = m2(0, 0);
  for (int v = 0; v < S.nv; v++) { c.x += S.v[v].x / S.nv; c.y += S.v[v].y / S.nv; }
  for (int i = 0; i < k; i++) {
    const int *q = N2[(first + i) % 8];
    p2 n = m2(q[0], q[1]);
    pl[i].n = rv2(n);
    pl[i].d = i >= k - nsym || nsym == 99 ? rs_real("d") : -(n.x * c.x + n.y * c.y) + (3 + i) / 8.0;
    ref_clip_rgn(&T, n, pl[i].d, 0);
  }
  if (together) { rs_assert(r2d_clip(&P, pl, k) == 1, "clip succeeds"); check2(&P); }
  else for (int i = 0; i < k; i++) { int st = r2d_clip(&P, &pl[i], 1); rs_assert(st == 1 || P.nverts == 0, "clip succeeds"); check2(&P); }
  for (int i = 0; i < k; i++) inside2(&P, m2(pl[i].n.x, pl[i].n.y), pl[i].d);
  own_reduce2(&P, m, order, m2(1, 0.5)); rgn_mom(r, &T, m2(1, 0.5), order);
  eq_mom2(m, r, order, "moments of the intersection");
}
/* ---- split ---- */
static void part2(const r2d_poly *p, const rgn *in, p2 n, double d, int strict, int exact, int order, p2 o, const char *msg) {
  double m[NMOM2(6)], r[NMOM2(6)];
  check2(p); inside2(p, n, d);
  T = *in;
  ref_clip_rgn(&T, n, d, strict);
  if (exact && !(T.nv && p->nverts == 0)) { poly_to_rgn(p, &U); eq_rgn(&U, &T, msg); }
  else { own_reduce2(p, m, order, o); rgn_mom(r, &T, o, order); eq_mom2(m, r, order, msg); }
}
static void split2(int k, p2 n, double d, int exact, int order, p2 o, int empt) {
  r2d_plane pl; pl.n = rv2(n); pl.d = d;
  rs_assert(r2d_split(L, k, pl, A, B) == 1, "split succeeds");
  for (int i = 0; i < k; i++) {
    part2(&A[i], &SL[i], n, d, 0, exact, order, o, "positive output is the non-negative part");
    part2(&B[i], &SL[i], m2(-n.x, -n.y), -d, 1, exact, order, o, "negative output is the rest");
    if (empt) {
      int np = 0, nn = 0;
      for (int v = 0; v < SL[i].nv; v++) { double x = sd2(n, d, SL[i].v[v]); np += x >= 0; nn += x < 0; }
      if (np == 0) rs_assert(A[i].nverts == 0, "nothing on the positive side: empty output");
      if (nn == 0) rs_assert(B[i].nverts == 0, "nothing on the negative side: empty output");
    }
  }
}
void h_split2_signs(void) {
  int which = rs_param("rgn", 2), ax = rs_param("ax", 0), dir = rs_param("dir", 1), off = rs_param("off", 0), nsym = rs_param("nsym", 99);
  get_rgn(&SL[0], which); init_rgn(&L[0], &SL[0], which);
  for (int v = 0; v < L[0].nverts && v < nsym; v++) L[0].verts[v].pos.xy[ax] = rs_real("c");
  poly_to_rgn(&L[0], &SL[0]);
  split2(1, m2(ax ? 0 : dir, ax ? dir : 0), off, 1, 0, m2(0, 0), 1);
}
void h_split2_list(void) {
  int perm = rs_param("perm", 0), k = rs_param("k", 4), order = rs_param("order", 1);
  static const int what[4][4] = {{1, -1, 0, 5}, {0, 4, 6, -1}, {-1, 2, -1, 1}, {7, 3, 2, 0}};
  static const double nn[4][2] = {{1, 0}, {1, -2}, {-3, 1}, {0, 1}};
  for (int i = 0; i < k; i++) {
    int w = what[perm][i];
    if (w < 0) { L[i].nverts = 0; SL[i].nv = SL[i].nl = 0; continue; }
    get_rgn(&SL[i], w); init_rgn(&L[i], &SL[i], w); poly_to_rgn(&L[i], &SL[i]);
  }
  split2(k, m2(nn[perm][0], nn[perm][1]), rs_real("d"), 0, order, m2(0.5, 1), 1);
  for (int i = 0; i < k; i++) {
    double a[NMOM2(6)], b[NMOM2(6)], c[NMOM2(6)];
    own_reduce2(&A[i], a, order, m2(0, 0)); own_reduce2(&B[i], b, order, m2(0, 0)); rgn_mom(c, &SL[i], m2(0, 0), order);
    for (int q = 0; q < NMOM2(order); q++) rs_eq(a[q] + b[q], c[q], "parts add up to the input");
  }
}
void h_split2_line(void) {
  int which = rs_param("rgn", 5), order = rs_param("order", 1);
  get_rgn(&SL[0], which); init_rgn(&L[0], &SL[0], which); poly_to_rgn(&L[0], &SL[0]);
  p2 n = m2(rs_real("nx"), rs_real("ny")), o = m2(rs_param("ox", 1) / 4.0, rs_param("oy", 2) / 4.0);
  double d = -(n.x * o.x + n.y * o.y);
  if (rs_param("zn", 0)) { n = m2(0, 0); d = rs_real("d"); }
  split2(1, n, d, 0, order, o, 0);
}
/* ---- moments ---- */
static double M[NMOM2(GO2) + 8], R[NMOM2(GO2) + 8];
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static void check_reduce2(r2d_poly *p, int order, const char *msg) {
  int n = NMOM2(order), i;
  for (i = 0; i < 8; i++) M[n + i] = 0.125 + i;
  r2d_reduce(p, M, order);
  for (i = 0; i < n; i++) rs_eq(M[i], R[i], msg);
  for (i = 0; i < 8; i++) rs_eq(M[n + i], 0.125 + i, "exactly the documented number of entries is written");
}
void h_reduce2_poly(void) { /* n-gon with symbolic coordinates (also self-crossing) */
  int n = rs_param("n", 3), order = rs_param("order", 2), mask = rs_param("mask", 3);
  r2d_rvec2 v[16];
  for (int i = 0; i < n; i++) { v[i].x = (mask & 1) ? rs_real("x") : (i * 5) % 7 - 2; v[i].y = (mask & 2) ? rs_real("y") : (i * 3) % 5 + 0.5; }
  r2d_init_poly(&P, v, n);
  poly_to_rgn(&P, &S); rgn_mom(R, &S, m2(0, 0), order);
  check_reduce2(&P, order, "moments of the polygon");
}
void h_reduce2_box(void) {
  int order = rs_param("order", 4), mask = rs_param("mask", 3), n, i, q = 0;
  r2d_rvec2 b[2];
  b[0].x = (mask & 1) ? rs_real("x") : -1; b[1].x = (mask & 1) ? rs_real("x") : 2.5; b[0].y = (mask & 2) ? rs_real("y") : 0.5; b[1].y = (mask & 2) ? rs_real("y") : 3;
  r2d_init_box(&P, b);
  for (n = 0; n <= order; n++) for (i = n; i >= 0; i--) {
    int j = n - i;
    R[q++] = (ipow(b[1].x, i + 1) - ipow(b[0].x, i + 1)) / (i + 1) * (ipow(b[1].y, j + 1) - ipow(b[0].y, j + 1)) / (j + 1);
  }
  check_reduce2(&P, order, "moments of the box");
}
void h_reduce2_rgn(void) { /* any region at any position, vertices relabelled */
  int which = rs_param("rgn", 5), order = rs_param("order", 3), perm = rs_param("perm", 0);
  get_rgn(&S, which);
  p2 t = m2(rs_real("tx"), rs_real("ty"));
  for (int i = 0; i < S.nv; i++) S.v[i] = m2(S.v[i].x + t.x, S.v[i].y + t.y);
  init_rgn(&P, &S, which);
  if (perm) {
    int n = P.nverts, a = perm, g = n;
    while (a) { int b = g % a; g = a; a = b; }
    if (g != 1) perm = n - 1;
    for (int i = 0; i < n; i++) {
      int w = (i * perm + 1) % n;
      A[0].verts[w].pos = P.verts[i].pos;
      for (int k = 0; k < 2; k++) A[0].verts[w].pnbrs[k] = (P.verts[i].pnbrs[k] * perm + 1) % n;
    }
    A[0].nverts = n; P = A[0];
  }
  rgn_mom(R, &S, t, order);
  A[1] = P;
  check_reduce2(&P, order, "moments of the region");
  rs_assert(P.nverts == A[1].nverts, "integration leaves the polygon unmodified");
  for (int v = 0; v < P.nverts; v++) {
    rs_assert(P.verts[v].pnbrs[0] == A[1].verts[v].pnbrs[0] && P.verts[v].pnbrs[1] == A[1].verts[v].pnbrs[1], "integration leaves the links unmodified");
    rs_eq(P.verts[v].pos.x, A[1].verts[v].pos.x, "integration leaves the positions unmodified"); rs_eq(P.verts[v].pos.y, A[1].verts[v].pos.y, "integration leaves the positions unmodified");
  }
}
void h_reduce2_empty(void) {
  int order = rs_param("order", 3);
  P.nverts = 0;
  for (int i = 0; i < NMOM2(order); i++) { R[i] = 0; M[i] = 5; }
  check_reduce2(&P, order, "moments of the empty polygon are zero");
}
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
void h_shift2(void) {
  int order = rs_param("order", 3), nm = NMOM2(order), n, i, a, b, q = 0, symm = rs_param("symm", 1);
  p2 t = m2(rs_real("cx"), rs_real("cy"));
  double in[NMOM2(GO2)];
  for (i = 0; i < nm; i++) { in[i] = symm ? rs_real("m") : (i * i + 3 * i) % 17 - 6; M[i] = in[i]; }
  for (i = 0; i < 8; i++) M[nm + i] = 0.5 + i;
  r2d_shift_moments(M, order, rv2(t));
  for (n = 0; n <= order; n++) for (i = n; i >= 0; i--, q++) {
    int j = n - i; double r = 0;
    for (a = 0; a <= i; a++) for (b = 0; b <= j; b++) { int s = a + b; r += binom(i, a) * binom(j, b) * ipow(t.x, i - a) * ipow(t.y, j - b) * in[s * (s + 1) / 2 + b]; }
    rs_eq(M[q], r, "re-based moments");
  }
  for (i = 0; i < 8; i++) rs_eq(M[nm + i], 0.5 + i, "exactly the documented number of entries is written");
}
void h_shift2_rgn(void) {
  int which = rs_param("rgn", 4), order = rs_param("order", 3);
  get_rgn(&S, which); init_rgn(&P, &S, which);
  p2 t = m2(rs_real("cx"), rs_real("cy"));
  r2d_reduce(&P, M, order);
  r2d_shift_moments(M, order, rv2(t));
  r2d_translate(&P, rv2(t));
  r2d_reduce(&P, R, order);
  for (int i = 0; i < NMOM2(order); i++) rs_eq(M[i], R[i], "moments about the shifted origin");
}
/* a long list of lines: all loose except the one at position `at` (free offset) and `cut` */
void h_clip2_long(void) {
  static r2d_plane pl[1100];
  int which = rs_param("rgn", 1), k = rs_param("k", 300), at = rs_param("at", 299), q = rs_param("n0", 1), order = rs_param("order", 1), cut0 = rs_param("cut", -1);
  double m[NMOM2(6)], r[NMOM2(6)];
  get_rgn(&S, which); init_rgn(&P, &S, which); T = S;
  for (int i = 0; i < k; i++) {
    p2 n = m2(N2[(i == at ? q : i) % 8][0], N2[(i == at ? q : i) % 8][1]);
    pl[i].n = rv2(n); pl[i].d = i == at ? rs_real("d") : i == cut0 ? -(sd2(n, 0, S.v[0]) + sd2(n, 0, S.v[S.nv / 2])) * 0.5 : 1000 + i;
    if (i == at || i == cut0) ref_clip_rgn(&T, n, pl[i].d, 0);
  }
  rs_assert(r2d_clip(&P, pl, k) == 1, "clip succeeds");
  check2(&P);
  for (int i = 0; i < k; i++) if (i == at || i == cut0) inside2(&P, m2(pl[i].n.x, pl[i].n.y), pl[i].d);
  own_reduce2(&P, m, order, m2(1, 0.5)); rgn_mom(r, &T, m2(1, 0.5), order);
  eq_mom2(m, r, order, "moments of the intersection with a long list of lines");
}
/* a long list of boxes in a row, some entries empty; the line passes anywhere in a window of the row */
void h_split2_long(void) {
  static r2d_poly LL[1100], AA[1100], BB[1100];
  int k = rs_param("k", 300), w = rs_param("w", 260), e = rs_param("em", 7), tri = rs_param("tri", 5);
  double x = rs_real("x");
  rs_assume(x >= w); rs_assume(x <= w + 3);
  for (int i = 0; i < k; i++) {
    r2d_rvec2 b[3];
    if (i % e == e - 1) { LL[i].nverts = 0; continue; }
    b[0].x = i; b[0].y = 0; b[1].x = i + 1; b[1].y = 2; b[2].x = i; b[2].y = 3;
    if (i % tri == 0) r2d_init_poly(&LL[i], b, 3); else r2d_init_box(&LL[i], b);
  }
  r2d_plane pl; pl.n.x = -2; pl.n.y = 0; pl.d = 2 * x;
  rs_assert(r2d_split(LL, k, pl, AA, BB) == 1, "split succeeds");
  for (int i = 0; i < k; i++) {
    int full = i % e != e - 1;
    double m, r, all = 0;
    check2(&AA[i]); check2(&BB[i]); inside2(&AA[i], m2(-2, 0), 2 * x); inside2(&BB[i], m2(2, 0), -2 * x);
    SL[0].nv = SL[0].nl = 0;
    if (full) {
      p2 c[4] = {m2(i, 0), m2(i + 1, 0), m2(i + 1, 2), m2(i, 2)};
      if (i % tri == 0) { c[1] = m2(i + 1, 2); c[2] = m2(i, 3); }
      SL[0].nv = i % tri == 0 ? 3 : 4;
      SL[0].nl = 1; SL[0].ln[0] = SL[0].nv;
      for (int j = 0; j < SL[0].nv; j++) { SL[0].v[j] = c[j]; SL[0].li[0][j] = j; }
      rgn_mom(&all, &SL[0], m2(i, 0), 0);
      ref_clip_rgn(&SL[0], m2(-2, 0), 2 * x, 0);
    }
    r = 0; if (full) rgn_mom(&r, &SL[0], m2(i, 0), 0);
    own_reduce2(&AA[i], &m, 0, m2(i, 0)); rs_eq(m, r, "positive output is the non-negative part");
    own_reduce2(&BB[i], &m, 0, m2(i, 0)); rs_eq(m, all - r, "negative output is the rest");
    if (!full) rs_assert(AA[i].nverts == 0 && BB[i].nverts == 0, "an empty entry gives empty outputs");
  }
}
