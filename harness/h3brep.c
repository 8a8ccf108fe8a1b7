/* construction from boundary descriptions, and conversion back */
#include "ref3.h"
static r3d_poly P, Q;
static solid S, U, W, D;
static int deg[MAXSV];
/* contract consecutive repetitions in a face given by labels; returns the length, canonical rotation */
static int canon(const int *in, int n, int *out) {
  int k = 0, m = 0, i;
  static int tmp[MAXFV];
  for (i = 0; i < n; i++) if (in[i] != in[(i + n - 1) % n]) tmp[k++] = in[i];
  for (i = 1; i < k; i++) if (tmp[i] < tmp[m]) m = i;
  for (i = 0; i < k; i++) out[i] = tmp[(m + i) % k];
  return k;
}
/* faces of a (labelled lab[]) are exactly the faces of b, contracted, up to rotation and order */
static void same_faces(const solid *a, const int *lab, const solid *b, const char *msg) {
  static int used[MAXF], ca[MAXFV], cb[MAXFV], la[MAXFV];
  int f, g, i, n, m;
  rs_assert(a->nf == b->nf, "number of faces");
  for (g = 0; g < b->nf; g++) used[g] = 0;
  for (f = 0; f < a->nf; f++) {
    for (i = 0; i < a->fn[f]; i++) la[i] = lab[a->fi[f][i]];
    n = canon(la, a->fn[f], ca);
    for (g = 0; g < b->nf; g++) {
      if (used[g]) continue;
      m = canon(b->fi[g], b->fn[g], cb);
      if (m != n) continue;
      for (i = 0; i < n; i++) if (ca[i] != cb[i]) break;
      if (i == n) break;
    }
    rs_assert(g < b->nf, msg);
    if (g == b->nf) return;
    used[g] = 1;
  }
}
static int same_pt(pt a, pt b) { return rs_same(a.x, b.x) && rs_same(a.y, b.y) && rs_same(a.z, b.z); }
static int sum_dup(void) {
  int r = 0;
  for (int i = 0; i < S.nv; i++) deg[i] = 0;
  for (int f = 0; f < S.nf; f++) for (int i = 0; i < S.fn[f]; i++) deg[S.fi[f][i]]++;
  for (int i = 0; i < S.nv; i++) r += deg[i] - 2;
  return r;
}
static void rotate_face(solid *s, int f, int r) {
  int t[MAXFV], n = s->fn[f];
  for (int i = 0; i < n; i++) t[i] = s->fi[f][(i + r) % n];
  for (int i = 0; i < n; i++) s->fi[f][i] = t[i];
}
static void swap_faces(solid *s, int a, int b) {
  int n = s->fn[a] > s->fn[b] ? s->fn[a] : s->fn[b], x;
  for (int i = 0; i < n; i++) { x = s->fi[a][i]; s->fi[a][i] = s->fi[b][i]; s->fi[b][i] = x; }
  x = s->fn[a]; s->fn[a] = s->fn[b]; s->fn[b] = x;
}
static int coprime(int k, int n) { int a = k, b = n; while (b) { int c = a % b; a = b; b = c; } return a == 1; }
/* every coordinate symbolic; every listing of the faces in the chosen family */
void h_build(void) {
  int which = rs_param("solid", 3), rot = rs_param("rot", 0), ord = rs_param("ord", 0), ren = rs_param("ren", 0), good = rs_param("good", 0), i, f;
  get_solid(&S, which);
  if (ren > 1 && coprime(ren, S.nv)) { /* renumber the vertices */
    D = S;
    for (i = 0; i < S.nv; i++) S.v[(i * ren + 1) % S.nv] = D.v[i];
    for (f = 0; f < S.nf; f++) for (i = 0; i < S.fn[f]; i++) S.fi[f][i] = (D.fi[f][i] * ren + 1) % S.nv;
  }
  for (i = 0; i < S.nv && !good; i++) { S.v[i] = mk(rs_real("x"), rs_real("y"), rs_real("z")); if (i) rs_assume(S.v[i].x >= S.v[i - 1].x + 1); }
  if (ord == -1) for (i = 0; i < S.nf - 1; i++) swap_faces(&S, i, i + rs_int("f", 0, S.nf - 1 - i));       /* all orders */
  else if (ord == -2) { int a = rs_int("a", 0, S.nf - 1), b = rs_int("b", 0, S.nf - 1); swap_faces(&S, a, b); } /* all transpositions */
  else if (ord == -3) { int k = rs_int("k", 0, S.nf - 1); W = S; for (f = 0; f < S.nf; f++) { S.fn[f] = W.fn[(f + k) % S.nf]; for (i = 0; i < S.fn[f]; i++) S.fi[f][i] = W.fi[(f + k) % S.nf][i]; } if (rs_int("rev", 0, 1)) for (f = 0; f < S.nf / 2; f++) swap_faces(&S, f, S.nf - 1 - f); }
  else if (ord > 0 && coprime(ord, S.nf)) { W = S; for (f = 0; f < S.nf; f++) { int g = (f * ord + 2) % S.nf; S.fn[f] = W.fn[g]; for (i = 0; i < S.fn[f]; i++) S.fi[f][i] = W.fi[g][i]; } }
  if (rot == -1) for (f = 0; f < S.nf; f++) rotate_face(&S, f, rs_int("r", 0, S.fn[f] - 1));                 /* all rotations */
  else if (rot == -2) rotate_face(&S, rs_int("f", 0, S.nf - 1), rs_int("r", 0, 2));
  else if (rot > 0) for (f = 0; f < S.nf; f++) rotate_face(&S, f, (f * rot) % S.fn[f]);
  D = S;
  P.nverts = 0;
  rs_assert(make_poly(&P, &S) == 1, "construction succeeds");
  for (f = 0; f < S.nf; f++) for (i = 0; i < S.fn[f]; i++) rs_assert(S.fi[f][i] == D.fi[f][i], "description unmodified");
  rs_assert(P.nverts == sum_dup(), "a vertex with k edges becomes k-2 vertices");
  rs_assert(valid3(&P), "closed polyhedron");
  static int lab[R3D_MAX_VERTS], cnt[MAXSV];
  for (i = 0; i < S.nv; i++) cnt[i] = 0;
  for (int v = 0; v < P.nverts; v++) {
    for (i = 0; i < S.nv; i++) if (same_pt(vp(&P, v), S.v[i])) break;
    rs_assert(i < S.nv, "every vertex is one of the described ones");
    if (i == S.nv) return;
    lab[v] = i; cnt[i]++;
  }
  for (i = 0; i < S.nv; i++) rs_assert(cnt[i] == deg[i] - 2, "every described vertex appears with the right number of copies");
  poly_to_solid(&P, &U);
  same_faces(&U, lab, &S, "exactly the described faces with their orientation");
  if (good) rs_assert(r3d_is_good(&P), "accepted by the validity check");
  if (rs_param("mom", 0)) { /* simplicial: moments of the described solid */
    double m[10], r[10]; int o = rs_param("mom", 0) - 1;
    r3d_reduce(&P, m, o); solid_mom(r, &S, mk(0, 0, 0), o); eq_moms(m, r, o, "moments of the described solid");
  }
}
/* descriptions with a vertex on fewer than three faces are rejected */
void h_build_bad(void) {
  int which = rs_param("solid", 3), mode = rs_param("mode", 0), i, f, low = 0;
  get_solid(&S, which);
  for (i = 0; i < S.nv; i++) S.v[i] = mk(rs_real("x"), rs_real("y"), rs_real("z"));
  if (mode == 0) { int k = rs_int("drop", 1, S.nf); S.nf -= k; }                                   /* drop faces at the end */
  else if (mode == 1) { f = rs_int("f", 0, S.nf - 1); swap_faces(&S, f, S.nf - 1); S.nf--; }       /* drop any one face */
  else if (mode == 2) { S.nv++; S.v[S.nv - 1] = mk(1, 2, 3); }                                     /* a vertex on no face */
  else { f = rs_int("f", 0, S.nf - 1); i = rs_int("i", 0, S.fn[f] - 1); for (; i + 1 < S.fn[f]; i++) S.fi[f][i] = S.fi[f][i + 1]; S.fn[f]--; }
  sum_dup();
  for (i = 0; i < S.nv; i++) low |= deg[i] < 3;
  rs_assume(low);
  P.nverts = 7;
  int st = make_poly(&P, &S);
  rs_assert(st == 0, "rejected");
  rs_assert(P.nverts == 0 || P.nverts == 7, "empty or untouched");
}
/* ---- boundary representation ---- */
static int comp[R3D_MAX_VERTS], ncomp;
static void components(const r3d_poly *p) {
  ncomp = 0;
  for (int v = 0; v < p->nverts; v++) comp[v] = -1;
  for (int v = 0; v < p->nverts; v++) {
    if (comp[v] >= 0) continue;
    static int st[3 * R3D_MAX_VERTS]; int n = 0;
    st[n++] = v; comp[v] = ncomp;
    while (n) { int a = st[--n]; for (int k = 0; k < 3; k++) { int b = p->verts[a].pnbrs[k]; if (comp[b] < 0) { comp[b] = ncomp; st[n++] = b; } } }
    ncomp++;
  }
}
static void same_poly(const r3d_poly *a, const r3d_poly *b) {
  rs_assert(a->nverts == b->nverts, "input vertex count unmodified");
  for (int v = 0; v < b->nverts; v++) for (int k = 0; k < 3; k++) {
    rs_assert(a->verts[v].pnbrs[k] == b->verts[v].pnbrs[k], "input links unmodified");
    rs_eq(a->verts[v].pos.xyz[k], b->verts[v].pos.xyz[k], "input positions unmodified");
  }
}
/* convert P, check it against the buffer; exact: also against the described solid S (round trip) */
static void check_brep(int exact, int order) {
  r3d_brep *b = 0; r3d_int nc = -1;
  long live = rs_live_heap();
  static int hit[R3D_MAX_VERTS], of[R3D_MAX_VERTS], em[MAXSV][MAXSV];
  int c, f, i, v, tot = 0, totf = 0;
  rs_assert(P.nverts > 0 || !exact, "construction succeeds");
  Q = P;
  r3d_init_brep(&P, &b, &nc);
  same_poly(&P, &Q);
  components(&P);
  rs_assert(nc == ncomp, "one description per connected component");
  for (i = 0; i < ncomp; i++) hit[i] = 0;
  W.nv = W.nf = 0;
  for (c = 0; c < nc; c++) {
    int n = b[c].numvertices, own = -1, base = W.nv, f0 = W.nf;
    rs_assert(n > 0 && b[c].numfaces > 0, "component is not empty");
    tot += n;
    for (int o = 0; o < ncomp && own < 0; o++) { /* components may touch: look for one that has all the vertices */
      if (hit[o]) continue;
      for (i = 0; i < n; i++) {
        pt q = mk(b[c].vertices[i].x, b[c].vertices[i].y, b[c].vertices[i].z);
        for (v = 0; v < P.nverts; v++) if (comp[v] == o && (same_pt(q, vp(&P, v)) || (q.x == vp(&P, v).x && q.y == vp(&P, v).y && q.z == vp(&P, v).z))) break;
        if (v == P.nverts) break;
      }
      if (i == n) own = o;
    }
    rs_assert(own >= 0, "every vertex of a component is a vertex of one component of the polyhedron");
    if (own < 0) return;
    for (i = 0; i < n; i++) W.v[W.nv++] = mk(b[c].vertices[i].x, b[c].vertices[i].y, b[c].vertices[i].z);
    rs_assert(!hit[own], "each component is described once"); hit[own] = 1;
    int ne = 0;
    for (f = 0; f < b[c].numfaces; f++) {
      int k = b[c].numvertsperface[f];
      rs_assert(k >= 0 && k <= P.nverts, "face size in range");
      W.fn[W.nf] = k;
      for (i = 0; i < k; i++) { int x = b[c].faceinds[f][i]; rs_assert(x >= 0 && x < n, "face index in range"); W.fi[W.nf][i] = base + x; }
      if (exact) rs_assert(k >= 3, "proper faces");
      if (k > 0) W.nf++;
    }
    /* every directed edge is matched by its reverse; exact: exactly once */
    (void)ne;
    for (int t = 0; t < 3; t++) for (f = f0; f < W.nf; f++) for (i = 0; i < W.fn[f]; i++) {
      int x = W.fi[f][i] - base, y = W.fi[f][(i + 1) % W.fn[f]] - base;
      if (t == 0) em[x][y] = em[y][x] = 0;
      else if (t == 1) em[x][y]++;
      else {
        rs_assert(x != y && em[x][y] == em[y][x], "every edge is shared by two faces in opposite directions");
        if (exact) rs_assert(em[x][y] == 1, "every edge is shared by exactly two faces");
      }
    }
    /* same solid as that component of the buffer */
    double m[10], r[10];
    U.nv = W.nv; U.nf = W.nf - f0;
    for (i = 0; i < W.nv; i++) U.v[i] = W.v[i];
    for (f = f0; f < W.nf; f++) { U.fn[f - f0] = W.fn[f]; for (i = 0; i < W.fn[f]; i++) U.fi[f - f0][i] = W.fi[f][i]; }
    solid_mom(m, &U, mk(0, 0, 0), order);
    int k = 0;
    for (v = 0; v < P.nverts; v++) of[v] = comp[v] == own ? k++ : -1;
    for (v = 0; v < P.nverts; v++) if (of[v] >= 0) { Q.verts[of[v]].pos = P.verts[v].pos; for (i = 0; i < 3; i++) Q.verts[of[v]].pnbrs[i] = of[P.verts[v].pnbrs[i]]; }
    Q.nverts = k;
    own_reduce3(&Q, r, order, mk(0, 0, 0));
    eq_moms(m, r, order, "the description bounds the same solid");
    rs_assert(n <= k, "no vertex invented");
    Q = P;
  }
  if (exact) {
    static int lab[MAXSV];
    rs_assert(tot == S.nv, "coincident duplicates are merged: the described vertices come back");
    for (i = 0; i < W.nv; i++) {
      for (v = 0; v < S.nv; v++) if (same_pt(W.v[i], S.v[v])) break;
      rs_assert(v < S.nv, "vertex of the original description"); if (v == S.nv) return;
      lab[i] = v;
    }
    same_faces(&W, lab, &S, "the described faces come back with their orientation");
  }
  (void)totf;
  r3d_free_brep(&b, nc);
  rs_assert(rs_live_heap() == live, "freeing releases all memory that was allocated");
}
/* round trip of a constructed solid at any position / any coordinates */
void h_brep(void) {
  int which = rs_param("solid", 3), mask = rs_param("mask", 7), full = rs_param("full", 0);
  get_solid(&S, which);
  if (full) { double prev = 0; for (int i = 0; i < S.nv; i++) { S.v[i] = mk(rs_real("x"), rs_real("y"), rs_real("z")); if (i) rs_assume(S.v[i].x >= prev + 1); prev = S.v[i].x; } }
  else { pt t = mk((mask & 1) ? rs_real("x") : 0, (mask & 2) ? rs_real("y") : 0, (mask & 4) ? rs_real("z") : 0); for (int i = 0; i < S.nv; i++) S.v[i] = mk(S.v[i].x + t.x, S.v[i].y + t.y, S.v[i].z + t.z); }
  if (full) make_poly(&P, &S); else init_solid(&P, &S, which);
  check_brep(1, full ? 0 : 1);
}
static const int NRM[8][3] = {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 1, 1}, {-1, -1, 0}, {-3, 1, 1}, {0, 0, -1}, {2, -1, 2}};
/* what clipping leaves behind, for every offset of the planes (also through vertices) */
void h_brep_clipped(void) {
  int which = rs_param("solid", 12), k = rs_param("k", 1), first = rs_param("n0", 2);
  r3d_plane pl[4];
  get_solid(&S, which); init_solid(&P, &S, which);
  for (int i = 0; i < k; i++) { const int *q = NRM[(first + i) % 8]; pl[i].n = rv(mk(q[0], q[1], q[2])); pl[i].d = rs_real("d"); }
  rs_assert(r3d_clip(&P, pl, k) == 1, "clip succeeds");
  components(&P);
  if (ncomp >= 3) rs_reach("three components");
  check_brep(0, 1);
}
void h_brep_empty(void) { P.nverts = 0; check_brep(0, 0); }
/* positive / negative sides of a split are independent conversions */
void h_brep_split(void) {
  static r3d_poly A, B;
  int which = rs_param("solid", 12);
  const int *q = NRM[rs_param("n0", 2)];
  r3d_plane pl; pl.n = rv(mk(q[0], q[1], q[2])); pl.d = rs_real("d");
  get_solid(&S, which); init_solid(&P, &S, which);
  rs_assert(r3d_split(&P, 1, pl, &A, &B) == 1, "split succeeds");
  P = A; check_brep(0, 1);
  P = B; check_brep(0, 1);
}
