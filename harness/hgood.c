/* validity checks on buffers with arbitrary links. DIMN 2: r2d, 3: r3d, 4: rNd (RND_DIM links) */
#if DIMN == 2
#include "r2d.h"
#define K 2
#define MAXV R2D_MAX_VERTS
typedef r2d_poly poly_t; typedef r2d_int int_t;
#define is_good r2d_is_good
#elif DIMN == 3
#include "r3d.h"
#define K 3
#define MAXV R3D_MAX_VERTS
typedef r3d_poly poly_t; typedef r3d_int int_t;
#define is_good r3d_is_good
#else
#include "rNd.h"
#define K RND_DIM
#define MAXV RND_MAX_VERTS
typedef rNd_poly poly_t; typedef rNd_int int_t;
#define is_good rNd_is_good
#endif
#include "rs.h"
#define CHECK(c, m) rs_assert(c, m)
#define INT_ANY rs_sint("link", -2147483647 - 1, 2147483647)
#define MX 40
static poly_t P, C;
static int L[MX][K], NV, base;
/* base graphs, k-regular with mutual links */
static int necklace(int v, int k, int nv) { /* blocks a,b,c,d: K4 without the edge ad; d - next a: connected, but two vertices separate it */
  int g = v / 4, i = v % 4, m = nv / 4;
  if (i == 1 || i == 2) return g * 4 + (k == 0 ? 0 : k == 1 ? 3 - i : 3);
  if (k < 2) return g * 4 + 1 + k;
  return i == 3 ? (g + 1) % m * 4 : (g + m - 1) % m * 4 + 3;
}
static int ring5(int v, int k, int n) { /* blocks of K5 without the edge 0-4 in a ring: two vertices separate it */
  int g = v / 5, i = v % 5, m = n / 5;
  if (i == 0) return k < 3 ? g * 5 + 1 + k : (g + m - 1) % m * 5 + 4;
  if (i == 4) return k < 3 ? g * 5 + 1 + k : (g + 1) % m * 5;
  return g * 5 + (i + 1 + k) % 5;
}
static int other(int v, int k) {
  int n = NV, h = n / 2, b = v < h ? 0 : h;
  if (K == 2) {
    if (base == 2) { int m = v < h ? h : n - h; return b + (v - b + (k ? m - 1 : 1)) % m; } /* two loops */
    return (v + (k ? n - 1 : 1)) % n;
  }
  if (K == 3) {
    if (base == 1) return v / 4 * 4 + (v % 4 + 1 + k) % 4;                                   /* K4s */
    if (base == 2) return necklace(v, k, n);
    if (base == 3) return k == 0 ? b + (v - b + 1) % h : k == 1 ? (v < h ? v + h : v - h) : b + (v - b + h - 1) % h; /* prism */
    if (base == 4) return v < 4 ? (v + 1 + k) % 4 : 4 + necklace(v - 4, k, n - 4);           /* K4 and a necklace */
    if (base == 6) { int m = n - n / 8 * 4; if (m % 2) m++; return v < m ? (k == 0 ? v / (m / 2) * (m / 2) + (v + 1) % (m / 2) : k == 1 ? (v + m / 2) % m : v / (m / 2) * (m / 2) + (v + m / 2 - 1) % (m / 2)) : m + necklace(v - m, k, n - m); } /* prism and a necklace */
    if (base == 5) return k == 0 ? (v + 1) % n : k == 1 ? (v + h) % n : (v + n - 1) % n;     /* Moebius ladder */
    return (v + 1 + k) % n;
  }
  if (base == 1) return (v + (k == 0 ? 1 : k == 1 ? 2 : k == 2 ? n - 1 : n - 2)) % n;        /* circulant */
  if (base == 2) return v / 5 * 5 + (v % 5 + 1 + k) % 5;                                      /* K5s */
  if (base == 3) return ring5(v, k, n);
  if (base == 4) { /* two K(4,4) minus an edge each, joined by two edges */
    int g = v / 8, i = v % 8;
    if ((i == 0 || i == 4) && k == 0) return (1 - g) * 8 + i;
    return g * 8 + (i < 4 ? 4 : 0) + k;
  }
  if (base == 7) return v < 5 ? (v + 1 + k) % 5 : 5 + ring5(v - 5, k, n - 5); /* K5 and a ring */
  if (base == 5) { /* 16 vertices: tesseract */ return v ^ (1 << k); }
  if (base == 6) { /* two K(4,4) minus three disjoint edges i-(4+i), i = 0..2: joined by edges i - i of the copy: three vertices separate */
    int g = v / 8, i = v % 8;
    if (i % 4 < 3 && k == i % 4) return (1 - g) * 8 + i % 4 + (i < 4 ? 0 : 4);
    return g * 8 + (i < 4 ? 4 : 0) + k;
  }
  return (v + 1 + k) % n;
}
typedef unsigned long long set;
/* a graph that few sets of K-1 vertices separate: sides A and B joined only through K-1 vertices (K = 3: also by one of their
   neighbours). Vertices 0..SEP-1 are the separating ones; their labels in the buffer are symbolic. */
#if DIMN != 2
#define SEP (K == 3 ? 4 : K - 1)
#define NCUT (K == 3 ? 10 : K == 4 ? 13 : 16)
static int deg[MX];
static void edge(int a, int b) { L[a][deg[a]++] = b; L[b][deg[b]++] = a; }
static void complete(int at, int n, const int (*no)[2], int m) {
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) {
    int skip = 0;
    for (int i = 0; i < m; i++) skip |= (no[i][0] == a && no[i][1] == b) || (no[i][0] == b && no[i][1] == a);
    if (!skip) edge(at + a, at + b);
  }
}
static void cut_graph(void) {
  int i, j;
  for (i = 0; i < NCUT; i++) deg[i] = 0;
  if (K == 3) { /* 0, 1: two edges to A = 4..7, one to 2, 3 of B = {2, 3, 8, 9} */
    static const int a[2][2] = {{0, 1}, {2, 3}};
    complete(4, 4, a, 2);
    for (i = 0; i < 2; i++) { edge(i, 4 + 2 * i); edge(i, 5 + 2 * i); edge(i, 2 + i); edge(2 + i, 8); edge(2 + i, 9); }
    edge(8, 9);
  } else if (K == 4) { /* A = 3..7, B = 8..12 */
    static const int a[3][2] = {{0, 1}, {1, 2}, {3, 4}}, to[3][2] = {{0, 1}, {1, 2}, {3, 4}};
    for (j = 3; j <= 8; j += 5) { complete(j, 5, a, 3); for (i = 0; i < 3; i++) { edge(i, j + to[i][0]); edge(i, j + to[i][1]); } }
  } else { /* A = 4..9, B = 10..15 */
    static const int a[4][2] = {{0, 1}, {1, 2}, {2, 3}, {4, 5}}, b[6][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 0}}, ta[4][2] = {{0, 1}, {1, 2}, {2, 3}, {4, 5}}, tb[4][3] = {{0, 1, 2}, {3, 4, 5}, {0, 2, 4}, {1, 3, 5}};
    complete(4, 6, a, 4); complete(10, 6, b, 6);
    for (i = 0; i < 4; i++) { for (j = 0; j < 2; j++) edge(i, 4 + ta[i][j]); for (j = 0; j < 3; j++) edge(i, 10 + tb[i][j]); }
  }
  static int at[MX], R[MX][K];
  int lo = rs_param("lo", 0), hi = rs_param("hi", NCUT - 1), n = SEP;
  for (i = 0; i < SEP; i++) { at[i] = rs_int("label", lo, hi); if (i) rs_assume(at[i] > at[i - 1]); }
  for (i = 0; i < NCUT; i++) { int used = 0; for (j = 0; j < SEP; j++) used |= at[j] == i; if (!used) at[n++] = i; }
  for (i = 0; i < NCUT; i++) for (j = 0; j < K; j++) R[at[i]][j] = at[L[i][j]];
  for (i = 0; i < NCUT; i++) for (j = 0; j < K; j++) L[i][j] = R[i][j];
  for (i = NCUT; i < NV; i++) for (j = 0; j < K; j++) L[i][j] = NCUT + (i - NCUT) / (K + 1) * (K + 1) + ((i - NCUT) % (K + 1) + 1 + j) % (K + 1);
}
#endif
static int reach_all(set comp, set removed) {
  set want = comp & ~removed, seen = want & -want, old = 0;
  while (seen != old) { old = seen; for (int v = 0; v < NV; v++) if (old >> v & 1) for (int k = 0; k < K; k++) seen |= want & (set)1 << L[v][k]; }
  return seen == want;
}
void h_good(void) {
  int v, k, n, a, b, c = 0;
  NV = rs_param("nv", MAXV); base = rs_param("base", 0);
  int from = rs_param("from", 0), nfree = rs_param("free", 99), stride = rs_param("stride", 1), sym = rs_param("sym", 1);
  a = rs_param("swap", 0) ? rs_sint("a", 0, NV - 1) : 0; b = rs_param("swap", 0) ? rs_sint("b", 0, NV - 1) : 0;
  n = rs_param("symn", 0) ? rs_sint("n", 0, NV) : NV;
  for (v = 0; v < NV; v++) for (k = 0; k < K; k++) { int w = other(v, k); L[v][k] = w == a ? b : w == b ? a : w; }
  for (k = 0; k < K; k++) { int t = L[a][k]; L[a][k] = L[b][k]; L[b][k] = t; }
#if DIMN != 2
  if (base == 20) cut_graph();
#endif
  int mul = rs_param("mul", 0); /* relabel: interleaves the components */
  if (mul) {
    static int R[MX][K];
    for (v = 0; v < NV; v++) for (k = 0; k < K; k++) R[(v * mul + 1) % NV][k] = (L[v][k] * mul + 1) % NV;
    for (v = 0; v < NV; v++) for (k = 0; k < K; k++) L[v][k] = R[v][k];
  }
  for (v = NV - 1; v >= 0; v--) for (k = K - 1; k >= 0; k--) { int d = c - from; if (d >= 0 && d % stride == 0 && d / stride < nfree) L[v][k] = INT_ANY; c++; }
  P.nverts = n;
  for (v = 0; v < NV; v++) for (k = 0; k < K; k++) P.verts[v].pnbrs[k] = L[v][k];
  for (v = 0; v < MAXV; v++) for (k = 0; k < K; k++) { if (v >= NV) P.verts[v].pnbrs[k] = rs_param("junk", 0); C.verts[v].pnbrs[k] = P.verts[v].pnbrs[k]; }
  int r = is_good(&P);
  CHECK(P.nverts == n, "buffer unmodified");
  for (v = 0; v < MAXV; v++) for (k = 0; k < K; k++) CHECK(P.verts[v].pnbrs[k] == C.verts[v].pnbrs[k], "buffer unmodified");
  CHECK(r == 0 || r == 1, "verdict is 0 or 1");
  static int cnt[MX];
  for (v = 0; v < NV; v++) cnt[v] = 0;
  int bad = 0;
  for (v = 0; v < n; v++) for (k = 0; k < K; k++) {
    int w = L[v][k];
    bad |= (w < 0) | (w >= n) | (w == v);
    for (int q = 0; q < k; q++) bad |= L[v][q] == w;
  }
  if (bad) { CHECK(r == 0, "a link that is out of range, repeated or to itself is rejected"); rs_reach("invalid link"); return; }
  for (v = 0; v < n; v++) for (k = 0; k < K; k++) cnt[L[v][k]]++;
  for (v = 0; v < n; v++) if (cnt[v] != K) { CHECK(r == 0, "a vertex pointed to too often or too rarely is rejected"); rs_reach("wrong count"); return; }
  (void)sym;
#if DIMN == 2
  CHECK(r == 1, "valid links are accepted"); rs_reach("accepted");
#else
  for (v = 0; v < n; v++) for (k = 0; k < K; k++) { int m = 0; for (int q = 0; q < K; q++) m |= L[L[v][k]][q] == v; if (!m) { rs_reach("one-way links"); return; } }
  int conn = 1;
  static set comp[MX];
  for (v = 0; v < n; v++) {
    set s = (set)1 << v, old = 0;
    while (s != old) { old = s; for (int w = 0; w < n; w++) if (old >> w & 1) for (k = 0; k < K; k++) s |= (set)1 << L[w][k]; }
    comp[v] = s;
  }
  /* every component must stay connected when any K-1 of its vertices are removed */
  for (int x = 0; x < n && conn; x++) for (int y = x + 1; y < n && conn; y++) {
    if (!(comp[x] >> y & 1)) continue;
    if (K == 2) continue;
    if (K == 3) conn &= reach_all(comp[x], (set)1 << x | (set)1 << y);
    else for (int z = y + 1; z < n; z++) if (comp[x] >> z & 1) {
      if (K == 4) conn &= reach_all(comp[x], (set)1 << x | (set)1 << y | (set)1 << z);
      else for (int u = z + 1; u < n; u++) if (comp[x] >> u & 1) conn &= reach_all(comp[x], (set)1 << x | (set)1 << y | (set)1 << z | (set)1 << u);
    }
  }
  if (conn) rs_reach("accepted"); else rs_reach("not sufficiently connected");
  CHECK(r == conn, "accepted exactly when every component stays connected after removing any fewer than the dimension's number of vertices");
#endif
}
