/* history: what was called before the job's own calls. Successful and failing calls of everything, on other shapes,
   orders and grids; nothing of it may show in what follows. Run first when the job has pre=1. */
#include "r2d.h"
#include "r3d.h"
#include "v2d.h"
#include "v3d.h"
#include "rNd.h"
#include "vNd.h"
#include <string.h>
static r3d_poly P3, Q3, A3[2], B3[2]; static r2d_poly P2, Q2, A2[2], B2[2]; static rNd_poly PN, QN;
static r3d_real M3[R3D_NUM_MOMENTS(5)], G3[12 * R3D_NUM_MOMENTS(2)];
static r2d_real M2[R2D_NUM_MOMENTS(6)], G2[6 * R2D_NUM_MOMENTS(2)];
static rNd_real GN[16], MN[1];
static r3d_rvec3 v3(int x, int y, int z) { r3d_rvec3 r; r.x = x; r.y = y; r.z = z; return r; }
static r2d_rvec2 v2(int x, int y) { r2d_rvec2 r; r.x = x; r.y = y; return r; }
static r3d_plane pl3(int a, int b, int c, int d) { r3d_plane r; r.n = v3(a, b, c); r.d = d; return r; }
static r2d_plane pl2(int a, int b, int d) { r2d_plane r; r.n = v2(a, b); r.d = d; return r; }
static void tets(r3d_poly *p, int k) { /* k tetrahedra side by side */
  r3d_rvec3 t[4] = {v3(0, 0, 0), v3(4, 0, 0), v3(0, 4, 0), v3(0, 0, 4)};
  r3d_init_tet(&A3[0], t);
  memset(p, 0, sizeof *p);
  for (int i = 0; i < k; i++) for (int v = 0; v < 4; v++) {
    p->verts[4 * i + v] = A3[0].verts[v];
    p->verts[4 * i + v].pos.y += 8 * i;
    for (int j = 0; j < 3; j++) p->verts[4 * i + v].pnbrs[j] += 4 * i;
  }
  p->nverts = 4 * k;
}
static void tris(r2d_poly *p, int k) {
  memset(p, 0, sizeof *p);
  for (int i = 0; i < k; i++) for (int v = 0; v < 3; v++) {
    p->verts[3 * i + v].pos = v2(v == 1 ? 4 : 0, 8 * i + (v == 2 ? 4 : 0));
    p->verts[3 * i + v].pnbrs[0] = 3 * i + (v + 1) % 3; p->verts[3 * i + v].pnbrs[1] = 3 * i + (v + 2) % 3;
  }
  p->nverts = 3 * k;
}
static void splx(rNd_poly *p, int k) {
  rNd_rvec w[RND_DIM + 1];
  memset(w, 0, sizeof w);
  for (int a = 0; a < RND_DIM; a++) w[a + 1].xyz[a] = 4;
  rNd_init_simplex(&QN, w);
  memset(p, 0, sizeof *p);
  for (int i = 0; i < k; i++) for (int v = 0; v <= RND_DIM; v++) {
    rNd_vertex *o = &p->verts[(RND_DIM + 1) * i + v];
    *o = QN.verts[v]; o->pos.xyz[1] += 8 * i;
    for (int j = 0; j < RND_DIM; j++) { o->pnbrs[j] += (RND_DIM + 1) * i; for (int l = 0; l < RND_DIM; l++) if (l != j) o->finds[j][l] += QN.nfaces * i; }
  }
  p->nverts = (RND_DIM + 1) * k; p->nfaces = QN.nfaces * k;
}
static void pre3(void) {
  int k = R3D_MAX_VERTS / 5 > 0 ? R3D_MAX_VERTS / 5 : 1, i;
  r3d_plane cut = pl3(-1, 0, 0, 1), two[2] = {pl3(-1, -1, -1, 3), pl3(1, 0, 0, -9)};
  r3d_rvec3 d = v3(2, 4, 4); r3d_dvec3 ib[2], cb[2];
  for (i = 0; i < 3; i++) { ib[0].ijk[i] = 0; ib[1].ijk[i] = i == 0 ? 2 : i == 1 ? 2 * k : 1; cb[0].ijk[i] = 0; cb[1].ijk[i] = i == 0 ? 1 : 4 * k; }
  /* running out of room half-way */
  if (k > 100) k = 100;
  tets(&P3, k); Q3 = P3; r3d_clip(&Q3, &cut, 1);
  Q3 = P3; r3d_clip(&Q3, two, 2);
  Q3 = P3; r3d_split(&Q3, 1, cut, A3, B3);
  Q3 = P3; r3d_clamp_ibox(&Q3, ib, cb, d);
  ib[1].j = 3; ib[1].i = 2;
  tets(&P3, k < 2 ? 1 : 2); Q3 = P3; memset(G3, 0, sizeof G3); r3d_voxelize(&Q3, ib, G3, d, 2);
  /* ordinary calls */
  r3d_reduce(&P3, M3, 5); r3d_reduce(&P3, M3, 0); r3d_shift_moments(M3, 3, v3(1, 2, 3)); r3d_reduce(&P3, M3, 2);
  for (i = 0; i < 2; i++) { tets(&P3, 1); P3.verts[1].pos.x += i; if (r3d_clip(&P3, &cut, 1)) { r3d_reduce(&P3, M3, 1); r3d_is_good(&P3); } }
  tets(&P3, 1); Q3 = P3; P3.verts[2].pnbrs[1] = 9; r3d_is_good(&P3);
  P3 = Q3; { r3d_brep *b = 0; r3d_int n = 0; r3d_init_brep(&P3, &b, &n); r3d_free_brep(&b, n); }
  P3 = Q3; r3d_get_ibox(&P3, ib, d); r3d_affine(&P3, (r3d_real[4][4]){{1, 2, 0, 1}, {0, 1, 0, 0}, {0, 3, 1, 0}, {0, 0, 0, 2}}); r3d_translate(&P3, d); r3d_scale(&P3, 3); r3d_shear(&P3, 2, 0, 1); r3d_rotate(&P3, 0, 1);
  { /* a description that is rejected, and an octahedron */
    static r3d_rvec3 v[6]; static r3d_int f[8][3] = {{0, 1, 2}, {1, 3, 2}, {3, 4, 2}, {4, 0, 2}, {1, 0, 5}, {3, 1, 5}, {4, 3, 5}, {0, 4, 5}}, nf[8] = {3, 3, 3, 3, 3, 3, 3, 3}, *fi[8];
    static const int c[6][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
    static r3d_plane fp[8];
    for (i = 0; i < 8; i++) fi[i] = f[i];
    for (i = 0; i < 6; i++) v[i] = v3(c[i][0], c[i][1], c[i][2]);
    r3d_init_poly(&P3, v, 4, fi, nf, 2);
    r3d_init_poly(&P3, v, 6, fi, nf, 8);
    nf[0] = 3;
  }
  { r3d_rvec3 w[2] = {v3(0, 0, 0), v3(1, 2, 3)}; r3d_plane fp[6]; r3d_box_faces_from_verts(fp, w); }
}
static void pre2(void) {
  int k = R2D_MAX_VERTS / 4 > 0 ? R2D_MAX_VERTS / 4 : 1, i;
  r2d_plane cut = pl2(-1, 0, 1), two[2] = {pl2(-1, -1, 3), pl2(1, 0, -9)};
  r2d_rvec2 d = v2(2, 4); r2d_dvec2 ib[2], cb[2];
  for (i = 0; i < 2; i++) { ib[0].ij[i] = 0; ib[1].ij[i] = i == 0 ? 2 : 2 * k; cb[0].ij[i] = 0; cb[1].ij[i] = i == 0 ? 1 : 4 * k; }
  tris(&P2, k); Q2 = P2; r2d_clip(&Q2, &cut, 1);
  Q2 = P2; r2d_clip(&Q2, two, 2);
  Q2 = P2; r2d_split(&Q2, 1, cut, A2, B2);
  Q2 = P2; r2d_clamp_ibox(&Q2, ib, cb, d);
  ib[1].j = 3;
  tris(&P2, k < 2 ? 1 : 2); Q2 = P2; memset(G2, 0, sizeof G2); r2d_rasterize(&Q2, ib, G2, d, 2);
  r2d_reduce(&P2, M2, 6); r2d_reduce(&P2, M2, 0); r2d_shift_moments(M2, 4, v2(1, 2)); r2d_reduce(&P2, M2, 1);
  for (i = 0; i < 2; i++) { tris(&P2, 1); P2.verts[1].pos.x += i; if (r2d_clip(&P2, &cut, 1)) { r2d_reduce(&P2, M2, 2); r2d_is_good(&P2); } }
  tris(&P2, 1); Q2 = P2; P2.verts[2].pnbrs[1] = 9; r2d_is_good(&P2);
  P2 = Q2; r2d_get_ibox(&P2, ib, d); r2d_affine(&P2, (r2d_real[3][3]){{1, 2, 1}, {0, 1, 0}, {0, 0, 2}}); r2d_translate(&P2, d); r2d_scale(&P2, 3); r2d_shear(&P2, 2, 0, 1); r2d_rotate(&P2, 0);
  { r2d_rvec2 w[2] = {v2(0, 0), v2(1, 2)}; r2d_plane fp[4]; r2d_box_faces_from_verts(fp, w); }
}
static void preN(void) {
  int k = RND_MAX_VERTS / (RND_DIM + 2), i;
  if (k < 1) return;
  if (k > 20) k = 20;
  rNd_plane cut, two[2]; rNd_rvec d, w[2]; rNd_dvec ib[2], cb[2];
  memset(&cut, 0, sizeof cut); cut.n.xyz[0] = -1; cut.d = 1;
  two[0] = two[1] = cut; two[1].d = -9; for (i = 0; i < RND_DIM; i++) two[0].n.xyz[i] = -1; two[0].d = 3;
  for (i = 0; i < RND_DIM; i++) { d.xyz[i] = 4; ib[0].ijk[i] = 0; ib[1].ijk[i] = i == 1 ? 2 * k : 1; cb[0].ijk[i] = 0; cb[1].ijk[i] = i == 0 ? 1 : 4 * k; }
  d.xyz[0] = 2; ib[1].ijk[0] = 2;
  splx(&PN, k); QN = PN; rNd_clip(&QN, &cut, 1);
  QN = PN; rNd_clip(&QN, two, 2);
  QN = PN; rNd_clamp_ibox(&QN, ib, cb, d);
  splx(&PN, 1); QN = PN; if (rNd_clip(&QN, &cut, 1)) rNd_get_ibox(&QN, ib, d);
  splx(&PN, 1); rNd_is_good(&PN); PN.verts[2].pnbrs[1] = 99; rNd_is_good(&PN);
  splx(&PN, 1); rNd_translate(&PN, d); rNd_scale(&PN, d); rNd_shear(&PN, 2, 0, 1); rNd_rotate(&PN, 0, 1, 0);
  if (RND_MAX_VERTS < 2 << RND_DIM || RND_DIM > 4) return;
  for (i = 0; i < RND_DIM; i++) { w[0].xyz[i] = 1; w[1].xyz[i] = 2; ib[0].ijk[i] = 0; ib[1].ijk[i] = i ? 1 : 2; d.xyz[i] = i ? 2 : 1; }
  rNd_init_box(&PN, w); memset(GN, 0, sizeof GN); rNd_reduce(&PN, MN, 0); rNd_voxelize(&PN, ib, GN, d, 0);
}
void rs_prelude(void) { pre3(); pre2(); preN(); }
