From a0d80bbbcbf549ce057b97910e678c47dfa72e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 01/28] fix: r2d_rotate stored the rotated y coordinate in x

---
 src/r2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 63936f8..37e35e9 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -426,7 +426,7 @@ void r2d_rotate(r2d_poly* poly, r2d_real theta) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		poly->verts[v].pos.x = cosine*tmp.x - sine*tmp.y; 
-		poly->verts[v].pos.x = sine*tmp.x + cosine*tmp.y; 
+		poly->verts[v].pos.y = sine*tmp.x + cosine*tmp.y; 
 	}
 }
 
-- 
2.43.0


From 2353bfc14322aa8513707a8756375eff213f41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 02/28] fix: r2d_split put the positive side into out_neg and
 vice versa

---
 src/r2d.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/r2d.c b/src/r2d.c
index 37e35e9..697b488 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -151,7 +151,6 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 		memset(&side, 0, sizeof(side));
 		for(v = 0; v < *nverts; ++v) {
 			sdists[v] = plane.d + dot(vertbuffer[v].pos, plane.n);
-			sdists[v] *= -1;
 			if(sdists[v] < 0.0) {
 				side[v] = 1;
 				nright++;
-- 
2.43.0


From 4f20cd3d1eb1dd8447099f605407157f417d7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 03/28] fix: r2d_box_faces_from_verts had the wrong sign on the
 lower bounds

---
 src/r2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 697b488..55d6301 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -516,8 +516,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 
 void r2d_box_faces_from_verts(r2d_plane* faces, r2d_rvec2* rbounds) {
-	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = rbounds[0].y; 
-	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = rbounds[0].x; 
+	faces[0].n.x = 0.0; faces[0].n.y = 1.0; faces[0].d = -rbounds[0].y; 
+	faces[1].n.x = 1.0; faces[1].n.y = 0.0; faces[1].d = -rbounds[0].x; 
 	faces[2].n.x = 0.0; faces[2].n.y = -1.0; faces[2].d = rbounds[1].y; 
 	faces[3].n.x = -1.0; faces[3].n.y = 0.0; faces[3].d = rbounds[1].x; 
 }
-- 
2.43.0


From f806cbff434904bf6eef5f4ff0e09151b3741642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 04/28] fix: rNd_affine kept only the last column product and
 dropped the constant term of w

---
 src/rNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index e16c071..b993a57 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -488,13 +488,13 @@ void rNd_affine(rNd_poly* poly, rNd_real mat[RND_DIM+1][RND_DIM+1]) {
 	for(v = 0; v < poly->nverts; ++v) {
 		tmp = poly->verts[v].pos;
 		// affine transformation
-		for(i = 0; i < RND_DIM; ++i)
-		for(j = 0; j < RND_DIM; ++j)
-			poly->verts[v].pos.xyz[i] = tmp.xyz[j]*mat[i][j];
-		for(i = 0; i < RND_DIM; ++i)
-			poly->verts[v].pos.xyz[i] += mat[i][RND_DIM];
+		for(i = 0; i < RND_DIM; ++i) {
+			poly->verts[v].pos.xyz[i] = mat[i][RND_DIM];
+			for(j = 0; j < RND_DIM; ++j)
+				poly->verts[v].pos.xyz[i] += tmp.xyz[j]*mat[i][j];
+		}
 		// homogeneous divide if w != 1, i.e. in a perspective projection
-		w = 0.0;
+		w = mat[RND_DIM][RND_DIM];
 		for(j = 0; j < RND_DIM; ++j)
 			w += tmp.xyz[j]*mat[RND_DIM][j];
 		for(i = 0; i < RND_DIM; ++i)
-- 
2.43.0


From 171df98a26d3b27ee0359fecdb4d0fba1d3dca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 05/28] fix: rNd_clamp_ibox overran its plane buffer when
 clamping in every dimension

---
 src/vNd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vNd.c b/src/vNd.c
index 1f8e572..39693f9 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -266,7 +266,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 
 void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
-	rNd_plane boxfaces[6];
+	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
 	memset(boxfaces, 0, sizeof(boxfaces));
 	for(i = 0; i < RND_DIM; ++i) {
-- 
2.43.0


From 82eedf7a6d8eac4327ef26d7ca65f54516c6d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 06/28] fix: the flood fills of r3d_is_good and rNd_is_good
 overran their stacks

---
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index bb4abfd..9cb0460 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -479,7 +479,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 	r3d_int nvstack;
 	r3d_int va, vb, vc;
 	r3d_int vct[R3D_MAX_VERTS];
-	r3d_int stack[R3D_MAX_VERTS];
+	r3d_int stack[3 * R3D_MAX_VERTS + 1]; // every vertex can push its three neighbors
 	r3d_int regions[R3D_MAX_VERTS];
 
 	// direct access to vertex buffer
diff --git a/src/rNd.c b/src/rNd.c
index b993a57..dd931c3 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -321,7 +321,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 	rNd_int v, vc, np, npp, rcur, insubset;
 	rNd_int nvstack;
 	rNd_int vct[RND_MAX_VERTS];
-	rNd_int stack[RND_MAX_VERTS];
+	rNd_int stack[RND_DIM*RND_MAX_VERTS+1]; // every vertex can push all of its neighbors
 	rNd_int regions[RND_MAX_VERTS];
 	rNd_int subset[RND_DIM-1];
 
-- 
2.43.0


From 57c93471f5f8a5c719fdfaadb404e63402e56811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 07/28] fix: the validity checks indexed out of bounds on
 negative neighbor indices

---
 src/r2d.c | 4 ++--
 src/r3d.c | 2 +-
 src/rNd.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 55d6301..75efc99 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -403,8 +403,8 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
-		if(vertbuffer[v].pnbrs[0] >= *nverts) return 0;
-		if(vertbuffer[v].pnbrs[1] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
+		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
 
 		vct[vertbuffer[v].pnbrs[0]]++;
 		vct[vertbuffer[v].pnbrs[1]]++;
diff --git a/src/r3d.c b/src/r3d.c
index 9cb0460..d9210c7 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -496,7 +496,7 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 				printf("Double edge.\n");
 				return 0;
 			}
-			if (vertbuffer[v].pnbrs[np] >= *nverts) {
+			if (vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
diff --git a/src/rNd.c b/src/rNd.c
index dd931c3..b096297 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -342,7 +342,7 @@ rNd_int rNd_is_good(rNd_poly* poly) {
 				return 0;
 			}
 			// return if any edges are obviously invalid
-			if(vertbuffer[v].pnbrs[np] >= *nverts) {
+			if(vertbuffer[v].pnbrs[np] < 0 || vertbuffer[v].pnbrs[np] >= *nverts) {
 				printf("Bad pointer.\n");
 				return 0;
 			}
-- 
2.43.0


From f956de86084783f907c8ae5b27c681668a691318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 08/28] fix: r2d_is_good and r3d_is_good accepted vertices that
 point to themselves

---
 src/r2d.c | 1 +
 src/r3d.c | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/r2d.c b/src/r2d.c
index 75efc99..5147f52 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -402,6 +402,7 @@ r2d_int r2d_is_good(r2d_poly* poly) {
 
 		// return false if vertices share an edge with themselves 
 		// or if any edges are obviously invalid
+		if(vertbuffer[v].pnbrs[0] == v || vertbuffer[v].pnbrs[1] == v) return 0;
 		if(vertbuffer[v].pnbrs[0] == vertbuffer[v].pnbrs[1]) return 0;
 		if(vertbuffer[v].pnbrs[0] < 0 || vertbuffer[v].pnbrs[0] >= *nverts) return 0;
 		if(vertbuffer[v].pnbrs[1] < 0 || vertbuffer[v].pnbrs[1] >= *nverts) return 0;
diff --git a/src/r3d.c b/src/r3d.c
index d9210c7..bcaf4f4 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -492,6 +492,10 @@ r3d_int r3d_is_good(r3d_poly *poly) {
 		// return false if two vertices are connected by more than one edge or if
 		// any edges are obviously invalid
 		for (np = 0; np < 3; ++np) {
+			if (vertbuffer[v].pnbrs[np] == v) {
+				printf("Self-pointing vertex.\n");
+				return 0;
+			}
 			if (vertbuffer[v].pnbrs[np] == vertbuffer[v].pnbrs[(np + 1) % 3]) {
 				printf("Double edge.\n");
 				return 0;
-- 
2.43.0


From a214b0d881985527e6baa76ae076f119a9e15882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 09/28] fix: r3d_init_brep read past its edge marks for a full
 vertex buffer

---
 src/r3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3d.c b/src/r3d.c
index bcaf4f4..756f840 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1205,7 +1205,7 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 			vstart = nv;
 
 			// find an unwalked edge starting at the this vertex
-			for (np = 0; np < 3; np++) {
+			for (np = 0; np < 3 && nv < nverts; np++) {
 				if (edge_marked[nv][np] == 0) {
 					break;
 				}
-- 
2.43.0


From 230c5618b09b6cc33b182d2cc74de4dba5cad1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 10/28] fix: r3d_init_brep walked uninitialized vertices of an
 empty polyhedron

---
 src/r3d.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/r3d.c b/src/r3d.c
index 756f840..3ef2f03 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1070,6 +1070,13 @@ void r3d_init_brep(r3d_poly *poly, r3d_brep **brep, r3d_int *numcomponents) {
 	r3d_int nc = 0, ncmax = 0, i, np, nv, nf, vstart, vcur, vnext, pedge, nvkept,
             numvertsincomponent, j;
 
+	// an empty polyhedron has no components
+	if (nverts <= 0) {
+		*numcomponents = 0;
+		*brep = NULL;
+		return;
+	}
+
 	// make the mapping of equivalent vertex indices
 	r3d_int vertex_map[nverts];
 	vertex_map[0] = 0;
-- 
2.43.0


From f37b7befaaa3f7b282726e1e32dea947ca3afad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 11/28] fix: r3d_init_poly left a partial vertex count behind
 when it ran out of space

---
 src/r3d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3d.c b/src/r3d.c
index 3ef2f03..ee773b0 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -817,6 +817,7 @@ int r3d_init_poly(r3d_poly *poly, r3d_rvec3 *vertices, r3d_int numverts,
 #if !defined(NDEBUG)
                           fprintf(stderr, "r3d_init_poly: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
 #endif
+                          *nverts = 0;
                           return 0;
                         }
         
-- 
2.43.0


From 185b2ae953e1f3447407a88941578dd914c7d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:37 +0000
Subject: [PATCH 12/28] fix: r3d_poly_faces_from_verts could flip the normals
 of nonconvex faces

---
 src/r3d.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/r3d.c b/src/r3d.c
index ee773b0..02fe215 100644
--- a/src/r3d.c
+++ b/src/r3d.c
@@ -1006,10 +1006,11 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 		faces[f].n.z = 0.0;
 
 		for (v = 0; v < numvertsperface[f]; ++v) {
-			// add cross product of edges to the total normal
-			p0 = vertices[faceinds[f][v]];
-			p1 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
-			p2 = vertices[faceinds[f][(v + 2) % numvertsperface[f]]];
+			// add cross product of edges to the total normal, using triangles that
+			// share the first vertex so that nonconvex faces keep their orientation
+			p0 = vertices[faceinds[f][0]];
+			p1 = vertices[faceinds[f][v]];
+			p2 = vertices[faceinds[f][(v + 1) % numvertsperface[f]]];
 			faces[f].n.x +=
 					(p1.y - p0.y) * (p2.z - p0.z) - (p1.z - p0.z) * (p2.y - p0.y);
 			faces[f].n.y +=
@@ -1018,9 +1019,9 @@ void r3d_poly_faces_from_verts(r3d_plane *faces, r3d_rvec3 *vertices,
 					(p1.x - p0.x) * (p2.y - p0.y) - (p1.y - p0.y) * (p2.x - p0.x);
 
 			// add the vertex position to the centroid
-			centroid.x += p0.x;
-			centroid.y += p0.y;
-			centroid.z += p0.z;
+			centroid.x += p1.x;
+			centroid.y += p1.y;
+			centroid.z += p1.z;
 		}
 
 		// normalize the normals and set the signed distance to origin
-- 
2.43.0


From 12494b924dfbe6a01d20420acd1c7485c3af96a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 13/28] fix: r2d_clip overran the vertex buffer of a polygon
 near its capacity

---
 src/r2d.c | 14 +++++++++++---
 src/r2d.h |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 5147f52..7a96aaf 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -37,7 +37,7 @@
 }
 
 
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 
 	// variable declarations
 	r2d_int v, p, np, onv, vstart, vcur, vnext, numunclipped; 
@@ -45,7 +45,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 0;
 
 	// signed distances to the clipping plane
 	r2d_real sdists[R2D_MAX_VERTS];
@@ -73,7 +73,7 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -82,6 +82,12 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			for(np = 0; np < 2; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_clip: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[1-np] = vcur;
 				vertbuffer[*nverts].pnbrs[np] = -1;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
@@ -119,6 +125,8 @@ void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 			vertbuffer[v].pnbrs[1] = clipped[vertbuffer[v].pnbrs[1]];
 		}	
 	}
+
+	return 1;
 }
 
 void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
diff --git a/src/r2d.h b/src/r2d.h
index 5fc57d4..dbc65dd 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -111,8 +111,9 @@ typedef struct {
  * \param[in] nplanes 
  * The number of planes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
+int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
 
 /**
  * \brief Splits a list of polygons across a single plane.  
-- 
2.43.0


From 37cdb91e808ff055dcc30562897b8ded1bac0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 14/28] fix: r2d_split overran the vertex buffer of a polygon
 near its capacity

---
 src/r2d.c | 16 +++++++++++++++-
 src/r2d.h |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 7a96aaf..9828007 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -129,7 +129,7 @@ int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes) {
 	return 1;
 }
 
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg) {
 
 	// direct access to vertex buffer
 	r2d_int* nverts;
@@ -187,11 +187,23 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 				wav(vertbuffer[vcur].pos, -sdists[vnext],
 					vertbuffer[vnext].pos, sdists[vcur],
 					newpos);
+				if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_split: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pos = newpos;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
 				vertbuffer[*nverts].pnbrs[np] = -1;
 				vertbuffer[*nverts].pnbrs[1-np] = vcur;
 				(*nverts)++;
+				if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "r2d_split: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+					return 0;
+				}
 				side[*nverts] = 1;
 				vertbuffer[*nverts].pos = newpos;
 				vertbuffer[*nverts].pnbrs[1-np] = -1;
@@ -231,6 +243,8 @@ void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out
 			for(np = 0; np < 2; ++np)
 				outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 void r2d_reduce(r2d_poly* poly, r2d_real* moments, r2d_int polyorder) {
diff --git a/src/r2d.h b/src/r2d.h
index dbc65dd..493c2d7 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -137,8 +137,9 @@ int r2d_clip(r2d_poly* poly, r2d_plane* planes, r2d_int nplanes);
  * The output array of fragments on the negitive side of the clip plane. Must be at least npolys
  * long. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
  */
-void r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
+int r2d_split(r2d_poly* inpolys, r2d_int npolys, r2d_plane plane, r2d_poly* out_pos, r2d_poly* out_neg);
 
 /**
  * \brief Integrate a polynomial density over a polygon using simplicial decomposition.
-- 
2.43.0


From 3c7185da1f2ba40cccff8efb67ca8d02a915847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 15/28] fix: r2d_init_poly overran the vertex buffer for too
 many vertices

---
 src/r2d.c | 12 +++++++++++-
 src/r2d.h |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/r2d.c b/src/r2d.c
index 9828007..abf24b0 100644
--- a/src/r2d.c
+++ b/src/r2d.c
@@ -521,12 +521,20 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 }
 
 
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
 
+	if(numverts > R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+		fprintf(stderr, "r2d_init_poly: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+		*nverts = 0;
+		return 0;
+	}
+
 	// init the poly
 	*nverts = numverts;
 	r2d_int v;
@@ -535,6 +543,8 @@ void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts) {
 		vertbuffer[v].pnbrs[0] = (v+1)%(*nverts);
 		vertbuffer[v].pnbrs[1] = (*nverts+v-1)%(*nverts);
 	}
+
+	return 1;
 }
 
 
diff --git a/src/r2d.h b/src/r2d.h
index 493c2d7..1c2efe6 100644
--- a/src/r2d.h
+++ b/src/r2d.h
@@ -316,8 +316,10 @@ void r2d_init_box(r2d_poly* poly, r2d_rvec2* rbounds);
  * \param [in] numverts
  * Number of vertices in the input polygon. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
+int r2d_init_poly(r2d_poly* poly, r2d_rvec2* vertices, r2d_int numverts);
 
 /**
  * \brief Get four faces (unit normals and distances to the origin)
-- 
2.43.0


From f057eb190b3704b97fe7cd9d50de30e74c589b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 16/28] fix: r2d_rasterize overran its vertex buffers for
 shapes near the capacity

---
 src/v2d.c | 34 ++++++++++++++++++++++++++--------
 src/v2d.h |  4 +++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index 9d98ca5..1192a46 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -53,9 +54,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax);
 
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder) {
 
 	r2d_int i, m, spax, dmax, nstack, siz;
 	r2d_int nmom = R2D_NUM_MOMENTS(polyorder);
@@ -66,7 +67,7 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 	// return if any parameters are bad 
 	for(i = 0; i < 2; ++i) gridsz.ij[i] = ibox[1].ij[i]-ibox[0].ij[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -113,7 +114,8 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax);
+		if(!r2d_split_coord(&stack[nstack].poly, children, d.xy[spax]*(stack[nstack].ibox[0].ij[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r2d_dvec2));
 		//stack[nstack].ibox[0].ij[spax] += dmax/2;
 		//stack[nstack+1].ibox[1].ij[spax] -= dmax-dmax/2; 
@@ -123,12 +125,14 @@ void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_r
 
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
+int r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r2d_int* nverts = &inpoly->nverts;
 	r2d_vertex* vertbuffer = inpoly->verts; 
 	r2d_int v, np, onv, vcur, vnext, vstart, nright, cside;
@@ -151,12 +155,12 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -169,11 +173,23 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
+			if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r2d_split_coord: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			vertbuffer[*nverts].pos = newpos;
 			vertbuffer[vcur].pnbrs[np] = *nverts;
 			vertbuffer[*nverts].pnbrs[np] = -1;
 			vertbuffer[*nverts].pnbrs[1-np] = vcur;
 			(*nverts)++;
+			if(*nverts == R2D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r2d_split_coord: Max vertex buffer size exceeded; Increase R2D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			side[*nverts] = 1;
 			vertbuffer[*nverts].pos = newpos;
 			vertbuffer[*nverts].pnbrs[1-np] = -1;
@@ -212,6 +228,8 @@ void r2d_split_coord(r2d_poly* inpoly, r2d_poly** outpolys, r2d_real coord, r2d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 2; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
diff --git a/src/v2d.h b/src/v2d.h
index 3eb036c..d3dbdd2 100644
--- a/src/v2d.h
+++ b/src/v2d.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to rasterize. 
  * 0 for constant (1 moment), 1 for linear (3 moments), 2 for quadratic (6 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
+int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rvec2 d, r2d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing,
-- 
2.43.0


From 92e6f5434bf03d4f2cbfd57e8978007327901456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 17/28] fix: r3d_voxelize overran its vertex buffers for shapes
 near the capacity

---
 src/v3d.c | 34 ++++++++++++++++++++++++++--------
 src/v3d.h |  4 +++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/v3d.c b/src/v3d.c
index 7e6bcb1..1e8ebda 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -46,6 +46,7 @@
 #include <string.h>
 #include <math.h>
 #include <stdint.h>
+#include <stdio.h>
 
 #define wav(va, wa, vb, wb, vr) {			\
 	vr.x = (wa*va.x + wb*vb.x)/(wa + wb);	\
@@ -54,9 +55,9 @@
 }
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax);
 
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder) {
 
 	r3d_int i, m, spax, dmax, nstack, siz;
 	r3d_int nmom = R3D_NUM_MOMENTS(polyorder);
@@ -67,7 +68,7 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 	// return if any parameters are bad 
 	for(i = 0; i < 3; ++i) gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
 	if(!poly || poly->nverts <= 0 || !dest_grid || 
-			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return;
+			gridsz.i <= 0 || gridsz.j <= 0 || gridsz.k <= 0) return 1;
 	
 	// explicit stack-based implementation
 	// stack size should never overflow in this implementation, 
@@ -115,18 +116,21 @@ void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rv
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!r3d_split_coord(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(r3d_dvec3));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
+int r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_int ax) {
 
 	// direct access to vertex buffer
-	if(inpoly->nverts <= 0) return;
+	if(inpoly->nverts <= 0) return 1;
 	r3d_int* nverts = &inpoly->nverts;
 	r3d_vertex* vertbuffer = inpoly->verts; 
 	r3d_int v, np, npnxt, onv, vcur, vnext, vstart, pnext, nright, cside;
@@ -149,12 +153,12 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	if(nright == 0) {
 		*(outpolys[0]) = *inpoly;
 		outpolys[1]->nverts = 0;
-		return;
+		return 1;
 	}
 	if(nright == *nverts) {
 		*(outpolys[1]) = *inpoly;
 		outpolys[0]->nverts = 0;
-		return;
+		return 1;
 	}
 
 	// check all edges and insert new vertices on the bisected edges 
@@ -167,10 +171,22 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 			wav(vertbuffer[vcur].pos, -sdists[vnext],
 				vertbuffer[vnext].pos, sdists[vcur],
 				newpos);
+			if(*nverts == R3D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r3d_split_coord: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			vertbuffer[*nverts].pos = newpos;
 			vertbuffer[*nverts].pnbrs[0] = vcur;
 			vertbuffer[vcur].pnbrs[np] = *nverts;
 			(*nverts)++;
+			if(*nverts == R3D_MAX_VERTS) {
+#if !defined(NDEBUG)
+				fprintf(stderr, "r3d_split_coord: Max vertex buffer size exceeded; Increase R3D_MAX_VERTS");
+#endif
+				return 0;
+			}
 			vertbuffer[*nverts].pos = newpos;
 			side[*nverts] = 1;
 			vertbuffer[*nverts].pnbrs[0] = vnext;
@@ -213,6 +229,8 @@ void r3d_split_coord(r3d_poly* inpoly, r3d_poly** outpolys, r3d_real coord, r3d_
 	for(v = 0; v < outpolys[1]->nverts; ++v) 
 		for(np = 0; np < 3; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
+
+	return 1;
 }
 
 void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
diff --git a/src/v3d.h b/src/v3d.h
index 5dc8a1e..a4f1c6e 100644
--- a/src/v3d.h
+++ b/src/v3d.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
+int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rvec3 d, r3d_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
-- 
2.43.0


From fc21f1359e12661f42213e5d91b492d874ab13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:24 +0000
Subject: [PATCH 18/28] fix: rNd_clip overran the vertex buffer of a polytope
 near its capacity

---
 src/rNd.c | 14 +++++++++++---
 src/rNd.h |  4 +++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rNd.c b/src/rNd.c
index b096297..5fd5604 100644
--- a/src/rNd.c
+++ b/src/rNd.c
@@ -23,13 +23,13 @@
 #include <stdio.h>
 
 
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 
 	// direct access to vertex buffer
 	rNd_vertex* vertbuffer = poly->verts; 
 	rNd_int* nverts = &poly->nverts; 
 	rNd_int* nfaces = &poly->nfaces; 
-	if(*nverts <= 0) return;
+	if(*nverts <= 0) return 0;
 
 	// variable declarations
 	rNd_int i, v, p, np, np0, np1, onv, vcur, fcur, vprev, vnext, vstart, 
@@ -63,7 +63,7 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 		if(smin >= 0.0) continue;
 		if(smax <= 0.0) {
 			*nverts = 0;
-			return;
+			return 1;
 		}
 
 		// check all edges and insert new vertices on the bisected edges 
@@ -73,6 +73,12 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np) {
 				vnext = vertbuffer[vcur].pnbrs[np];
 				if(!clipped[vnext]) continue;
+				if(*nverts == RND_MAX_VERTS) {
+#if !defined(NDEBUG)
+					fprintf(stderr, "rNd_clip: Max vertex buffer size exceeded; Increase RND_MAX_VERTS");
+#endif
+					return 0;
+				}
 				vertbuffer[*nverts].pnbrs[0] = vcur;
 				vertbuffer[vcur].pnbrs[np] = *nverts;
 				for(i = 0; i < RND_DIM; ++i) // weighted average of vertex positions
@@ -168,6 +174,8 @@ void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes) {
 			for(np = 0; np < RND_DIM; ++np)
 				vertbuffer[v].pnbrs[np] = clipped[vertbuffer[v].pnbrs[np]];
 	}
+
+	return 1;
 }
 
 
diff --git a/src/rNd.h b/src/rNd.h
index 620839c..fdd2173 100644
--- a/src/rNd.h
+++ b/src/rNd.h
@@ -110,8 +110,10 @@ typedef struct {
  * \param[in] nplanes 
  * The number of hyperplanes in the input array. 
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
+int rNd_clip(rNd_poly* poly, rNd_plane* planes, rNd_int nplanes);
 
 /**
  * \brief Integrate a polynomial density over a polytope. Still under development.
-- 
2.43.0


From 4f33829ed74ea7b267b70d0c8fa32395881beb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:56 +0000
Subject: [PATCH 19/28] fix: rNd_voxelize went on with half-linked polytopes
 after running out of vertices

---
 src/vNd.c | 21 +++++++++++++--------
 src/vNd.h |  4 +++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/vNd.c b/src/vNd.c
index 39693f9..fbe5274 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -48,9 +48,9 @@
 #include <stdint.h>
 
 // TODO: make this a generic "split" routine that just takes a plane.
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax);
 
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
 	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
 	rNd_long gind;
@@ -59,10 +59,10 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 
 	// return if any parameters are bad 
 	// calculate grid size 
-	if(!poly || poly->nverts <= 0 || !dest_grid) return;
+	if(!poly || poly->nverts <= 0 || !dest_grid) return 1;
 	for(i = 0; i < RND_DIM; ++i) {
 		gridsz.ijk[i] = ibox[1].ijk[i]-ibox[0].ijk[i];	
-		if(gridsz.ijk[i] <= 0) return; 
+		if(gridsz.ijk[i] <= 0) return 1; 
 	}
 
 	// get the number of grid cells
@@ -129,15 +129,18 @@ void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rve
 		// split the poly and push children to the stack
 		children[0] = &stack[nstack].poly;
 		children[1] = &stack[nstack+1].poly;
-		rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax);
+		if(!rNd_split(&stack[nstack].poly, children, d.xyz[spax]*(stack[nstack].ibox[0].ijk[spax]+dmax/2), spax))
+			return 0;
 		memcpy(stack[nstack+1].ibox, stack[nstack].ibox, 2*sizeof(rNd_dvec));
 		stack[nstack].ibox[1].ijk[spax] -= dmax-dmax/2; 
 		stack[nstack+1].ibox[0].ijk[spax] += dmax/2;
 		nstack += 2;
 	}
+
+	return 1;
 }
 
-void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
+int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax) {
 
 	// naive split for now
 	*outpolys[0] = *inpoly;
@@ -146,10 +149,10 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 	memset(&splane, 0, sizeof(splane));
 	splane.n.xyz[ax] = -1.0;
 	splane.d = coord;
-	rNd_clip(outpolys[0], &splane, 1);
+	if(!rNd_clip(outpolys[0], &splane, 1)) return 0;
 	splane.n.xyz[ax] *= -1; 
 	splane.d *= -1;
-	rNd_clip(outpolys[1], &splane, 1);
+	if(!rNd_clip(outpolys[1], &splane, 1)) return 0;
 
 #if 0
 
@@ -243,6 +246,8 @@ void rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax
 		for(np = 0; np < 3; ++np)
 			outpolys[1]->verts[v].pnbrs[np] = side[outpolys[1]->verts[v].pnbrs[np]];
 #endif
+
+	return 1;
 }
 
 void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
diff --git a/src/vNd.h b/src/vNd.h
index 08022f3..445b6dc 100644
--- a/src/vNd.h
+++ b/src/vNd.h
@@ -81,8 +81,10 @@ extern "C" {
  * Order of the polynomial density field to voxelize. 
  * 0 for constant (1 moment), 1 for linear (4 moments), 2 for quadratic (10 moments), etc.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
+int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing,
-- 
2.43.0


From 50015d5b95a9d0f2504d372b109f083361f4ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:56 +0000
Subject: [PATCH 20/28] fix: the clamp_ibox functions dropped the failure
 status of the clip

---
 src/v2d.c | 7 ++++---
 src/v2d.h | 4 +++-
 src/v3d.c | 7 ++++---
 src/v3d.h | 4 +++-
 src/vNd.c | 7 ++++---
 src/vNd.h | 4 +++-
 6 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/v2d.c b/src/v2d.c
index 1192a46..425af6f 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -251,7 +251,7 @@ void r2d_get_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_rvec2 d) {
 	}
 }
 
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
+int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d) {
 	r2d_int i, nboxclip;
 	r2d_plane boxfaces[4];
 	nboxclip = 0;
@@ -260,7 +260,7 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 		if(ibox[1].ij[i] <= clampbox[0].ij[i] || ibox[0].ij[i] >= clampbox[1].ij[i]) {
 			memset(ibox, 0, 2*sizeof(r2d_dvec2));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ij[i] < clampbox[0].ij[i]) {
 			ibox[0].ij[i] = clampbox[0].ij[i];
@@ -275,5 +275,6 @@ void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r2d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return r2d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v2d.h b/src/v2d.h
index d3dbdd2..788036c 100644
--- a/src/v2d.h
+++ b/src/v2d.h
@@ -102,8 +102,10 @@ int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rv
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
+int r2d_clamp_ibox(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_dvec2 clampbox[2], r2d_rvec2 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polygon, given a grid cell spacing.
diff --git a/src/v3d.c b/src/v3d.c
index 1e8ebda..b208216 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -252,7 +252,7 @@ void r3d_get_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_rvec3 d) {
 	}
 }
 
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
+int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d) {
 	r3d_int i, nboxclip;
 	r3d_plane boxfaces[6];
 	nboxclip = 0;
@@ -261,7 +261,7 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(r3d_dvec3));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -276,5 +276,6 @@ void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) r3d_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return r3d_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/v3d.h b/src/v3d.h
index a4f1c6e..e755840 100644
--- a/src/v3d.h
+++ b/src/v3d.h
@@ -102,8 +102,10 @@ int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rve
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
+int r3d_clamp_ibox(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_dvec3 clampbox[2], r3d_rvec3 d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
diff --git a/src/vNd.c b/src/vNd.c
index fbe5274..d074d89 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -269,7 +269,7 @@ void rNd_get_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_rvec d) {
 	}
 }
 
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
+int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d) {
 	rNd_int i, nboxclip;
 	rNd_plane boxfaces[2*RND_DIM];
 	nboxclip = 0;
@@ -278,7 +278,7 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 		if(ibox[1].ijk[i] <= clampbox[0].ijk[i] || ibox[0].ijk[i] >= clampbox[1].ijk[i]) {
 			memset(ibox, 0, 2*sizeof(rNd_dvec));
 			poly->nverts = 0;
-			return;
+			return 1;
 		}
 		if(ibox[0].ijk[i] < clampbox[0].ijk[i]) {
 			ibox[0].ijk[i] = clampbox[0].ijk[i];
@@ -293,5 +293,6 @@ void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_
 			nboxclip++;
 		}	
 	}
-	if(nboxclip) rNd_clip(poly, boxfaces, nboxclip);
+	if(nboxclip) return rNd_clip(poly, boxfaces, nboxclip);
+	return 1;
 }
diff --git a/src/vNd.h b/src/vNd.h
index 445b6dc..04f1f24 100644
--- a/src/vNd.h
+++ b/src/vNd.h
@@ -102,8 +102,10 @@ int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec
  * \param [in] d 
  * The cell spacing of the grid. The origin of the grid is assumed to lie at the origin in space.
  *
+ * \return Status code indicating if operation was successful (1 - successful, 0 - unsuccessful)
+ *
  */
-void rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
+int rNd_clamp_ibox(rNd_poly* poly, rNd_dvec ibox[2], rNd_dvec clampbox[2], rNd_rvec d);
 
 /**
  * \brief Get the minimal box of grid indices for a polyhedron, given a grid cell spacing.
-- 
2.43.0


From 10790c28a0fbab05ecd397fcf094bb5d9033eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:34 +0000
Subject: [PATCH 21/28] fix: r3d_voxelize overflows int when indexing grids
 with more than 2^31 entries

---
 src/v3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v3d.c b/src/v3d.c
index b208216..97134da 100644
--- a/src/v3d.c
+++ b/src/v3d.c
@@ -103,7 +103,7 @@ int r3d_voxelize(r3d_poly* poly, r3d_dvec3 ibox[2], r3d_real* dest_grid, r3d_rve
 		}
 
 		// if all three axes are only one voxel long, reduce the single voxel to the dest grid
-#define gind(ii, jj, kk, mm) (nmom*((ii-ibox[0].i)*gridsz.j*gridsz.k+(jj-ibox[0].j)*gridsz.k+(kk-ibox[0].k))+mm)
+#define gind(ii, jj, kk, mm) (nmom*(((r3d_long)(ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))*gridsz.k+(kk-ibox[0].k))+mm)
 		if(dmax == 1) {
 			r3d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
-- 
2.43.0


From c9d5fa9038e225064a04309956635cc73008b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:34 +0000
Subject: [PATCH 22/28] fix: r2d_rasterize overflows int when indexing grids
 with more than 2^31 entries

---
 src/v2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2d.c b/src/v2d.c
index 425af6f..76d8ef0 100644
--- a/src/v2d.c
+++ b/src/v2d.c
@@ -102,7 +102,7 @@ int r2d_rasterize(r2d_poly* poly, r2d_dvec2 ibox[2], r2d_real* dest_grid, r2d_rv
 		}
 
 		// if all three axes are only one raster long, reduce the single raster to the dest grid
-#define gind(ii, jj, mm) (nmom*((ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
+#define gind(ii, jj, mm) (nmom*((r2d_long)(ii-ibox[0].i)*gridsz.j+(jj-ibox[0].j))+mm)
 		if(dmax == 1) {
 			r2d_reduce(&stack[nstack].poly, moments, polyorder);
 			// TODO: cell shifting for accuracy
-- 
2.43.0


From 925cf1f4f8ce64b0334410e67b3a198613257288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:34 +0000
Subject: [PATCH 23/28] fix: rNd_voxelize overflows int when indexing grids
 with more than 2^31 entries

---
 src/vNd.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vNd.c b/src/vNd.c
index d074d89..1b853b5 100644
--- a/src/vNd.c
+++ b/src/vNd.c
@@ -52,10 +52,10 @@ int rNd_split(rNd_poly* inpoly, rNd_poly** outpolys, rNd_real coord, rNd_int ax)
 
 int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec d, rNd_int polyorder) {
 
-	rNd_int i, j, m, ncell, spax, dmax, nstack, siz;
-	rNd_long gind;
+	rNd_int i, j, m, spax, dmax, nstack, siz;
+	rNd_long gind, ncell, stride[RND_DIM];
 	rNd_poly* children[2];
-	rNd_dvec gridsz, stride;
+	rNd_dvec gridsz;
 
 	// return if any parameters are bad 
 	// calculate grid size 
@@ -70,8 +70,8 @@ int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec
 	ncell = 1; 
 	for(i = 0; i < RND_DIM; ++i) {
 		ncell *= gridsz.ijk[i]; 
-		stride.ijk[i] = 1;
-		for(j = i+1; j < RND_DIM; ++j) stride.ijk[i] *= gridsz.ijk[j]; 
+		stride[i] = 1;
+		for(j = i+1; j < RND_DIM; ++j) stride[i] *= gridsz.ijk[j]; 
 	}
 
 	// Only zeroth-order moments for now
@@ -118,7 +118,7 @@ int rNd_voxelize(rNd_poly* poly, rNd_dvec ibox[2], rNd_real* dest_grid, rNd_rvec
 			// TODO: give this its own macro?
 			gind = 0;
 			for(i = 0; i < RND_DIM; ++i) 
-				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride.ijk[i];
+				gind += (stack[nstack].ibox[0].ijk[i]-ibox[0].ijk[i])*stride[i];
 
 			// TODO: cell shifting for accuracy
 			for(m = 0; m < nmom; ++m) dest_grid[nmom*gind+m] += moments[m];
-- 
2.43.0


From 879263d7c67e02ad6a340c63e88228f7ac8af93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 24/28] fix: deprecated r?du_init_box leaves the clip flags of
 the box unset

r3d_reduce and r2d_reduce test the clipped flag of every vertex, so a box
that was initialized and then integrated (as examples/clip.c does) was
reduced with indeterminate flags.
---
 deprecated/r2d.c | 3 +++
 deprecated/r3d.c | 1 +
 2 files changed, 4 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 704c11e..b98da24 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -592,8 +592,11 @@ void r2du_init_box(r2d_poly* poly, r2d_rvec2 rbounds[2]) {
 	// direct access to vertex buffer
 	r2d_vertex* vertbuffer = poly->verts; 
 	r2d_int* nverts = &poly->nverts; 
+	r2d_int v;
 	
 	*nverts = 4;
+	for(v = 0; v < *nverts; ++v)
+		vertbuffer[v].orient.fflags = 0x00; // not clipped
 	vertbuffer[0].pnbrs[0] = 3;	
 	vertbuffer[0].pnbrs[1] = 1;	
 	vertbuffer[1].pnbrs[0] = 0;	
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 4ffd6a1..6d67975 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -866,6 +866,7 @@ void r3du_init_box(r3d_poly* poly, r3d_rvec3 rbounds[2]) {
 		vertbuffer[4*i+2*j+k].pos.x = rbounds[i].x;
 		vertbuffer[4*i+2*j+k].pos.y = rbounds[j].y;
 		vertbuffer[4*i+2*j+k].pos.z = rbounds[k].z;
+		vertbuffer[4*i+2*j+k].orient.fflags = 0x00; // not clipped
 	}
 
 	// fill out vertex connectivity explicitly
-- 
2.43.0


From ebdb489039ab68c5368bade8ea294ef770799866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 25/28] fix: deprecated r2d_clip_quad loops forever when a face
 clips everything

A pixel that straddles two faces near a corner of the quadrilateral without
meeting it has no vertex left inside the second face; the search for one went
around the polygon endlessly.
---
 deprecated/r2d.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index b98da24..2c78b52 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -499,6 +499,9 @@ void r2d_clip_quad(r2d_poly* poly, unsigned char andcmp) {
 			}
 			vertbuffer[vcur].orient.fflags |= CLIP_MASK;
 			vcur = vnext;
+
+			// back at the start: all vertices lie outside of the face
+			if(searching && vcur == vstart) return;
 		}
 
 		// traverse to the left
-- 
2.43.0


From 571d13f2fc39378613055ddab98b239211a3869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 26/28] fix: deprecated r3d_reduce overruns its edge stack for
 large polyhedra

Every directed edge (three per vertex) is pushed once with its vertex, which
needs up to 6*R3D_MAX_VERTS entries plus the initial pair.
---
 deprecated/r3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 6d67975..0d0ea33 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -715,7 +715,7 @@ void r3d_reduce(r3d_poly* poly, r3d_int polyorder, r3d_real* moments) {
 
 	// stack for edges
 	r3d_int nvstack;
-	unsigned char vstack[2*R3D_MAX_VERTS];
+	unsigned char vstack[6*R3D_MAX_VERTS+2];
 
 	// zero the moments
 	for(m = 0; m < 10; ++m)
-- 
2.43.0


From 6072493c221fd032af24a60132fc17341319dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:35 +0000
Subject: [PATCH 27/28] fix: deprecated r3d_voxelize_tet with USE_TREE clips
 with the wrong corners

The corners of a tree node are numbered around its z-faces, whereas the
vertices of r3du_init_box are in row-major order, so the distances were
attached to the wrong vertices of every straddling voxel.
---
 deprecated/r3d.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index 0d0ea33..a436f7f 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -82,6 +82,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 	r3d_treenode treestack[128];
 	r3d_int ntreestack;
 	r3d_treenode curnode;
+
+	// node corners go around each z-face, box vertices are in row-major order
+	static const unsigned char boxcorner[8] = {0, 4, 3, 7, 1, 5, 2, 6};
 #else
 	r3d_long vv0;
 	r3d_long vv[8];
@@ -346,7 +349,7 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 			// initialize the unit cube connectivity 
 			r3du_init_box(&voxel, rbounds);
 			for(v = 0; v < voxel.nverts; ++v)
-				voxel.verts[v].orient = curnode.orient[v];
+				voxel.verts[v].orient = curnode.orient[boxcorner[v]];
 
 			// clip and reduce
 			r3d_clip_tet(&voxel, andcmp);
-- 
2.43.0


From 7a9527e36ae74ff67ae65fb54a39916657394ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:43 +0000
Subject: [PATCH 28/28] fix: deprecated quadratic cell moments overflow for
 large grid indices

3*i*i was evaluated in 32-bit integers, which overflows from index 26755 on.
---
 deprecated/r2d.c |  8 ++++----
 deprecated/r3d.c | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/deprecated/r2d.c b/deprecated/r2d.c
index 2c78b52..ae024e6 100644
--- a/deprecated/r2d.c
+++ b/deprecated/r2d.c
@@ -148,8 +148,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 				moments[2] = locvol*d.y*(j + 0.5); // y
 			}
 			if(polyorder >= 2) {
-				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+				moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 				moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 			}
 
@@ -271,8 +271,8 @@ void r2d_rasterize_quad(r2d_plane* faces, r2d_dest_grid* grid) {
 					moments[2] = locvol*d.y*(j + 0.5); // y
 				}
 				if(polyorder >= 2) {
-					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
+					moments[3] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[4] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
 					moments[5] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				}
 
diff --git a/deprecated/r3d.c b/deprecated/r3d.c
index a436f7f..9f95347 100644
--- a/deprecated/r3d.c
+++ b/deprecated/r3d.c
@@ -158,9 +158,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 				moments[3] = locvol*d.z*(k + 0.5); // z
 			}
 			if(polyorder >= 2) {
-				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+				moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+				moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+				moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 				moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 				moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 				moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
@@ -317,9 +317,9 @@ void r3d_voxelize_tet(r3d_plane* faces, r3d_dest_grid* grid) {
 					moments[3] = locvol*d.z*(k + 0.5); // z
 				}
 				if(polyorder >= 2) {
-					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3*i + 3*i*i); // x*x
-					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3*j + 3*j*j); // y*y
-					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3*k + 3*k*k); // z*z
+					moments[4] = locvol*ONE_THIRD*d.x*d.x*(1 + 3.0*i + 3.0*i*i); // x*x
+					moments[5] = locvol*ONE_THIRD*d.y*d.y*(1 + 3.0*j + 3.0*j*j); // y*y
+					moments[6] = locvol*ONE_THIRD*d.z*d.z*(1 + 3.0*k + 3.0*k*k); // z*z
 					moments[7] = locvol*0.25*d.x*d.y*(1 + 2*i)*(1 + 2*j); // x*y
 					moments[8] = locvol*0.25*d.y*d.z*(1 + 2*j)*(1 + 2*k); // y*z
 					moments[9] = locvol*0.25*d.x*d.z*(1 + 2*i)*(1 + 2*k); // z*x
-- 
2.43.0

